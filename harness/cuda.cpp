// Monitors of the CUDA part, executed by a stand-in of the CUDA runtime. Modes: ops, chains, threads, faults, memory, values, api, fft.
#include "common.h"
#include "cuda/runtime.inc"
#include "cuda/cuda_device.cuh"
#include "cuda/cuda_fft.cuh"
#include "cuda/cuda_helper.cuh"
#include "cuda/cuda_types.cuh"
#include "cuda/filtering_cuda.cuh"
#include "cuda/image_buffer_cuda.cuh"
#include "cuda/image_buffer_cuda_pinned.cuh"
#include "cuda/image_function_cuda.cuh"
#include "fft.h"
#include "filtering.h"
#include "invalid.h"
#include <array>
#include <memory>

using namespace ops;
using penguinV::ImageCuda;
using penguinV::ImageCudaPinned;
using penguinV::ImageTemplateCuda;
using penguinV::ImageTemplateCudaPinned;
using vf::fmt;

namespace
{
    // contents of device memory without the runtime
    void rawPut( const void * p, const void * data, size_t size )
    {
        vfcuda::finish();
        vfcuda::Guard g( vfcuda::world().lock );
        if ( size && !vfcuda::find( p, size ) )
            throw std::logic_error( "monitor: no such device memory" );
        vfcuda::Show show;
        if ( size )
            memcpy( const_cast<void *>( p ), data, size );
    }
    void rawGet( const void * p, void * data, size_t size )
    {
        vfcuda::finish();
        vfcuda::Guard g( vfcuda::world().lock );
        if ( size && !vfcuda::find( p, size ) )
            throw std::logic_error( "monitor: no such device memory" );
        vfcuda::Show show;
        if ( size )
            memcpy( data, p, size );
    }
#define DEVICE_FUNCTIONS Image_Function_Cuda
#define DEVICE_TO Image_Function_Cuda::ConvertToCuda
#define DEVICE_FROM Image_Function_Cuda::ConvertFromCuda
    typedef ImageCuda DeviceImage;
    const std::set<std::string> notOnDevice = { "Normalize" };
    void devPut( const void * p, const void * data, size_t size )
    {
        rawPut( p, data, size );
    }
    void devGet( const void * p, void * data, size_t size )
    {
        rawGet( p, data, size );
    }
#include "device.h"

    multiCuda::CudaDeviceManager & manager()
    {
        return multiCuda::CudaDeviceManager::instance();
    }
    multiCuda::CudaDevice & device()
    {
        return manager().device();
    }
    std::string misuse()
    {
        const std::vector<std::string> v = vfcuda::takeWrong();
        return v.empty() ? "" : "the CUDA runtime was misused: " + v[0];
    }
    template <typename F>
    bool refused( F f )
    {
        try {
            f();
        }
        catch ( const penguinVException & ) {
            return true;
        }
        return false;
    }
    // another way to execute the same
    std::string configure( Rng & rng )
    {
        vfcuda::finish();
        {
            vfcuda::Guard g( vfcuda::world().lock );
            vfcuda::world().random = rng.next() | 1;
            vfcuda::world().eager = rng.chance( 15 );
        }
        const uint32_t most = device().maximumThreadsPerBlock();
        const uint32_t threads = rng.chance( 40 ) ? most : rng.u( 1, most / 32 ) * 32;
        device().setThreadsPerBlock( threads );
        const size_t streams = rng.chance( 40 ) ? 0 : rng.u( 1, 3 );
        device().setStreamCount( streams );
        if ( streams )
            device().setCurrentStreamId( rng.u( 0, static_cast<uint32_t>( streams ) - 1 ) );
        return fmt( "%u threads, stream %zu of %zu%s: ", threads, device().currentStreamId(), streams, vfcuda::world().eager ? ", nothing is deferred" : "" );
    }
    // device memory by preallocation or not
    void arrange( Rng & rng )
    {
        vfcuda::finish();
        const int id = device().deviceId();
        manager().closeDevices(); // gives back what was preallocated
        manager().initializeDevices();
        manager().setActiveDevice( id );
        if ( rng.chance( 50 ) )
            multiCuda::MemoryManager::memory().reserve( rng.pick<size_t>( { 8u << 20, 1u << 20, 5000000, 65536, 100001 } ) );
    }

    void modeOps( vf::Ctx & ctx )
    {
        const auto list = combos();
        ctx.loop( "C01", [&]( uint64_t idx, Rng & rng ) {
            const Combo & k = list[idx % list.size()];
            if ( idx % 50 == 0 || ctx.only >= 0 )
                arrange( rng );
            const std::string how = configure( rng );
            Case c;
            c.ns = k.ns == V ? V : F;
            c.form = k.form;
            Limits lim;
            lim.big = false;
            lim.maxArea = 60000;
            generate( c, *k.op, rng, lim );
            std::string inv;
            if ( rng.chance( 15 ) ) {
                inv = invalidate( c, rng );
                c.invalid = !inv.empty();
            }
            const std::string text = how + fmt( "%s on the device: ", nsName( k.ns ) ) + describe( c ) + ( inv.empty() ? "" : " [" + inv + "]" );
            ctx.begin( idx, text );
            const vfcuda::Live objects = vfcuda::live();
            Judged j;
            try {
                j = judge( c, rng, k.ns, true );
            }
            catch ( const std::exception & e ) {
                j.sig = "exception";
                j.text = e.what();
            }
            vfcuda::finish();
            if ( j.sig.empty() && !( vfcuda::live() == objects ) ) {
                j.sig = "objects";
                j.text = "before the call: " + objects.text() + ", after it: " + vfcuda::live().text();
            }
            const std::string w = misuse();
            if ( j.sig.empty() && !w.empty() ) {
                j.sig = "misuse";
                j.text = w;
            }
            if ( !j.sig.empty() )
                ctx.fail( sigOf( c, k.ns ) + "/" + j.sig, text + ": " + j.text );
            ++ctx.evaluations;
            ctx.hit( fmt( "%s: %s", nsName( k.ns ), j.how.c_str() ) );
            ctx.hit( "values compared", j.values );
            if ( c.w * c.h > 1 )
                ctx.distinct.insert( hashOf( c, k.ns ) );
            ctx.sample( text );
        } );
    }

    // several operations in a row without waiting for anything in between
    void modeChains( vf::Ctx & ctx )
    {
        ctx.loop( "C01 chains", [&]( uint64_t idx, Rng & rng ) {
            if ( idx % 20 == 0 || ctx.only >= 0 )
                arrange( rng );
            std::string text = configure( rng );
            const uint32_t w = rng.u( 1, 90 ), h = rng.u( 1, 40 );
            auto fresh = [&]() {
                Image im( w, h, 1, rng.pick<uint8_t>( { 1, 1, 4, 16 } ) );
                randomBytes( im.data(), static_cast<size_t>( im.rowSize() ) * h, rng );
                return im;
            };
            const uint32_t n = rng.u( 2, 12 );
            text += fmt( "%u operations on images %ux%u", n, w, h );
            ctx.begin( idx, text );
            std::string bad, history;
            const vfcuda::Live objects = vfcuda::live();
            try {
                namespace C = Image_Function_Cuda;
                namespace P = Image_Function;
                std::vector<Image> cpu, gpu;
                for ( int k = 0; k < 3; ++k ) {
                    cpu.push_back( fresh() );
                    gpu.push_back( C::ConvertToCuda( cpu.back() ) );
                }
                auto same = [&]( const std::vector<uint32_t> & a, const std::vector<uint32_t> & b ) {
                    if ( a != b && bad.empty() )
                        bad = "another vector of numbers";
                };
                for ( uint32_t k = 0; k < n && bad.empty(); ++k ) {
                    const uint32_t a = rng.u( 0, 2 ), b = rng.u( 0, 2 ), o = rng.u( 0, 2 );
                    const uint8_t v = static_cast<uint8_t>( rng.next() );
                    const uint32_t x = rng.u( 0, w - 1 ), y = rng.u( 0, h - 1 ), rw = rng.u( 1, w - x ), rh = rng.u( 1, h - y );
                    const uint32_t what = rng.u( 0, 13 );
                    history += fmt( " %u(%u %u %u)", what, a, b, o );
                    switch ( what ) {
                    case 0:
                        P::Invert( cpu[a], cpu[o] );
                        C::Invert( gpu[a], gpu[o] );
                        break;
                    case 1:
                        cpu[o] = P::Subtract( cpu[a], cpu[b] );
                        gpu[o] = C::Subtract( gpu[a], gpu[b] );
                        break;
                    case 2:
                        P::BitwiseXor( cpu[a], cpu[b], cpu[o] );
                        C::BitwiseXor( gpu[a], gpu[b], gpu[o] );
                        break;
                    case 3: {
                        std::vector<uint8_t> table( 256 );
                        randomBytes( table.data(), table.size(), rng );
                        P::LookupTable( cpu[a], cpu[o], table );
                        C::LookupTable( gpu[a], gpu[o], table );
                        break;
                    }
                    case 4:
                        same( P::Histogram( cpu[a] ), C::Histogram( gpu[a] ) );
                        break;
                    case 5:
                        same( P::ProjectionProfile( cpu[a], x, y, rw, rh, ( v & 1 ) != 0 ), C::ProjectionProfile( gpu[a], x, y, rw, rh, ( v & 1 ) != 0 ) );
                        break;
                    case 6:
                        if ( P::IsEqual( cpu[a], cpu[b] ) != C::IsEqual( gpu[a], gpu[b] ) )
                            bad = "equality is seen differently";
                        break;
                    case 7:
                        P::Fill( cpu[o], x, y, rw, rh, v );
                        C::Fill( gpu[o], x, y, rw, rh, v );
                        break;
                    case 8:
                        cpu[o] = cpu[a];
                        gpu[o] = gpu[a];
                        break;
                    case 9: { // through the host
                        Image t = C::ConvertFromCuda( gpu[a] );
                        bad = sameImages( t, cpu[a] );
                        Image u = C::ConvertToCuda( t );
                        gpu[a].swap( u );
                        break;
                    }
                    case 10: {
                        const std::vector<uint32_t> px( 3, x ), py( 3, y );
                        P::SetPixel( cpu[o], px, py, v );
                        C::SetPixel( gpu[o], px, py, v );
                        break;
                    }
                    case 11:
                        P::GammaCorrection( cpu[a], cpu[o], 1.1, 0.7 );
                        C::GammaCorrection( gpu[a], gpu[o], 1.1, 0.7 );
                        break;
                    case 12:
                        cpu[o].fill( v );
                        gpu[o].fill( v );
                        break;
                    default: {
                        Image t = fresh();
                        C::ConvertToCuda( t, gpu[o] );
                        P::Copy( t, 0, 0, cpu[o], 0, 0, w, h );
                        break;
                    }
                    }
                }
                for ( int k = 0; k < 3 && bad.empty(); ++k ) {
                    bad = sameImages( C::ConvertFromCuda( gpu[k] ), cpu[k] );
                    if ( !bad.empty() )
                        bad = fmt( "image %d: ", k ) + bad;
                }
            }
            catch ( const std::exception & e ) {
                bad = std::string( "exception: " ) + e.what();
            }
            vfcuda::finish();
            if ( bad.empty() && !( vfcuda::live() == objects ) )
                bad = "before: " + objects.text() + ", after: " + vfcuda::live().text();
            if ( bad.empty() )
                bad = misuse();
            vfcuda::takeWrong();
            if ( !bad.empty() )
                ctx.fail( "chain", text + ":" + history + ": " + bad );
            ++ctx.evaluations;
            ctx.hit( "operations in chains", n );
            ctx.distinct.insert( vf::mix( vf::hashStr( history ), w * 100 + h ) );
            ctx.sample( text + ":" + history );
        } );
    }

    // the same from several threads at once, every thread on a device of its choice
    void modeThreads( vf::Ctx & ctx )
    {
        const auto list = combos();
        const int devices = manager().deviceCount();
        sharedSimd = true;
        ctx.loop( "C01 threads", [&]( uint64_t idx, Rng & rng ) {
            arrange( rng );
            for ( int d = 0; d < devices; ++d ) {
                manager().setActiveDevice( d );
                configure( rng );
                if ( rng.chance( 50 ) && d != 0 )
                    multiCuda::MemoryManager::memory().reserve( 1u << 20 );
            }
            manager().setActiveDevice( static_cast<int>( rng.u( 0, devices - 1 ) ) );
            const int mine = device().deviceId();
            const uint32_t n = rng.u( 2, 4 ), m = rng.u( 2, 6 );
            const std::string text = fmt( "%u threads with %u calls on the devices each", n, m );
            ctx.begin( idx, text );
            std::vector<std::thread> ts;
            std::mutex lock;
            std::atomic<uint32_t> ready{ 0 };
            const uint64_t seed = rng.next();
            for ( uint32_t t = 0; t < n; ++t )
                ts.emplace_back( [&, t]() {
                    Rng r( vf::mix( seed, t ) );
                    std::vector<Case> cases( m );
                    for ( Case & c : cases ) {
                        const Combo * k = nullptr;
                        do
                            k = &r.pick( list );
                        while ( k->ns != G );
                        c.ns = F;
                        c.form = k->form;
                        Limits lim;
                        lim.big = false;
                        lim.maxArea = 20000;
                        generate( c, *k->op, r, lim );
                    }
                    ready.fetch_add( 1 );
                    while ( ready.load() < n )
                        std::this_thread::yield();
                    int on = 0;
                    for ( Case & c : cases ) {
                        Judged j;
                        try {
                            if ( r.chance( 60 ) ) {
                                on = static_cast<int>( r.u( 0, devices - 1 ) );
                                manager().setActiveDevice( on );
                            }
                            Image f = ImageCuda().generate( r.u( 1, 300 ), r.u( 1, 40 ) );
                            if ( device().deviceId() != on || vfcuda::deviceOf( f.data() ) != on ) {
                                j.sig = "device";
                                j.text = fmt( "device %d is active instead of %d, memory is on %d", device().deviceId(), on, vfcuda::deviceOf( f.data() ) );
                            }
                            else
                                j = judge( c, r, G, false );
                        }
                        catch ( const std::exception & e ) {
                            j.sig = "exception";
                            j.text = e.what();
                        }
                        std::lock_guard<std::mutex> g( lock );
                        ++ctx.evaluations;
                        ctx.hit( "values compared", j.values );
                        if ( !j.sig.empty() )
                            ctx.fail( "threads/" + sigOf( c, G ) + "/" + j.sig, text + ": " + describe( c ) + ": " + j.text );
                        ctx.distinct.insert( hashOf( c, G ) );
                    }
                } );
            for ( auto & t : ts )
                t.join();
            const std::string w = misuse();
            if ( !w.empty() )
                ctx.fail( "threads/misuse", text + ": " + w );
            if ( device().deviceId() != mine )
                ctx.fail( "threads/device", text + ": threads changed the active device of another thread" );
            ctx.sample( text );
        } );
    }

    // a failing call of the runtime must end in an exception and nothing must be lost
    void modeFaults( vf::Ctx & ctx )
    {
        const auto list = combos();
        ctx.loop( "C01 faults", [&]( uint64_t idx, Rng & rng ) {
            const Combo & k = list[idx % list.size()];
            if ( k.ns != G )
                return;
            if ( idx % 50 == 0 || ctx.only >= 0 )
                arrange( rng );
            const std::string how = configure( rng );
            Case c;
            c.ns = F;
            c.form = k.form;
            Limits lim;
            lim.big = false;
            lim.maxArea = 20000;
            generate( c, *k.op, rng, lim );
            Case d = c;
            d.ns = G;
            const int at = static_cast<int>( rng.u( 0, rng.chance( 70 ) ? 4 : 12 ) );
            const uint32_t route = rng.u( 0, 9 ); // also transfers of images
            const std::string text = how + fmt( "failure of CUDA call %d in ", at ) + ( route == 0 ? "transfers before " : "" ) + sigOf( c, G ) + " " + describe( c );
            ctx.begin( idx, text );
            const vfcuda::Live objects = vfcuda::live();
            std::string bad;
            try {
                if ( route == 0 && !c.in.empty() && !c.in[0].empty() && c.in[0].colorCount() != 2 ) {
                    const uint64_t before = vfcuda::injected;
                    std::string what;
                    bool thrown = false;
                    vfcuda::countdown = at;
                    try {
                        Image t = Image_Function_Cuda::ConvertToCuda( c.in[0] );
                        Image u = t;
                        Image v = ImageCuda().generate();
                        v = u;
                        Image x = Image_Function_Cuda::ConvertFromCuda( v );
                        vfcuda::countdown = -1;
                        bad = sameImages( x, c.in[0] );
                    }
                    catch ( const std::exception & e ) {
                        what = e.what();
                        thrown = true;
                    }
                    vfcuda::countdown = -1;
                    if ( thrown != ( vfcuda::injected != before ) )
                        bad = thrown ? "a transfer was refused without a failure: " + what : "a transfer returned normally";
                    vfcuda::finish();
                    if ( bad.empty() && !( vfcuda::live() == objects ) )
                        bad = "memory was lost by a transfer";
                    if ( bad.empty() )
                        bad = sameImages( Image_Function_Cuda::ConvertFromCuda( Image_Function_Cuda::ConvertToCuda( c.in[0] ) ), c.in[0] );
                }
                for ( Image & im : d.in ) {
                    Image t = upload( im );
                    im.swap( t );
                }
                for ( Image & im : d.out ) {
                    Image t = upload( im );
                    im.swap( t );
                }
                const uint64_t before = vfcuda::injected;
                Result r;
                vfcuda::countdown = at;
                run( d, r );
                vfcuda::countdown = -1;
                const bool hit = vfcuda::injected != before;
                ctx.hit( hit ? "calls with a failure" : "calls without" );
                if ( hit && r.status == 0 && bad.empty() )
                    bad = "the call returned normally";
                else if ( !hit && r.status != 0 && !mayRefuse( c ) && bad.empty() )
                    bad = "refused without a failure: " + r.what;
                for ( size_t q = 0; q < d.in.size() && bad.empty() && k.op->kind != INOUT; ++q )
                    bad = sameImages( download( d.in[q] ), c.in[q] );
                if ( bad.empty() && hit && k.op->kind != INOUT && !mayRefuse( c ) ) {
                    const bool replaced = k.op->name == "Copy" && c.form == 2; // an assigned image may be lost with the failure
                    if ( replaced )
                        for ( size_t q = 0; q < d.out.size(); ++q ) {
                            Image t = upload( c.out[q] );
                            d.out[q].swap( t );
                        }
                    Result again, plain;
                    d.vec = c.vec;
                    run( d, again );
                    Case ref = c;
                    run( ref, plain );
                    Case back = d;
                    back.in.clear();
                    back.in = c.in;
                    back.out.clear();
                    for ( const Image & im : d.out )
                        back.out.push_back( download( im ) );
                    if ( again.hasImg ) {
                        Image t = download( again.img );
                        again.img.swap( t );
                    }
                    std::vector<std::vector<uint32_t>> x, y;
                    if ( again.status )
                        bad = "the next call was refused: " + again.what;
                    else {
                        bad = collect( ref, plain, x );
                        if ( bad.empty() )
                            bad = collect( back, again, y );
                        if ( bad.empty() && x != y )
                            bad = "the next call gave another result";
                    }
                }
            }
            catch ( const std::exception & e ) {
                bad = std::string( "unexpected exception: " ) + e.what();
            }
            vfcuda::countdown = -1;
            d.in.clear();
            d.out.clear();
            cudaGetLastError();
            vfcuda::finish();
            if ( bad.empty() && !( vfcuda::live() == objects ) )
                bad = "before the call: " + objects.text() + ", after it: " + vfcuda::live().text();
            if ( bad.empty() )
                bad = misuse();
            vfcuda::takeWrong();
            if ( !bad.empty() )
                ctx.fail( "fault/" + sigOf( c, G ), text + ": " + bad );
            ++ctx.evaluations;
            ctx.distinct.insert( vf::mix( hashOf( c, G ), static_cast<uint64_t>( at ) ) );
            ctx.sample( text );
        } );
    }

    // blocks of device memory
    void modeMemory( vf::Ctx & ctx )
    {
        ctx.loop( "C01 memory", [&]( uint64_t idx, Rng & rng ) {
            vfcuda::finish();
            manager().closeDevices();
            manager().initializeDevices();
            manager().setActiveDevice( static_cast<int>( rng.u( 0, manager().deviceCount() - 1 ) ) );
            configure( rng );
            multiCuda::MemoryAllocator & memory = multiCuda::MemoryManager::memory();
            const vfcuda::Live objects = vfcuda::live();
            const size_t P = rng.chance( 15 ) ? 0 : rng.pick<size_t>( { 4096, 65536, 100000, 1u << 20, 3u << 18, 8191, 31, 1 } ) + rng.u( 0, 3 ) * rng.u( 0, 512 );
            const uint32_t steps = rng.u( 5, 120 ), threads = rng.chance( 25 ) ? rng.u( 2, 4 ) : 1;
            const std::string text = fmt( "preallocated %zu bytes, %u steps in %u threads", P, steps, threads );
            ctx.begin( idx, text );
            std::string bad;
            std::mutex lock;
            auto wrong = [&]( const std::string & s ) {
                std::lock_guard<std::mutex> g( lock );
                if ( bad.empty() )
                    bad = s;
            };
            struct Held
            {
                uint8_t * p;
                size_t n;
                std::vector<uint8_t> bytes;
            };
            std::map<uint8_t *, size_t> all; // of all threads
            try {
                if ( P )
                    memory.reserve( P );
            }
            catch ( const std::exception & e ) {
                wrong( std::string( "preallocation failed: " ) + e.what() );
            }
            const int on = device().deviceId();
            const uint64_t seed = rng.next();
            auto work = [&]( uint32_t t ) {
                Rng r( vf::mix( seed, t ) );
                std::vector<Held> held;
                try {
                    manager().setActiveDevice( on );
                    for ( uint32_t s = 0; s < steps; ++s ) {
                        if ( held.empty() || r.chance( 55 ) ) {
                            const size_t unit = r.pick<size_t>( { 1, 1, 4, 8 } );
                            const size_t n = ( r.chance( 60 ) ? r.u( 1, 300 ) : r.u( 1, static_cast<uint32_t>( P + 5000 ) ) ) / unit + 1;
                            if ( r.chance( 4 ) ) { // impossible requests
                                const size_t huge = r.pick<size_t>( { static_cast<size_t>( -1 ) / 8 + 2, static_cast<size_t>( -1 ) / 8 + 17, static_cast<size_t>( 1 ) << 61, static_cast<size_t>( -1 ) - r.u( 0, 100 ) } );
                                bool thrown = false;
                                try {
                                    uint64_t * q = memory.allocate<uint64_t>( huge );
                                    memory.free( q );
                                }
                                catch ( const std::exception & ) {
                                    thrown = true;
                                }
                                if ( !thrown )
                                    wrong( fmt( "%zu numbers were allocated", huge ) );
                                continue;
                            }
                            uint8_t * p = unit == 1 ? memory.allocate<uint8_t>( n )
                                                    : ( unit == 4 ? reinterpret_cast<uint8_t *>( memory.allocate<uint32_t>( n ) ) : reinterpret_cast<uint8_t *>( memory.allocate<uint64_t>( n ) ) );
                            Held h{ p, n * unit, std::vector<uint8_t>( n * unit ) };
                            if ( reinterpret_cast<size_t>( p ) % unit != 0 )
                                wrong( fmt( "a block for units of %zu bytes is not aligned", unit ) );
                            {
                                std::lock_guard<std::mutex> g( lock );
                                auto next = all.lower_bound( p );
                                if ( next != all.end() && p + h.n > next->first && bad.empty() )
                                    bad = "blocks overlap";
                                if ( next != all.begin() && std::prev( next )->first + std::prev( next )->second > p && bad.empty() )
                                    bad = "blocks overlap";
                                all[p] = h.n;
                            }
                            if ( vfcuda::deviceOf( p ) != on )
                                wrong( fmt( "a block is on device %d instead of %d", vfcuda::deviceOf( p ), on ) );
                            randomBytes( h.bytes.data(), h.bytes.size(), r );
                            if ( cudaMemcpy( p, h.bytes.data(), h.n, cudaMemcpyHostToDevice ) != cudaSuccess )
                                wrong( "a block is not within device memory" );
                            held.push_back( h );
                        }
                        else {
                            const size_t k = r.u( 0, static_cast<uint32_t>( held.size() ) - 1 );
                            std::vector<uint8_t> now( held[k].n );
                            if ( cudaMemcpy( now.data(), held[k].p, now.size(), cudaMemcpyDeviceToHost ) != cudaSuccess || now != held[k].bytes )
                                wrong( "contents of a block changed" );
                            {
                                std::lock_guard<std::mutex> g( lock );
                                all.erase( held[k].p );
                            }
                            memory.free( held[k].p );
                            held.erase( held.begin() + static_cast<std::ptrdiff_t>( k ) );
                        }
                    }
                    for ( const Held & h : held ) {
                        {
                            std::lock_guard<std::mutex> g( lock );
                            all.erase( h.p );
                        }
                        memory.free( h.p );
                    }
                }
                catch ( const std::exception & e ) {
                    wrong( std::string( "exception: " ) + e.what() );
                }
            };
            if ( threads == 1 )
                work( 0 );
            else {
                std::vector<std::thread> ts;
                for ( uint32_t t = 0; t < threads; ++t )
                    ts.emplace_back( work, t );
                for ( auto & t : ts )
                    t.join();
            }
            // everything is available again
            try {
                if ( P > 1 && bad.empty() ) {
                    const vfcuda::Live full = vfcuda::live();
                    size_t largest = 1;
                    while ( largest * 2 <= P )
                        largest *= 2;
                    if ( largest == P )
                        largest = P - 1; // exactly the whole is not taken from the preallocated memory
                    uint8_t * p = memory.allocate<uint8_t>( largest );
                    if ( vfcuda::live().blocks != full.blocks )
                        wrong( fmt( "%zu of %zu free bytes are not available in one piece", largest, P ) );
                    memory.free( p );
                }
                if ( rng.chance( 30 ) ) {
                    memory.reserve( P + 4096 );
                    uint8_t * p = memory.allocate<uint8_t>( 100 );
                    memory.free( p );
                }
            }
            catch ( const std::exception & e ) {
                wrong( std::string( "exception at the end: " ) + e.what() );
            }
            const int id = device().deviceId();
            manager().closeDevice( id );
            vfcuda::finish();
            if ( bad.empty() && vfcuda::live().blocks + ( P ? 0 : 0 ) != objects.blocks )
                wrong( "closing of the device left memory: " + vfcuda::live().text() + ", before: " + objects.text() );
            manager().initializeDevice( id );
            if ( bad.empty() )
                bad = misuse();
            vfcuda::takeWrong();
            cudaGetLastError();
            if ( !bad.empty() )
                ctx.fail( "memory", text + ": " + bad );
            ++ctx.evaluations;
            ctx.hit( "steps", steps * threads );
            ctx.distinct.insert( vf::mix( seed, P ) );
            ctx.sample( text );
        } );
    }

    template <typename T>
    std::vector<T> numbers( Rng & rng, size_t n )
    {
        std::vector<T> v( n );
        for ( T & x : v )
            x = static_cast<T>( rng.next() );
        return v;
    }

    // single values and arrays of a type in device memory
    template <typename T>
    std::string typed( Rng & rng, uint32_t steps, bool faults )
    {
        std::string history;
        struct A
        {
            std::unique_ptr<multiCuda::Array<T>> a;
            std::vector<T> v;
            bool known;
        };
        struct B
        {
            std::unique_ptr<multiCuda::Type<T>> a;
            T v;
            bool known;
        };
        std::vector<A> arrays;
        std::vector<B> values;
        std::string bad;
        for ( uint32_t s = 0; s < steps && bad.empty(); ++s ) {
            const uint32_t what = rng.u( 0, 14 );
            const size_t n = rng.chance( 12 ) ? 0 : rng.u( 1, 200 );
            history += fmt( " %u", what );
            const uint64_t before = vfcuda::injected;
            if ( faults && rng.chance( 30 ) )
                vfcuda::countdown = static_cast<int>( rng.u( 0, 2 ) );
            size_t touched = static_cast<size_t>( -1 );
            B * value = nullptr;
            try {
                A * a = arrays.empty() ? nullptr : &arrays[touched = rng.u( 0, static_cast<uint32_t>( arrays.size() ) - 1 )];
                const A * b = arrays.empty() ? nullptr : &arrays[rng.u( 0, static_cast<uint32_t>( arrays.size() ) - 1 )];
                if ( what < 3 || ( !a && what < 10 ) ) {
                    touched = static_cast<size_t>( -1 );
                    const std::vector<T> v = numbers<T>( rng, n );
                    A x{ nullptr, v, true };
                    switch ( what % 4 ) {
                    case 0:
                        x.a.reset( new multiCuda::Array<T>( v ) );
                        break;
                    case 1:
                        x.a.reset( new multiCuda::Array<T>( n ) );
                        x.known = n == 0;
                        break;
                    case 2:
                        x.a.reset( new multiCuda::Array<T>() );
                        x.v.clear();
                        break;
                    default:
                        if ( b ) {
                            x.a.reset( new multiCuda::Array<T>( *b->a ) );
                            x.v = b->v;
                            x.known = b->known;
                        }
                        else
                            x.a.reset( new multiCuda::Array<T>( v ) );
                    }
                    arrays.push_back( std::move( x ) );
                }
                else if ( what == 3 ) {
                    const std::vector<T> v = numbers<T>( rng, n );
                    *a->a = v;
                    a->v = v;
                    a->known = true;
                }
                else if ( what == 4 ) {
                    *a->a = *b->a;
                    a->v = b->v;
                    a->known = b->known;
                }
                else if ( what == 5 ) {
                    multiCuda::Array<T> c( *b->a );
                    *a->a = std::move( c );
                    a->v = b->v;
                    a->known = b->known;
                }
                else if ( what == 6 ) {
                    const bool same = n == a->v.size();
                    a->a->resize( n );
                    a->v.resize( n );
                    a->known = ( a->known && same ) || n == 0;
                }
                else if ( what == 7 ) {
                    multiCuda::Array<T> c( std::move( *a->a ) );
                    if ( c.size() != a->v.size() )
                        bad = "a moved array has another size";
                    *a->a = std::move( c );
                }
                else if ( what == 8 && arrays.size() > 3 ) {
                    arrays.erase( arrays.begin() + static_cast<std::ptrdiff_t>( touched ) );
                    touched = static_cast<size_t>( -1 );
                }
                else if ( what >= 9 ) {
                    touched = static_cast<size_t>( -1 );
                    const T v = static_cast<T>( rng.next() );
                    if ( values.size() < 3 ) {
                        B x{ nullptr, v, true };
                        const bool copy = !values.empty() && rng.chance( 40 );
                        if ( copy ) {
                            x.a.reset( new multiCuda::Type<T>( *values[0].a ) );
                            x.v = values[0].v;
                            x.known = values[0].known;
                        }
                        else
                            x.a.reset( new multiCuda::Type<T>( v ) );
                        values.push_back( std::move( x ) );
                    }
                    else {
                        B & x = values[rng.u( 0, 2 )];
                        const B & y = values[rng.u( 0, 2 )];
                        value = &x;
                        if ( what < 11 ) {
                            *x.a = v;
                            x.v = v;
                            x.known = true;
                        }
                        else if ( what < 13 ) {
                            *x.a = *y.a;
                            x.v = y.v;
                            x.known = y.known;
                        }
                        else if ( what == 13 ) {
                            multiCuda::Type<T> c( *y.a );
                            *x.a = std::move( c );
                            x.v = y.v;
                            x.known = y.known;
                        }
                        else
                            values.erase( values.begin() + ( &x - &values[0] ) );
                    }
                }
                if ( vfcuda::injected != before && bad.empty() )
                    bad = "a failing call was not reported";
            }
            catch ( const std::exception & e ) {
                vfcuda::countdown = -1;
                if ( vfcuda::injected == before )
                    bad = std::string( "exception: " ) + e.what();
                else if ( touched != static_cast<size_t>( -1 ) ) { // its contents may be lost, but it has to be consistent
                    A & a = arrays[touched];
                    a.known = a.a->size() == 0;
                    a.v.resize( a.a->size() );
                    if ( ( a.a->size() == 0 ) != a.a->empty() || ( a.a->size() && vfcuda::deviceOf( a.a->data() ) < 0 ) )
                        bad = fmt( "after a failure an array of %zu numbers has %s memory", a.a->size(), a.a->empty() ? "no" : "wrong" );
                }
                else if ( value )
                    value->known = false;
            }
            vfcuda::countdown = -1;
            for ( size_t k = 0; k < arrays.size() && bad.empty(); ++k ) {
                const A & a = arrays[k];
                if ( a.a->size() != a.v.size() || a.a->empty() != a.v.empty() || ( a.a->data() == nullptr ) != a.v.empty() )
                    bad = fmt( "array %zu has %zu numbers instead of %zu", k, a.a->size(), a.v.size() );
                else if ( a.known && rng.chance( 30 ) && a.a->get() != a.v )
                    bad = fmt( "array %zu has other numbers", k );
                for ( size_t q = 0; q < k && bad.empty(); ++q )
                    if ( a.a->data() && a.a->data() == arrays[q].a->data() )
                        bad = "two arrays share memory";
            }
            for ( size_t k = 0; k < values.size() && bad.empty(); ++k )
                if ( values[k].known && rng.chance( 50 ) && values[k].a->get() != values[k].v )
                    bad = fmt( "value %zu is another one", k );
        }
        return bad.empty() ? "" : history + ": " + bad;
    }

    // device images of a type as values
    template <typename T, typename I>
    std::string images( Rng & rng, uint32_t steps, bool faults, bool pinned )
    {
        typedef penguinV::ImageTemplate<T> Base;
        struct H
        {
            std::unique_ptr<I> im;
            uint32_t w, h;
            uint8_t cc, al;
            std::vector<T> v; // rows without padding
            bool known;
        };
        std::vector<H> list;
        std::string bad, history;
        auto rowOf = []( const Base & im ) { return static_cast<size_t>( im.rowSize() ); };
        auto put = [&]( H & x ) {
            x.v = numbers<T>( rng, static_cast<size_t>( x.w ) * x.h * x.cc );
            for ( uint32_t y = 0; y < x.h; ++y ) {
                T * row = x.im->data() + rowOf( *x.im ) * y;
                const size_t n = static_cast<size_t>( x.w ) * x.cc;
                if ( pinned )
                    std::copy( x.v.begin() + static_cast<std::ptrdiff_t>( n * y ), x.v.begin() + static_cast<std::ptrdiff_t>( n * ( y + 1 ) ), row );
                else
                    rawPut( row, x.v.data() + n * y, n * sizeof( T ) );
            }
            x.known = true;
        };
        auto look = [&]( const H & x ) -> std::string {
            const I & im = *x.im;
            if ( im.type() != I().type() )
                return fmt( "type %u", im.type() );
            if ( im.width() != x.w || im.height() != x.h || im.empty() != ( x.w == 0 || x.h == 0 ) )
                return fmt( "%ux%u instead of %ux%u", im.width(), im.height(), x.w, x.h );
            if ( im.empty() )
                return "";
            if ( im.colorCount() != x.cc )
                return fmt( "%u channels instead of %u", im.colorCount(), x.cc );
            const size_t bytes = rowOf( im ) * x.h * sizeof( T );
            {
                vfcuda::Guard g( vfcuda::world().lock );
                const auto * m = vfcuda::find( im.data(), bytes );
                if ( !m )
                    return fmt( "%zu bytes of an image %ux%u are not within a block of memory", bytes, x.w, x.h );
                if ( ( m->second.device < 0 ) != pinned )
                    return "memory is of another kind";
            }
            if ( !x.known )
                return "";
            const size_t n = static_cast<size_t>( x.w ) * x.cc;
            std::vector<T> row( n );
            for ( uint32_t y = 0; y < x.h; ++y ) {
                if ( pinned )
                    std::copy( im.data() + rowOf( im ) * y, im.data() + rowOf( im ) * y + n, row.begin() );
                else
                    rawGet( im.data() + rowOf( im ) * y, row.data(), n * sizeof( T ) );
                if ( !std::equal( row.begin(), row.end(), x.v.begin() + static_cast<std::ptrdiff_t>( n * y ) ) )
                    return fmt( "row %u has other contents", y );
            }
            return "";
        };
        for ( uint32_t s = 0; s < steps && bad.empty(); ++s ) {
            const uint32_t what = rng.u( 0, 10 );
            history += fmt( " %u", what );
            const uint64_t before = vfcuda::injected;
            size_t touched = static_cast<size_t>( -1 );
            const bool arm = faults && rng.chance( 30 );
            auto start = [&]() {
                if ( arm )
                    vfcuda::countdown = static_cast<int>( rng.u( 0, 1 ) );
            };
            try {
                const uint32_t w = rng.u( 0, 40 ), h = rng.u( 0, 12 );
                const uint8_t cc = rng.pick<uint8_t>( { 1, 1, 3, 4 } ), al = rng.pick<uint8_t>( { 1, 1, 2, 4, 8, 16 } );
                const bool none = w == 0 || h == 0;
                if ( list.size() < 2 || ( what == 0 && list.size() < 5 ) ) {
                    start();
                    H x{ nullptr, none ? 0 : w, none ? 0 : h, cc, al, {}, none };
                    x.im.reset( new I( w, h, cc, al ) );
                    vfcuda::countdown = -1;
                    put( x );
                    list.push_back( std::move( x ) );
                }
                else {
                    H & a = list[touched = rng.u( 0, static_cast<uint32_t>( list.size() ) - 1 )];
                    const H & b = list[rng.u( 0, static_cast<uint32_t>( list.size() ) - 1 )];
                    auto like = [&]( H & to ) {
                        to.w = b.w;
                        to.h = b.h;
                        to.cc = b.cc;
                        to.v = b.v;
                        to.known = b.known;
                    };
                    start();
                    switch ( what ) {
                    case 1: { // copy
                        H x{ nullptr, 0, 0, 1, 1, {}, true };
                        x.im.reset( new I( *b.im ) );
                        like( x );
                        touched = static_cast<size_t>( -1 );
                        list.push_back( std::move( x ) );
                        break;
                    }
                    case 2:
                        *a.im = *b.im;
                        if ( &a != &b )
                            like( a );
                        break;
                    case 3: {
                        I t( *b.im );
                        *a.im = std::move( t );
                        if ( &a != &b )
                            like( a );
                        break;
                    }
                    case 4: {
                        I t( std::move( *a.im ) );
                        a.im->swap( t );
                        break;
                    }
                    case 5: {
                        const T v = static_cast<T>( rng.next() );
                        if ( !a.im->empty() ) {
                            a.im->fill( v );
                            std::fill( a.v.begin(), a.v.end(), v );
                            a.known = true;
                        }
                        break;
                    }
                    case 6: { // nothing happens without width or height
                        const bool same = ( a.w == w && a.h == h ) || none;
                        a.im->resize( w, h );
                        if ( !same ) {
                            a.w = w;
                            a.h = h;
                            vfcuda::countdown = -1;
                            put( a );
                        }
                        break;
                    }
                    case 7: {
                        Base t = a.im->generate( w, h, cc, al );
                        if ( t.type() != a.im->type() || t.width() != ( none ? 0 : w ) )
                            bad = "a generated image has another type or size";
                        break;
                    }
                    case 8: {
                        Base t( *b.im ); // through the base class
                        Base u( t.generate() );
                        u = t;
                        if ( u.type() != b.im->type() )
                            bad = "a copy has another type";
                        break;
                    }
                    case 9:
                        a.im->clear();
                        a.w = a.h = 0;
                        a.v.clear();
                        a.known = true;
                        break;
                    default: // between kinds of memory
                        if ( !a.im->empty() && rng.chance( 50 ) )
                            a.im->copy( *a.im );
                        break;
                    }
                    if ( arm && vfcuda::countdown == -1 && vfcuda::injected != before && bad.empty() )
                        bad = "a failing call was not reported";
                }
            }
            catch ( const std::exception & e ) {
                vfcuda::countdown = -1;
                if ( vfcuda::injected == before )
                    bad = std::string( "exception: " ) + e.what();
                else if ( touched != static_cast<size_t>( -1 ) ) {
                    H & a = list[touched]; // its contents may be lost
                    a.w = a.im->width();
                    a.h = a.im->height();
                    a.cc = a.im->colorCount();
                    a.known = false;
                    if ( !a.im->empty() && a.im->data() == nullptr )
                        bad = "after a failure an image has a size but no memory";
                    else if ( !a.im->empty() )
                        put( a );
                    else
                        a.v.clear();
                }
            }
            vfcuda::countdown = -1;
            for ( size_t k = 0; k < list.size() && bad.empty(); ++k ) {
                bad = look( list[k] );
                if ( !bad.empty() )
                    bad = fmt( "image %zu: ", k ) + bad;
            }
            if ( list.size() > 5 )
                list.erase( list.begin() );
        }
        return bad.empty() ? "" : history + ": " + bad;
    }

    void modeValues( vf::Ctx & ctx )
    {
        ctx.loop( "C01 values", [&]( uint64_t idx, Rng & rng ) {
            if ( idx % 10 == 0 || ctx.only >= 0 )
                arrange( rng );
            const std::string how = configure( rng );
            const uint32_t kind = static_cast<uint32_t>( idx % 9 ), steps = rng.u( 5, 40 );
            const bool faults = rng.chance( 40 );
            static const char * names[] = { "arrays of bytes", "arrays of 32-bit numbers", "arrays of 64-bit numbers", "arrays of floating-point numbers", "images", "images of 16-bit values",
                                            "images in pinned memory", "images of 16-bit values in pinned memory", "images of 32-bit values" };
            const std::string text = how + fmt( "%u steps with %s%s", steps, names[kind], faults ? " and failures" : "" );
            ctx.begin( idx, text );
            const vfcuda::Live objects = vfcuda::live();
            std::string bad;
            try {
                switch ( kind ) {
                case 0:
                    bad = typed<uint8_t>( rng, steps, faults );
                    break;
                case 1:
                    bad = typed<uint32_t>( rng, steps, faults );
                    break;
                case 2:
                    bad = typed<uint64_t>( rng, steps, faults );
                    break;
                case 3:
                    bad = typed<float>( rng, steps, faults );
                    break;
                case 4:
                    bad = images<uint8_t, ImageCuda>( rng, steps, faults, false );
                    break;
                case 5:
                    bad = images<uint16_t, ImageTemplateCuda<uint16_t>>( rng, steps, faults, false );
                    break;
                case 6:
                    bad = images<uint8_t, ImageCudaPinned>( rng, steps, faults, true );
                    break;
#ifndef VF_NO_WIDE_PINNED
                case 7:
                    bad = images<uint16_t, ImageTemplateCudaPinned<uint16_t>>( rng, steps, faults, true );
                    break;
#endif
                default:
                    bad = images<uint32_t, ImageTemplateCuda<uint32_t>>( rng, steps, faults, false );
                    break;
                }
            }
            catch ( const std::exception & e ) {
                bad = std::string( "exception: " ) + e.what();
            }
            vfcuda::countdown = -1;
            cudaGetLastError();
            vfcuda::finish();
            if ( bad.empty() && !( vfcuda::live() == objects ) )
                bad = "before: " + objects.text() + ", after: " + vfcuda::live().text();
            if ( bad.empty() )
                bad = misuse();
            vfcuda::takeWrong();
            if ( !bad.empty() )
                ctx.fail( fmt( "values/%s", names[kind] ), text + ":" + bad );
            ++ctx.evaluations;
            ctx.hit( names[kind] );
            ctx.distinct.insert( rng.next() );
            ctx.sample( text );
        } );
    }

    // devices, streams, sizes of grids
    void modeApi( vf::Ctx & ctx )
    {
        ctx.loop( "C01 api", [&]( uint64_t idx, Rng & rng ) {
            arrange( rng );
            configure( rng );
            const int devices = manager().deviceCount();
            std::string bad, what;
            auto check = [&]( bool ok, const std::string & s ) {
                if ( !ok && bad.empty() )
                    bad = s;
            };
            auto refusedAs = [&]( const std::string & s, const std::function<void()> & f ) { check( refused( f ), s + " was accepted" ); };
            const vfcuda::Live objects = vfcuda::live();
            const uint32_t scenario = static_cast<uint32_t>( idx % 8 );
            ctx.begin( idx, fmt( "scenario %u", scenario ) );
            try {
                switch ( scenario ) {
                case 0: { // grids
                    vfcuda::finish();
                    const uint32_t dims = rng.u( 1, 3 );
                    auto size = [&]() { return rng.chance( 40 ) ? rng.u( 1, 70 ) : ( rng.chance( 80 ) ? rng.u( 1, 5000 ) : ( rng.chance( 70 ) ? rng.u( 1, 4294967295u ) : 4294967295u - rng.u( 0, 1200 ) ) ); };
                    const uint32_t x = size(), y = size(), z = size();
                    what = fmt( "grid of %u dimensions for %u %u %u with %u threads per block", dims, x, y, z, device().threadsPerBlock() );
                    multiCuda::GridParameters p;
                    bool thrown = false;
                    try {
                        p = dims == 1 ? multiCuda::getGridParameters( x ) : ( dims == 2 ? multiCuda::getGridParameters( x, y ) : multiCuda::getGridParameters( x, y, z ) );
                    }
                    catch ( const penguinVException & ) {
                        thrown = true;
                    }
                    const dim3 block = device().blockDimension(), grid = device().dimensionSize();
                    const uint64_t limit = device().threadsPerBlock();
                    if ( thrown ) // at least a warp in x direction is possible
                        check( static_cast<uint64_t>( grid.x ) * 4 < x || ( dims > 1 && static_cast<uint64_t>( grid.y ) < y ) || ( dims > 2 && grid.z < z ), "was refused" );
                    else {
                        const dim3 & b = p.threadsPerBlock;
                        const dim3 & g = p.blocksPerGrid;
                        check( b.x && b.y && b.z && static_cast<uint64_t>( b.x ) * b.y * b.z <= limit && b.x <= block.x && b.y <= block.y && b.z <= block.z,
                               fmt( "blocks of %ux%ux%u threads", b.x, b.y, b.z ) );
                        check( g.x && g.y && g.z && g.x <= grid.x && g.y <= grid.y && g.z <= grid.z, fmt( "%ux%ux%u blocks", g.x, g.y, g.z ) );
                        check( static_cast<uint64_t>( b.x ) * g.x >= x && ( dims < 2 || static_cast<uint64_t>( b.y ) * g.y >= y ) && ( dims < 3 || static_cast<uint64_t>( b.z ) * g.z >= z ),
                               fmt( "%ux%ux%u blocks of %ux%ux%u threads are not enough", g.x, g.y, g.z, b.x, b.y, b.z ) );
                        check( ( dims > 1 || ( b.y == 1 && g.y == 1 ) ) && ( dims > 2 || ( b.z == 1 && g.z == 1 ) ), "more dimensions than requested" );
                    }
                    const multiCuda::KernelParameters k = multiCuda::getKernelParameters( 100, 20, 0 );
                    check( k.stream == multiCuda::getCudaStream(), "a kernel would run in another stream" );
                    check( multiCuda::getSharedMemorySize( device().sharedMemoryPerBlock() ) == device().sharedMemoryPerBlock() && multiCuda::getSharedMemorySize() == 0, "shared memory" );
                    refusedAs( "too much shared memory", [&]() { multiCuda::getSharedMemorySize( device().sharedMemoryPerBlock() + 1 ); } );
                    break;
                }
                case 1: { // limits of threads
                    what = "threads per block";
                    const uint32_t before = device().threadsPerBlock(), n = rng.u( 0, 1100 );
                    if ( n == 0 || n % 32 != 0 ) {
                        refusedAs( fmt( "%u threads", n ), [&]() { device().setThreadsPerBlock( n ); } );
                        check( device().threadsPerBlock() == before, "a refused number of threads is used" );
                    }
                    else {
                        device().setThreadsPerBlock( n );
                        check( device().threadsPerBlock() == ( n <= device().maximumThreadsPerBlock() ? n : before ), fmt( "%u threads instead of %u", device().threadsPerBlock(), n ) );
                    }
                    const cudaDeviceProp & p = vfcuda::world().device[static_cast<size_t>( device().deviceId() )].p;
                    check( device().maximumThreadsPerBlock() == static_cast<uint32_t>( p.maxThreadsPerBlock ), "maximum number of threads" );
                    check( device().name() == p.name && device().totalMemorySize() == p.totalGlobalMem && device().computeCapability() == fmt( "%d.%d", p.major, p.minor )
                               && device().dmaEngineCount() == p.asyncEngineCount && device().sharedMemoryPerBlock() == p.sharedMemPerBlock,
                           "information about the device" );
                    check( multiCuda::isCudaSupported() && manager().supportedDeviceCount() == static_cast<int>( vfcuda::world().device.size() ), "number of devices" );
                    break;
                }
                case 2: { // opening and closing
                    what = "devices opened and closed";
                    const int keep = static_cast<int>( rng.u( 0, devices - 1 ) );
                    manager().setActiveDevice( keep );
                    for ( int step = 0; step < 8; ++step ) {
                        const int id = static_cast<int>( rng.u( 0, devices + 1 ) ) - 1;
                        const bool valid = id >= 0 && id < devices;
                        const bool close = rng.chance( 50 ) && id != keep;
                        if ( !valid ) {
                            refusedAs( fmt( "device %d", id ), [&]() {
                                if ( close )
                                    manager().closeDevice( id );
                                else
                                    manager().initializeDevice( id );
                            } );
                            refusedAs( fmt( "device(%d)", id ), [&]() { manager().device( id ); } );
                            refusedAs( fmt( "setActiveDevice(%d)", id ), [&]() { manager().setActiveDevice( id ); } );
                        }
                        else if ( close ) {
                            manager().closeDevice( id );
                            refusedAs( "a closed device", [&]() { manager().device( id ); } );
                            refusedAs( "activation of a closed device", [&]() { manager().setActiveDevice( id ); } );
                            refusedAs( "memory of a closed device", [&]() { multiCuda::MemoryManager::memory( id ); } );
                        }
                        else {
                            manager().initializeDevice( id );
                            check( manager().device( id ).deviceId() == id, "another device" );
                            multiCuda::MemoryAllocator & memory = multiCuda::MemoryManager::memory( id );
                            if ( rng.chance( 50 ) )
                                memory.reserve( rng.pick<size_t>( { 4096, 65536, 100001 } ) );
                            const size_t n = rng.u( 1, 8000 );
                            uint8_t * block = memory.allocate<uint8_t>( n );
                            const int on = vfcuda::deviceOf( block );
                            memory.free( block );
                            check( on == id, fmt( "memory of device %d is on device %d", id, on ) );
                            if ( id != keep ) { // streams and work of a device which is not active
                                multiCuda::CudaDevice & other = manager().device( id );
                                const size_t count = other.streamCount();
                                other.setStreamCount( count + rng.u( 1, 2 ) );
                                other.setCurrentStreamId( count );
                                manager().setActiveDevice( id );
                                Image work = ImageCuda().generate( 20, 10 );
                                Image_Function_Cuda::Fill( work, 1, 2, 3, 4, 5 );
                                manager().setActiveDevice( keep );
                                other.synchronize();
                                {
                                    vfcuda::Guard g( vfcuda::world().lock );
                                    check( vfcuda::world().device[static_cast<size_t>( id )].pending.empty(), "a synchronized device has work to do" );
                                }
                                manager().setActiveDevice( id );
                                work = ImageCuda().generate();
                                other.setStreamCount( count );
                                manager().setActiveDevice( keep );
                                check( misuse().empty(), "streams of a device which is not active: misuse" );
                            }
                        }
                        check( device().deviceId() == keep, fmt( "device %d is active instead of %d", device().deviceId(), keep ) );
                        int now = -1;
                        cudaGetDevice( &now );
                        check( now == keep, fmt( "the runtime uses device %d instead of %d", now, keep ) );
                        const Image im = ImageCuda().generate( 5, 4 );
                        check( vfcuda::deviceOf( im.data() ) == keep, "an image is on another device" );
                    }
                    if ( rng.chance( 50 ) ) {
                        manager().closeDevices();
                        check( manager().deviceCount() == 0, "closed devices are counted" );
                        refusedAs( "device() without devices", [&]() { manager().device(); } );
                        refusedAs( "memory() without devices", [&]() { multiCuda::MemoryManager::memory(); } );
                        refusedAs( "an image without devices", [&]() { ImageCuda( 3, 3 ); } );
                        check( vfcuda::live() == ( vfcuda::Live{ 0, 0, 0, 0, 0 } ), "closed devices left " + vfcuda::live().text() );
                    }
                    manager().closeDevices();
                    manager().initializeDevices();
                    check( manager().deviceCount() == devices, "number of devices after initialization" );
                    manager().setActiveDevice( keep );
                    break;
                }
                case 3: { // streams
                    what = "streams";
                    for ( int step = 0; step < 6 && bad.empty(); ++step ) {
                        const size_t n = rng.u( 0, 5 ), others = vfcuda::live().streams - device().streamCount();
                        device().setStreamCount( n );
                        check( device().streamCount() == n && vfcuda::live().streams == n + others, "number of streams" );
                        const size_t q = rng.u( 0, 6 ), before = device().currentStreamId();
                        check( before < std::max<size_t>( n, 1 ), "a removed stream is in use" );
                        device().setCurrentStreamId( q );
                        check( device().currentStreamId() == ( q < n ? q : before ), "another stream is in use" );
                        if ( n ) {
                            check( multiCuda::getCudaStream() == device().stream().id() && device().stream().id() == device().stream( device().currentStreamId() ).id(), "current stream" );
                            static std::atomic<int> called;
                            called = 0;
                            Image a = ImageCuda().generate( 20, 20 );
                            Image b = Image_Function_Cuda::Invert( a );
                            device().stream().setCallback( []( cudaStream_t, cudaError_t, void * p ) { ++*static_cast<std::atomic<int> *>( p ); }, &called );
                            device().stream().synchronize();
                            check( called == 1 && device().stream().isFree(), "a stream is not finished after waiting for it" );
                            Image c = Image_Function_Cuda::Invert( a );
                            device().synchronize();
                            for ( size_t k = 0; k < n; ++k )
                                check( device().stream( k ).isFree(), "a stream is not finished after waiting for the device" );
                        }
                        else
                            check( multiCuda::getCudaStream() == nullptr, "a stream without streams" );
                    }
                    device().setStreamCount( 0 );
                    break;
                }
                case 4: { // failures while a device is opened
                    const int id = static_cast<int>( rng.u( 0, devices - 1 ) ), keep = ( id + 1 ) % devices;
                    manager().setActiveDevice( keep );
                    manager().closeDevice( id );
                    const vfcuda::Live closed = vfcuda::live();
                    const int at = static_cast<int>( rng.u( 0, 3 ) );
                    what = fmt( "failure of CUDA call %d while a device is opened", at );
                    const uint64_t before = vfcuda::injected;
                    bool thrown = false;
                    vfcuda::countdown = at;
                    try {
                        manager().initializeDevice( id );
                    }
                    catch ( const penguinVException & ) {
                        thrown = true;
                    }
                    vfcuda::countdown = -1;
                    check( thrown == ( vfcuda::injected != before ), "failure and exception differ" );
                    if ( thrown )
                        check( vfcuda::live() == closed && manager().deviceCount() == devices - 1, "something was left" );
                    check( device().deviceId() == keep, "another device is active" );
                    int now = -1;
                    cudaGetDevice( &now );
                    check( now == keep, "the runtime uses another device" );
                    manager().initializeDevice( id );
                    const size_t streams = device().streamCount(), all = vfcuda::live().streams;
                    vfcuda::countdown = static_cast<int>( rng.u( 0, 2 ) );
                    thrown = false;
                    try {
                        device().setStreamCount( streams + 3 );
                    }
                    catch ( const penguinVException & ) {
                        thrown = true;
                    }
                    vfcuda::countdown = -1;
                    check( thrown, "a failing creation of a stream was not reported" );
                    check( vfcuda::live().streams - all == device().streamCount() - streams, "streams were lost" );
                    device().setStreamCount( 0 );
                    break;
                }
                case 5: { // conversions
                    const uint32_t w = rng.u( 1, 60 ), h = rng.u( 1, 30 );
                    const uint8_t cc = rng.pick<uint8_t>( { 1, 3, 4 } );
                    auto al = [&]() { return rng.pick<uint8_t>( { 1, 1, 2, 3, 4, 7, 8, 16, 32 } ); };
                    what = fmt( "transfers of %ux%ux%u", w, h, cc );
                    Image a( w, h, cc, al() );
                    randomBytes( a.data(), static_cast<size_t>( a.rowSize() ) * h, rng );
                    Image d = ImageCuda().generate( w, h, cc, al() );
                    const bool pin = rng.chance( 30 );
                    Image b( w, h, cc, al() );
                    if ( pin ) {
                        Image p = ImageCudaPinned().generate( w, h, cc, al() );
                        memset( p.data(), 7, static_cast<size_t>( p.rowSize() ) * h );
                        for ( uint32_t y = 0; y < h; ++y )
                            memcpy( p.data() + static_cast<size_t>( p.rowSize() ) * y, a.data() + static_cast<size_t>( a.rowSize() ) * y, static_cast<size_t>( w ) * cc );
                        Image_Function_Cuda::ConvertToCuda( p, d );
                    }
                    else
                        Image_Function_Cuda::ConvertToCuda( a, d );
                    check( sameImages( download( d ), a ).empty(), "to the device: " + sameImages( download( d ), a ) );
                    Image_Function_Cuda::ConvertFromCuda( d, b );
                    check( sameImages( a, b ).empty(), "from the device: " + sameImages( a, b ) );
                    Image p = ImageCudaPinned().generate( w, h, cc, al() );
                    Image_Function_Cuda::ConvertFromCuda( d, p );
                    check( sameImages( a, p ).empty() && p.type() == ImageCudaPinned().type(), "to pinned memory" );
                    Image wrongSize( w + 1, h, cc ), wrongColour( w, h, cc == 1 ? 3 : 1 ), none;
                    Image dNone = ImageCuda().generate();
                    refusedAs( "another size", [&]() { Image_Function_Cuda::ConvertFromCuda( d, wrongSize ); } );
                    refusedAs( "another size", [&]() { Image_Function_Cuda::ConvertToCuda( wrongSize, d ); } );
                    refusedAs( "other channels", [&]() { Image_Function_Cuda::ConvertFromCuda( d, wrongColour ); } );
                    refusedAs( "other channels", [&]() { Image_Function_Cuda::ConvertToCuda( wrongColour, d ); } );
                    refusedAs( "an empty image", [&]() { Image_Function_Cuda::ConvertToCuda( none ); } );
                    refusedAs( "an empty image", [&]() { Image_Function_Cuda::ConvertToCuda( none, d ); } );
                    refusedAs( "an empty device image", [&]() { Image_Function_Cuda::ConvertFromCuda( dNone ); } );
                    refusedAs( "an empty device image", [&]() { Image_Function_Cuda::ConvertFromCuda( dNone, b ); } );
                    break;
                }
                case 6: { // rotation
                    Image a( rng.u( 1, 50 ), rng.u( 1, 40 ), 1, rng.pick<uint8_t>( { 1, 4, 16 } ) );
                    randomBytes( a.data(), static_cast<size_t>( a.rowSize() ) * a.height(), rng );
                    const bool sameSize = rng.chance( 60 );
                    const uint32_t ow = sameSize ? a.width() : rng.u( 1, 60 ), oh = sameSize ? a.height() : rng.u( 1, 60 );
                    const float cx = static_cast<float>( rng.d( -3, a.width() + 3 ) ), cy = static_cast<float>( rng.d( -3, a.height() + 3 ) );
                    const float ox = rng.chance( 50 ) ? cx : static_cast<float>( rng.d( -3, ow + 3 ) ), oy = rng.chance( 50 ) ? cy : static_cast<float>( rng.d( -3, oh + 3 ) );
                    const float angle = rng.chance( 20 ) ? rng.pick<float>( { 0.0f, 1.5707963f, 3.1415927f, -1.5707963f } ) : static_cast<float>( rng.d( -7, 7 ) );
                    what = fmt( "rotation of %ux%u into %ux%u around %g %g and %g %g by %g", a.width(), a.height(), ow, oh, cx, cy, ox, oy, angle );
                    Image d = upload( a );
                    Image out = ImageCuda().generate( ow, oh, 1, rng.pick<uint8_t>( { 1, 4, 16 } ) );
                    std::vector<uint8_t> before( static_cast<size_t>( out.rowSize() ) * oh );
                    randomBytes( before.data(), before.size(), rng );
                    rawPut( out.data(), before.data(), before.size() );
                    Image ref( ow, oh );
                    const bool plain = refused( [&]() { Image_Function::Rotate( a, cx, cy, ref, ox, oy, angle ); } );
                    const bool dev = refused( [&]() { Image_Function_Cuda::Rotate( d, cx, cy, out, ox, oy, angle ); } );
                    check( plain == dev, dev ? "was refused" : "was accepted; the plain implementation refuses it" );
                    const Image now = download( out );
                    if ( dev ) {
                        check( memcmp( now.data(), before.data(), before.size() ) == 0, "a refused call changed the output" );
                        break;
                    }
                    check( sameImages( download( d ), a ).empty(), "the input changed" );
                    const double co = std::cos( angle ), si = std::sin( angle ), eps = 2e-3;
                    const double maxX = a.width() - 1.0, maxY = a.height() - 1.0;
                    for ( uint32_t y = 0; y < oh && bad.empty(); ++y ) {
                        for ( uint32_t x = 0; x < ow && bad.empty(); ++x ) {
                            const double px = cx + co * ( x - ox ) + si * ( y - oy ), py = cy - si * ( x - ox ) + co * ( y - oy );
                            const int got = now.data()[static_cast<size_t>( y ) * now.rowSize() + x];
                            int lo = 0, hi = 0;
                            if ( px >= -eps && py >= -eps && px <= maxX + eps && py <= maxY + eps ) {
                                double mn = 255, mx = 0;
                                for ( int k = 0; k < 9; ++k ) {
                                    const double qx = std::min( std::max( px + ( k % 3 - 1 ) * eps, 0.0 ), maxX ), qy = std::min( std::max( py + ( k / 3 - 1 ) * eps, 0.0 ), maxY );
                                    const uint32_t x0 = static_cast<uint32_t>( qx ), y0 = static_cast<uint32_t>( qy );
                                    const uint32_t x1 = std::min( x0 + 1, a.width() - 1 ), y1 = std::min( y0 + 1, a.height() - 1 );
                                    auto g = [&]( uint32_t u, uint32_t v ) { return static_cast<double>( a.data()[static_cast<size_t>( v ) * a.rowSize() + u] ); };
                                    const double fx = qx - x0, fy = qy - y0;
                                    const double v = g( x0, y0 ) * ( 1 - fx ) * ( 1 - fy ) + g( x1, y0 ) * fx * ( 1 - fy ) + g( x0, y1 ) * ( 1 - fx ) * fy + g( x1, y1 ) * fx * fy;
                                    mn = std::min( mn, v );
                                    mx = std::max( mx, v );
                                }
                                const bool edge = px < eps || py < eps || px > maxX - eps || py > maxY - eps;
                                lo = edge ? 0 : static_cast<int>( std::max( 0.0, mn + 0.5 - 1e-2 ) );
                                hi = static_cast<int>( std::min( 255.0, mx + 0.5 + 1e-2 ) );
                            }
                            check( got >= lo && got <= hi, fmt( "value %d at %u,%u, expected %d..%d", got, x, y, lo, hi ) );
                        }
                        for ( uint32_t x = ow; x < now.rowSize(); ++x )
                            check( now.data()[static_cast<size_t>( y ) * now.rowSize() + x] == before[static_cast<size_t>( y ) * now.rowSize() + x], "wrote outside of the output" );
                    }
                    break;
                }
                default: { // types
                    what = "kinds of images";
                    std::set<uint8_t> types = { Image().type(), ImageCuda().type(), ImageCudaPinned().type() };
                    check( types.size() == 3, "two kinds of images have the same type" );
                    Image a( rng.u( 1, 30 ), rng.u( 1, 30 ) );
                    randomBytes( a.data(), static_cast<size_t>( a.rowSize() ) * a.height(), rng );
                    // dispatching functions with intertype conversion
                    Image d = upload( a );
                    const Image r = penguinV::Normalize( d );
                    const Image q = penguinV::Normalize( a );
                    check( r.type() == d.type(), "an operation which is not available on the device changed the type" );
                    check( sameImages( r.type() == d.type() ? download( r ) : r, q ).empty(), "another result through ordinary memory" );
                    // a pinned image behaves as an ordinary one
                    Image p = ImageCudaPinned().generate( a.width(), a.height(), 1, 4 );
                    for ( uint32_t y = 0; y < a.height(); ++y )
                        memcpy( p.data() + static_cast<size_t>( p.rowSize() ) * y, a.data() + static_cast<size_t>( a.rowSize() ) * y, a.width() );
                    const Image i = Image_Function::Invert( p );
                    check( sameImages( i, Image_Function::Invert( a ) ).empty(), "an image in pinned memory gave another result" );
                    break;
                }
                }
            }
            catch ( const std::exception & e ) {
                vfcuda::countdown = -1;
                check( false, std::string( "exception: " ) + e.what() );
            }
            cudaGetLastError();
            vfcuda::finish();
            if ( scenario != 2 && scenario != 3 && scenario != 4 )
                check( vfcuda::live() == objects, "before: " + objects.text() + ", after: " + vfcuda::live().text() );
            const std::string w = misuse();
            check( w.empty(), w );
            if ( !bad.empty() )
                ctx.fail( fmt( "api/%u", scenario ), what + ": " + bad );
            ++ctx.evaluations;
            ctx.hit( fmt( "scenario %u", scenario ) );
            ctx.distinct.insert( vf::mix( vf::hashStr( what ), rng.next() ) );
            ctx.sample( what );
        } );
    }

    typedef std::vector<std::complex<double>> Plane;
    // transform by its definition
    Plane dft( const Plane & v, uint32_t w, uint32_t h, int direction )
    {
        Plane r = v;
        for ( uint32_t y = 0; y < h; ++y )
            vfcuda::transform( r, static_cast<size_t>( y ) * w, 1, w, direction );
        for ( uint32_t x = 0; x < w; ++x )
            vfcuda::transform( r, x, w, h, direction );
        return r;
    }
    Plane read( const FFT_Cuda::ComplexData & d )
    {
        std::vector<cufftComplex> t( static_cast<size_t>( d.width() ) * d.height() );
        rawGet( d.data(), t.data(), t.size() * sizeof( cufftComplex ) );
        Plane v( t.size() );
        for ( size_t k = 0; k < t.size(); ++k )
            v[k] = std::complex<double>( t[k].x, t[k].y );
        return v;
    }
    std::string near( const Plane & a, const Plane & b )
    {
        double scale = 1;
        for ( const auto & v : b )
            scale = std::max( scale, std::abs( v ) );
        for ( size_t k = 0; k < b.size(); ++k )
            if ( !( std::abs( a[k] - b[k] ) <= scale * 1e-4 ) )
                return fmt( "value %zu is %g %g instead of %g %g", k, a[k].real(), a[k].imag(), b[k].real(), b[k].imag() );
        return "";
    }
    // normalised values with exchanged quadrants
    std::string shown( const Image & im, const Plane & v, uint32_t w, uint32_t h )
    {
        if ( im.width() != w || im.height() != h || im.colorCount() != 1 )
            return "the image has another shape";
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w; ++x ) {
                const double e = v[static_cast<size_t>( y ) * w + x].real() / ( static_cast<double>( w ) * h );
                const int got = im.data()[static_cast<size_t>( ( y + h / 2 ) % h ) * im.rowSize() + ( x + w / 2 ) % w];
                const double c = std::min( std::max( e, 0.0 ), 255.0 );
                if ( !( std::fabs( got - c ) <= 0.51 ) )
                    return fmt( "pixel for value %u,%u is %d instead of %g", x, y, got, e );
            }
        return "";
    }

    void modeFft( vf::Ctx & ctx )
    {
        ctx.loop( "C01 fft", [&]( uint64_t idx, Rng & rng ) {
            if ( idx % 10 == 0 || ctx.only >= 0 )
                arrange( rng );
            std::string text = configure( rng );
            const uint32_t w = rng.u( 1, 24 ), h = rng.chance( 40 ) ? w : rng.u( 1, 24 ), scenario = static_cast<uint32_t>( idx % 6 );
            text += fmt( "transforms of %ux%u, scenario %u", w, h, scenario );
            ctx.begin( idx, text );
            std::string bad;
            auto check = [&]( bool ok, const std::string & s ) {
                if ( !ok && bad.empty() )
                    bad = s;
            };
            auto note = [&]( const std::string & s, const std::string & e ) { check( e.empty(), s + ": " + e ); };
            auto refusedAs = [&]( const std::string & s, const std::function<void()> & f ) { check( refused( f ), s + " was accepted" ); };
            const vfcuda::Live objects = vfcuda::live();
            const double size = static_cast<double>( w ) * h;
            auto image = [&]( uint32_t iw, uint32_t ih ) {
                Image a( iw, ih, 1, rng.pick<uint8_t>( { 1, 1, 4, 16, 3 } ) );
                randomBytes( a.data(), static_cast<size_t>( a.rowSize() ) * ih, rng );
                return a;
            };
            auto plane = [&]( const Image & a ) {
                Plane v( static_cast<size_t>( a.width() ) * a.height() );
                for ( size_t k = 0; k < v.size(); ++k )
                    v[k] = a.data()[k / a.width() * a.rowSize() + k % a.width()];
                return v;
            };
            try {
                const Image a = image( w, h ), b = image( w, h );
                const Plane pa = plane( a ), pb = plane( b );
                const Image da = upload( a ), db = upload( b );
                if ( scenario == 0 ) { // both directions
                    FFT_Cuda::ComplexData d( da );
                    check( d.width() == w && d.height() == h && !d.empty(), "size of data" );
                    note( "values of the image", near( read( d ), pa ) );
                    FFT_Cuda::FFTExecutor e( w, h );
                    FFT_Cuda::ComplexData o;
                    const bool other = rng.chance( 50 );
                    if ( other ) {
                        o.resize( w, h );
                        e.directTransform( d, o );
                        note( "input of the transform", near( read( d ), pa ) );
                    }
                    else {
                        e.directTransform( d );
                        static_cast<FFT::BaseComplexData<cufftComplex> &>( o ) = d;
                    }
                    note( "direct transform", near( read( o ), dft( pa, w, h, -1 ) ) );
                    e.inverseTransform( o );
                    Plane back = pa;
                    for ( auto & v : back )
                        v *= size;
                    note( "inverse transform", near( read( o ), back ) );
                    note( "image", shown( download( o.get() ), back, w, h ) );
                }
                else if ( scenario == 1 ) { // convolution
                    FFT_Cuda::ComplexData x( da ), y( db ), z;
                    FFT_Cuda::FFTExecutor e( w, h );
                    const uint32_t to = rng.u( 0, 2 );
                    Plane m( pa.size() );
                    for ( size_t k = 0; k < m.size(); ++k )
                        m[k] = pa[k] * pb[k];
                    if ( rng.chance( 50 ) ) {
                        e.directTransform( x );
                        e.directTransform( y );
                        const Plane fa = dft( pa, w, h, -1 ), fb = dft( pb, w, h, -1 );
                        for ( size_t k = 0; k < m.size(); ++k )
                            m[k] = fa[k] * fb[k];
                    }
                    FFT_Cuda::ComplexData & out = to == 0 ? z : ( to == 1 ? x : y );
                    z.resize( w, h );
                    FFT_Cuda::FFTExecutor any( rng.u( 1, 30 ), rng.u( 1, 30 ) ); // sizes of data matter
                    ( rng.chance( 50 ) ? e : any ).complexMultiplication( x, y, out );
                    note( "multiplication", near( read( out ), m ) );
                }
                else if ( scenario == 2 ) { // numbers, beyond the range of pixels, and refusals
                    std::vector<float> v( static_cast<size_t>( w ) * h );
                    Plane p( v.size() );
                    for ( size_t k = 0; k < v.size(); ++k ) {
                        v[k] = static_cast<float>( rng.d( -300, 600 ) * size );
                        p[k] = v[k];
                    }
                    FFT_Cuda::ComplexData d;
                    check( d.empty() && d.get().empty(), "new data is not empty" );
                    refusedAs( "numbers without size", [&]() { d.set( multiCuda::Array<float>( v ) ); } );
                    d.resize( w, h );
                    d.set( multiCuda::Array<float>( v ) );
                    note( "numbers", near( read( d ), p ) );
                    note( "image", shown( download( d.get() ), p, w, h ) );
                    refusedAs( "another number of numbers", [&]() { d.set( multiCuda::Array<float>( std::vector<float>( v.size() + 1 ) ) ); } );
                    refusedAs( "no numbers", [&]() { d.set( multiCuda::Array<float>() ); } );
                    refusedAs( "an empty image", [&]() { d.set( ImageCuda().generate() ); } );
                    refusedAs( "a colour image", [&]() { d.set( ImageCuda().generate( w, h, 3 ) ); } );
                    refusedAs( "an empty image", [&]() { FFT_Cuda::ComplexData x( ImageCuda().generate() ); } );
                    note( "after refused calls", near( read( d ), p ) );
                    FFT_Cuda::FFTExecutor other( w + 1, h ), none;
                    check( none.width() == 0 && none.height() == 0, "size of an executor without size" );
                    refusedAs( "data of another size", [&]() { other.directTransform( d ); } );
                    refusedAs( "data of another size", [&]() { other.inverseTransform( d ); } );
                    refusedAs( "an executor without size", [&]() { none.directTransform( d ); } );
                    refusedAs( "an executor without size", [&]() { none.inverseTransform( d ); } );
                    refusedAs( "size of 0", [&]() { none.initialize( w, 0 ); } );
                    refusedAs( "size of 0", [&]() { FFT_Cuda::FFTExecutor x( 0, h ); } );
                    FFT_Cuda::ComplexData empty, wide;
                    wide.resize( w + 1, h );
                    refusedAs( "multiplication of empty data", [&]() { other.complexMultiplication( empty, empty, empty ); } );
                    refusedAs( "multiplication of different sizes", [&]() { other.complexMultiplication( d, wide, d ); } );
                    refusedAs( "multiplication of different sizes", [&]() { other.complexMultiplication( d, d, wide ); } );
                    note( "after refused calls", near( read( d ), p ) );
                    none.initialize( w, h );
                    none.directTransform( d );
                    note( "initialized later", near( read( d ), dft( p, w, h, -1 ) ) );
                    none.initialize( w + 1, h );
                    refusedAs( "data of the former size", [&]() { none.directTransform( d ); } );
                }
                else if ( scenario == 3 ) { // values
                    FFT_Cuda::ComplexData d( da );
                    FFT_Cuda::ComplexData c( d ), e;
                    note( "copy", near( read( c ), pa ) );
                    static_cast<FFT::BaseComplexData<cufftComplex> &>( e ) = c;
                    note( "assigned", near( read( e ), pa ) );
                    e.set( db );
                    note( "set again", near( read( e ), pb ) );
                    note( "source of the assignment", near( read( c ), pa ) );
                    FFT_Cuda::ComplexData m( std::move( c ) );
                    note( "moved", near( read( m ), pa ) );
                    static_cast<FFT::BaseComplexData<cufftComplex> &>( m ) = e;
                    note( "assigned again", near( read( m ), pb ) );
                    const Image s = image( rng.u( 1, 20 ), rng.u( 1, 20 ) );
                    m.set( upload( s ) );
                    note( "another size", near( read( m ), plane( s ) ) );
                    check( m.width() == s.width() && m.height() == s.height(), "another size is not kept" );
                    const FFT_Cuda::ComplexData empty;
                    static_cast<FFT::BaseComplexData<cufftComplex> &>( m ) = empty;
                    check( m.empty() && m.width() == 0, "empty data assigned" );
                    FFT_Cuda::ComplexData x( empty );
                    check( x.empty(), "copy of empty data" );
                }
                else if ( scenario == 4 ) { // Gaussian filter
                    const uint32_t k = rng.u( 0, 6 );
                    const float sigma = static_cast<float>( rng.chance( 15 ) ? rng.d( -1, 0 ) : rng.d( 0.2, 9 ) );
                    std::vector<float> kernel;
                    const bool plain = refused( [&]() { Image_Function::GetGaussianKernel( kernel, w, h, k, sigma ); } );
                    Image r;
                    const bool form = rng.chance( 50 );
                    Image out = ImageCuda().generate( w, h, 1, rng.pick<uint8_t>( { 1, 4 } ) );
                    const bool dev = refused( [&]() {
                        if ( form )
                            r = Image_Function_Cuda::Gaussian( da, k, sigma );
                        else
                            Image_Function_Cuda::Gaussian( da, out, k, sigma );
                    } );
                    check( plain == dev, dev ? "Gaussian filter was refused" : "wrong parameters of the Gaussian filter were accepted" );
                    if ( !dev && bad.empty() ) {
                        const Image got = download( form ? r : out );
                        // convolution by its definition: kernel around the middle
                        for ( uint32_t y = 0; y < h && bad.empty(); ++y )
                            for ( uint32_t x = 0; x < w && bad.empty(); ++x ) {
                                double s = 0;
                                for ( int v = -static_cast<int>( k ); v <= static_cast<int>( k ); ++v )
                                    for ( int u = -static_cast<int>( k ); u <= static_cast<int>( k ); ++u )
                                    {
                                        const int64_t py = ( static_cast<int64_t>( y ) + v + h ) % h, px = ( static_cast<int64_t>( x ) + u + w ) % w;
                                        const int64_t ky = static_cast<int64_t>( h / 2 ) + v, kx = static_cast<int64_t>( w / 2 ) + u;
                                        s += pa[static_cast<size_t>( py * w + px )].real() * kernel[static_cast<size_t>( ky * w + kx )];
                                    }
                                const int g = got.data()[static_cast<size_t>( y ) * got.rowSize() + x];
                                check( std::fabs( g - s ) <= 0.6, fmt( "kernel %u, sigma %g: pixel %u,%u is %d instead of %g", k, sigma, x, y, g, s ) );
                            }
                    }
                    check( sameImages( download( da ), a ).empty(), "the input of the filter changed" );
                    refusedAs( "an empty image", [&]() { Image_Function_Cuda::Gaussian( ImageCuda().generate(), 1, 1 ); } );
                    if ( !plain ) {
                        FFT_Cuda::ComplexData g = Image_Function_Cuda::GetGaussianKernel( w, h, k, sigma );
                        Plane p( kernel.begin(), kernel.end() );
                        note( "kernel", near( read( g ), p ) );
                    }
                }
                else { // failures
                    const int at = static_cast<int>( rng.u( 0, 12 ) );
                    const uint64_t before = vfcuda::injected;
                    bool thrown = false;
                    vfcuda::countdown = at;
                    try {
                        FFT_Cuda::ComplexData x( da ), y( x ), z;
                        static_cast<FFT::BaseComplexData<cufftComplex> &>( z ) = y;
                        FFT_Cuda::FFTExecutor e( w, h );
                        e.directTransform( x );
                        e.complexMultiplication( x, y, z );
                        e.inverseTransform( z );
                        const Image im = z.get();
                        e.initialize( w, h + 1 );
                        std::vector<float> v( static_cast<size_t>( w ) * h );
                        multiCuda::Array<float> arr( v );
                        x.set( arr );
                    }
                    catch ( const std::exception & ) {
                        thrown = true;
                    }
                    vfcuda::countdown = -1;
                    check( thrown == ( vfcuda::injected != before ), fmt( "failing call %d: failure and exception differ", at ) );
                    FFT_Cuda::ComplexData x( da );
                    note( "after a failure", near( read( x ), pa ) );
                }
            }
            catch ( const std::exception & e ) {
                check( false, std::string( "exception: " ) + e.what() );
            }
            vfcuda::countdown = -1;
            cudaGetLastError();
            vfcuda::finish();
            check( vfcuda::live() == objects, "before: " + objects.text() + ", after: " + vfcuda::live().text() );
            const std::string m = misuse();
            check( m.empty(), m );
            if ( !bad.empty() )
                ctx.fail( fmt( "fft/%u", scenario ), text + ": " + bad );
            ++ctx.evaluations;
            ctx.hit( fmt( "scenario %u", scenario ) );
            ctx.distinct.insert( vf::mix( w * 100 + h, rng.next() ) );
            ctx.sample( text );
        } );
    }
}

int main( int argc, char ** argv )
{
    vf::Ctx ctx;
    ctx.parse( argc, argv );
    // different limits in every process
    static const int threads[] = { 1024, 512, 256, 1024 };
    std::vector<cudaDeviceProp> cards = { vfcuda::property( "first", 96u << 20, threads[ctx.shard % 4] ), vfcuda::property( "second", 64u << 20, threads[( ctx.shard + 1 ) % 4] ) };
    if ( ctx.mode == "api" ) { // also unusual limits of single dimensions
        Rng r( vf::mix( ctx.seed, ctx.shard ) );
        for ( cudaDeviceProp & p : cards ) {
            if ( r.chance( 30 ) )
                continue;
            p.maxThreadsDim[0] = static_cast<int>( r.pick( { 32u, 64u, 100u, 512u, 1024u } ) );
            p.maxThreadsDim[1] = static_cast<int>( r.pick( { 8u, 16u, 60u, 512u, 1024u } ) );
            p.maxThreadsDim[2] = static_cast<int>( r.pick( { 1u, 2u, 3u, 4u, 8u, 64u } ) );
        }
    }
    vfcuda::setDevices( cards );
    manager().initializeDevices();
    // operations which the device does not have are executed in ordinary memory
    ImageTypeManager::instance().enableIntertypeConversion( true );
    if ( ctx.mode == "ops" )
        modeOps( ctx );
    else if ( ctx.mode == "chains" )
        modeChains( ctx );
    else if ( ctx.mode == "threads" )
        modeThreads( ctx );
    else if ( ctx.mode == "faults" )
        modeFaults( ctx );
    else if ( ctx.mode == "memory" )
        modeMemory( ctx );
    else if ( ctx.mode == "values" )
        modeValues( ctx );
    else if ( ctx.mode == "api" )
        modeApi( ctx );
    else if ( ctx.mode == "fft" )
        modeFft( ctx );
    const vfcuda::Stats & s = vfcuda::world().stats;
    ctx.hit( "kernels executed", s.launches );
    ctx.hit( "blocks of threads executed", s.blocks );
    ctx.hit( "transfers", s.copies );
    ctx.hit( "kernels executed after the call had returned", s.deferred );
    return ctx.finish();
}
