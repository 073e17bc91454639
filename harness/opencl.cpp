// Monitors of the OpenCL part, executed on the OpenCL device for the CPU. Modes: ops, threads, faults, memory, api, devices.
#include "image_buffer.h"
#include "invalid.h"
#include "opencl/opencl_device.h"
#include "opencl/opencl_helper.h"
#include "opencl/opencl_types.h"
#include <algorithm>
#include <dlfcn.h>
#include <fstream>
#include <memory>
#include <thread>

// The calls of the library to OpenCL pass here: objects are counted, failures can be injected.
namespace live
{
    std::atomic<int64_t> mems{ 0 }, kernels{ 0 }, programs{ 0 }, events{ 0 }, contexts{ 0 }, queues{ 0 };
    std::atomic<uint64_t> launches{ 0 }, transfers{ 0 };
    std::atomic<bool> quiet{ false }; // calls of the monitor itself never fail
    std::atomic<int64_t> countdown{ -1 }; // the call which fails
    std::atomic<uint64_t> injected{ 0 };
    std::set<cl_device_id> noContext; // devices which are not available
    bool inject()
    {
        if ( quiet || countdown < 0 )
            return false;
        if ( countdown-- != 0 )
            return false;
        ++injected;
        return true;
    }
    std::atomic<bool> turns{ false };
    template <typename Fn>
    Fn next( Fn, const char * name )
    {
        return reinterpret_cast<Fn>( dlsym( RTLD_NEXT, name ) );
    }
    struct State
    {
        int64_t m, k, p, e, c, q;
        bool operator==( const State & o ) const
        {
            return m == o.m && k == o.k && p == o.p && e == o.e && c == o.c && q == o.q;
        }
        std::string text() const
        {
            return vf::fmt( "%lld memory objects, %lld kernels, %lld programs, %lld events, %lld contexts, %lld queues", static_cast<long long>( m ), static_cast<long long>( k ),
                            static_cast<long long>( p ), static_cast<long long>( e ), static_cast<long long>( c ), static_cast<long long>( q ) );
        }
    };
    State state()
    {
        return { mems, kernels, programs, events, contexts, queues };
    }
}
#define NEXT( f ) static const auto next_ = live::next( &f, #f )
extern "C"
{
    cl_mem clCreateBuffer( cl_context c, cl_mem_flags f, size_t n, void * p, cl_int * e )
    {
        NEXT( clCreateBuffer );
        if ( live::inject() ) {
            *e = CL_MEM_OBJECT_ALLOCATION_FAILURE;
            return NULL;
        }
        cl_mem m = next_( c, f, n, p, e );
        live::mems += m ? 1 : 0;
        return m;
    }
    cl_mem clCreateSubBuffer( cl_mem b, cl_mem_flags f, cl_buffer_create_type t, const void * i, cl_int * e )
    {
        NEXT( clCreateSubBuffer );
        if ( live::inject() ) {
            *e = CL_OUT_OF_RESOURCES;
            return NULL;
        }
        cl_mem m = next_( b, f, t, i, e );
        live::mems += m ? 1 : 0;
        return m;
    }
    cl_int clReleaseMemObject( cl_mem m )
    {
        NEXT( clReleaseMemObject );
        const cl_int r = next_( m );
        live::mems -= r == CL_SUCCESS ? 1 : 0;
        return r;
    }
    cl_kernel clCreateKernel( cl_program p, const char * n, cl_int * e )
    {
        NEXT( clCreateKernel );
        if ( live::inject() ) {
            *e = CL_OUT_OF_RESOURCES;
            return NULL;
        }
        cl_kernel k = next_( p, n, e );
        live::kernels += k ? 1 : 0;
        return k;
    }
    cl_int clReleaseKernel( cl_kernel k )
    {
        NEXT( clReleaseKernel );
        const cl_int r = next_( k );
        live::kernels -= r == CL_SUCCESS ? 1 : 0;
        return r;
    }
    cl_program clCreateProgramWithSource( cl_context c, cl_uint n, const char ** s, const size_t * l, cl_int * e )
    {
        NEXT( clCreateProgramWithSource );
        cl_program p = next_( c, n, s, l, e );
        live::programs += p ? 1 : 0;
        return p;
    }
    cl_int clReleaseProgram( cl_program p )
    {
        NEXT( clReleaseProgram );
        const cl_int r = p ? next_( p ) : CL_INVALID_PROGRAM;
        live::programs -= r == CL_SUCCESS ? 1 : 0;
        return r;
    }
    cl_int clSetKernelArg( cl_kernel k, cl_uint i, size_t n, const void * v )
    {
        NEXT( clSetKernelArg );
        return live::inject() ? CL_OUT_OF_RESOURCES : next_( k, i, n, v );
    }
    cl_int clEnqueueNDRangeKernel( cl_command_queue q, cl_kernel k, cl_uint d, const size_t * o, const size_t * g, const size_t * l, cl_uint n, const cl_event * w, cl_event * e )
    {
        NEXT( clEnqueueNDRangeKernel );
        if ( live::inject() )
            return CL_OUT_OF_RESOURCES;
        ++live::launches;
        // kernels which run on two devices of this OpenCL implementation at once make it fail (pocl 5: reference count of its
        // cache of kernels), so that they take turns where threads use several devices
        static std::mutex turn;
        std::unique_lock<std::mutex> mine( turn, std::defer_lock );
        if ( live::turns )
            mine.lock();
        const cl_int r = next_( q, k, d, o, g, l, n, w, e );
        if ( live::turns )
            clFinish( q );
        live::events += r == CL_SUCCESS && e ? 1 : 0;
        return r;
    }
    cl_int clWaitForEvents( cl_uint n, const cl_event * e )
    {
        NEXT( clWaitForEvents );
        const cl_int r = next_( n, e );
        return live::inject() ? CL_OUT_OF_RESOURCES : r;
    }
    cl_int clReleaseEvent( cl_event e )
    {
        NEXT( clReleaseEvent );
        const cl_int r = next_( e );
        live::events -= r == CL_SUCCESS ? 1 : 0;
        return r;
    }
    cl_int clEnqueueReadBuffer( cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, void * p, cl_uint c, const cl_event * w, cl_event * e )
    {
        NEXT( clEnqueueReadBuffer );
        ++live::transfers;
        return live::inject() ? CL_OUT_OF_RESOURCES : next_( q, m, b, o, n, p, c, w, e );
    }
    cl_int clEnqueueWriteBuffer( cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, const void * p, cl_uint c, const cl_event * w, cl_event * e )
    {
        NEXT( clEnqueueWriteBuffer );
        ++live::transfers;
        return live::inject() ? CL_OUT_OF_RESOURCES : next_( q, m, b, o, n, p, c, w, e );
    }
    cl_int clEnqueueFillBuffer( cl_command_queue q, cl_mem m, const void * p, size_t ps, size_t o, size_t n, cl_uint c, const cl_event * w, cl_event * e )
    {
        NEXT( clEnqueueFillBuffer );
        if ( live::inject() )
            return CL_OUT_OF_RESOURCES;
        const cl_int r = next_( q, m, p, ps, o, n, c, w, e );
        return r;
    }
    cl_context clCreateContext( const cl_context_properties * p, cl_uint n, const cl_device_id * d, void( CL_CALLBACK * f )( const char *, const void *, size_t, void * ), void * u,
                                cl_int * e )
    {
        NEXT( clCreateContext );
        if ( live::noContext.count( *d ) ) {
            *e = CL_DEVICE_NOT_AVAILABLE;
            return NULL;
        }
        cl_context c = next_( p, n, d, f, u, e );
        live::contexts += c ? 1 : 0;
        return c;
    }
    cl_int clReleaseContext( cl_context c )
    {
        NEXT( clReleaseContext );
        const cl_int r = next_( c );
        live::contexts -= r == CL_SUCCESS ? 1 : 0;
        return r;
    }
    cl_command_queue clCreateCommandQueueWithProperties( cl_context c, cl_device_id d, const cl_queue_properties * p, cl_int * e )
    {
        NEXT( clCreateCommandQueueWithProperties );
        cl_command_queue q = next_( c, d, p, e );
        live::queues += q ? 1 : 0;
        return q;
    }
    cl_int clReleaseCommandQueue( cl_command_queue q )
    {
        NEXT( clReleaseCommandQueue );
        const cl_int r = next_( q );
        live::queues -= r == CL_SUCCESS ? 1 : 0;
        return r;
    }
}

using namespace ops;
using penguinV::ImageOpenCL;
using penguinV::ImageTemplateOpenCL;
using vf::fmt;

namespace
{
    cl_command_queue queue()
    {
        return multiCL::OpenCLDeviceManager::instance().device().queue()();
    }
    void must( cl_int e, const char * what )
    {
        if ( e != CL_SUCCESS )
            throw std::logic_error( fmt( "monitor: %s failed with %d", what, e ) );
    }
    cl_mem mem( const void * p )
    {
        return reinterpret_cast<cl_mem>( const_cast<void *>( p ) );
    }
    void put( cl_mem m, size_t offset, const void * data, size_t size )
    {
        if ( size )
            must( clEnqueueWriteBuffer( queue(), m, CL_TRUE, offset, size, data, 0, NULL, NULL ), "writing" );
    }
    void get( cl_mem m, size_t offset, void * data, size_t size )
    {
        if ( size )
            must( clEnqueueReadBuffer( queue(), m, CL_TRUE, offset, size, data, 0, NULL, NULL ), "reading" );
    }

#define DEVICE_FUNCTIONS Image_Function_OpenCL
#define DEVICE_TO Image_Function_OpenCL::ConvertToOpenCL
#define DEVICE_FROM Image_Function_OpenCL::ConvertFromOpenCL
    typedef ImageOpenCL DeviceImage;
    const std::set<std::string> notOnDevice;
    void devPut( const void * p, const void * data, size_t size )
    {
        put( mem( p ), 0, data, size );
    }
    void devGet( const void * p, void * data, size_t size )
    {
        get( mem( p ), 0, data, size );
    }
#include "device.h"

    // the program and the shared kernel exist from here on
    void warmUp()
    {
        Image a = ImageOpenCL().generate( 2, 2 );
        a.fill( 1 );
        Image b = Image_Function_OpenCL::Invert( a );
    }

    void modeOps( vf::Ctx & ctx )
    {
        const auto list = combos();
        std::set<std::string> warm;
        warmUp();
        ctx.loop( "G01", [&]( uint64_t idx, Rng & rng ) {
            const Combo & k = list[idx % list.size()];
            Case c;
            c.ns = k.ns == V ? V : F;
            c.form = k.form;
            Limits lim;
            lim.big = false;
            generate( c, *k.op, rng, lim );
            std::string inv;
            if ( rng.chance( 15 ) ) {
                inv = invalidate( c, rng );
                c.invalid = !inv.empty();
            }
            const std::string text = fmt( "%s on the device: ", nsName( k.ns ) ) + describe( c ) + ( inv.empty() ? "" : " [" + inv + "]" );
            ctx.begin( idx, text );
            Judged j;
            const live::State objects = live::state();
            try {
                j = judge( c, rng, k.ns, true );
            }
            catch ( const std::exception & e ) {
                j.sig = "exception";
                j.text = e.what();
            }
            const live::State now = live::state();
            if ( j.sig.empty() && !( now == objects ) && warm.count( k.op->name ) ) {
                j.sig = "objects";
                j.text = "before the call: " + objects.text() + ", after it: " + now.text();
            }
            warm.insert( k.op->name ); // programs and shared kernels are made by the first call
            if ( !j.sig.empty() )
                ctx.fail( sigOf( c, k.ns ) + "/" + j.sig, text + ": " + j.text );
            ++ctx.evaluations;
            ctx.hit( fmt( "%s: %s", nsName( k.ns ), j.how.c_str() ) );
            ctx.hit( "values compared", j.values );
            if ( c.w * c.h > 1 )
                ctx.distinct.insert( hashOf( c, k.ns ) );
            ctx.sample( text );
        } );
    }

    // the same from several threads at once
    void modeThreads( vf::Ctx & ctx )
    {
        const auto list = combos();
        ctx.loop( "G01 threads", [&]( uint64_t idx, Rng & rng ) {
            const uint32_t n = rng.u( 2, 4 ), m = rng.u( 2, 6 );
            const std::string text = fmt( "%u threads with %u calls on the device each", n, m );
            ctx.begin( idx, text );
            std::vector<std::thread> ts;
            std::mutex lock;
            std::atomic<uint32_t> ready{ 0 };
            const uint64_t seed = rng.next();
            for ( uint32_t t = 0; t < n; ++t )
                ts.emplace_back( [&, t]() {
                    Rng r( vf::mix( seed, t ) );
                    std::vector<Case> cases( m );
                    for ( Case & c : cases ) {
                        const Combo * k = nullptr;
                        do
                            k = &r.pick( list );
                        while ( k->ns != G );
                        c.ns = F;
                        c.form = k->form;
                        Limits lim;
                        lim.big = false;
                        generate( c, *k->op, r, lim );
                    }
                    ready.fetch_add( 1 );
                    while ( ready.load() < n )
                        std::this_thread::yield();
                    for ( Case & c : cases ) {
                        Judged j;
                        try {
                            const uint8_t v = static_cast<uint8_t>( r.next() ); // whole filling shares one kernel
                            Image f = ImageOpenCL().generate( r.u( 1, 300 ), r.u( 1, 40 ) );
                            f.fill( v );
                            const Image g = download( f );
                            for ( uint32_t i = 0; i < g.rowSize() * g.height(); ++i )
                                if ( g.data()[i] != v ) {
                                    j.sig = "fill";
                                    j.text = fmt( "%ux%u filled with %u, found %u at %u", g.width(), g.height(), v, g.data()[i], i );
                                    break;
                                }
                            if ( j.sig.empty() )
                                j = judge( c, r, G, false );
                        }
                        catch ( const std::exception & e ) {
                            j.sig = "exception";
                            j.text = e.what();
                        }
                        std::lock_guard<std::mutex> g( lock );
                        ++ctx.evaluations;
                        ctx.hit( "values compared", j.values );
                        if ( !j.sig.empty() )
                            ctx.fail( "threads/" + sigOf( c, G ) + "/" + j.sig, text + ": " + describe( c ) + ": " + j.text );
                        ctx.distinct.insert( hashOf( c, G ) );
                    }
                } );
            for ( auto & t : ts )
                t.join();
            ctx.sample( text );
        } );
    }

    // a failing OpenCL call must end in an exception and nothing must be lost
    void modeFaults( vf::Ctx & ctx )
    {
        const auto list = combos();
        warmUp();
        ctx.loop( "G01 faults", [&]( uint64_t idx, Rng & rng ) {
            const Combo & k = list[idx % list.size()];
            if ( k.ns != G )
                return;
            Case c;
            c.ns = F;
            c.form = k.form;
            Limits lim;
            lim.big = false;
            generate( c, *k.op, rng, lim );
            Case d = c;
            d.ns = G;
            const uint32_t at = rng.u( 0, 25 );
            const std::string text = fmt( "failure of OpenCL call %u in ", at ) + sigOf( c, G ) + " " + describe( c );
            ctx.begin( idx, text );
            const live::State objects = live::state();
            std::string bad;
            try {
                for ( Image & im : d.in ) {
                    Image t = upload( im );
                    im.swap( t );
                }
                for ( Image & im : d.out ) {
                    Image t = upload( im );
                    im.swap( t );
                }
                const uint64_t before = live::injected;
                Result r;
                live::countdown = at;
                run( d, r );
                live::countdown = -1;
                const bool hit = live::injected != before;
                ctx.hit( hit ? "calls with a failure" : "calls without" );
                if ( hit && r.status == 0 )
                    bad = "the call returned normally";
                else if ( !hit && r.status != 0 && !mayRefuse( c ) )
                    bad = "refused without a failure: " + r.what;
                // the inputs are as they were, and the operation works again
                for ( size_t q = 0; q < d.in.size() && bad.empty() && k.op->kind != INOUT; ++q )
                    bad = sameImages( download( d.in[q] ), c.in[q] );
                if ( bad.empty() && hit && k.op->kind != INOUT && !mayRefuse( c ) ) {
                    const bool replaced = k.op->name == "Copy" && c.form == 2; // an assigned image may be lost with the failure
                    if ( replaced )
                        for ( size_t q = 0; q < d.out.size(); ++q ) {
                            Image t = upload( c.out[q] );
                            d.out[q].swap( t );
                        }
                    Result again, plain;
                    d.vec = c.vec;
                    run( d, again );
                    Case ref = c;
                    run( ref, plain );
                    Case back = d;
                    back.in.clear();
                    back.in = c.in;
                    back.out.clear();
                    for ( const Image & im : d.out )
                        back.out.push_back( download( im ) );
                    if ( again.hasImg ) {
                        Image t = download( again.img );
                        again.img.swap( t );
                    }
                    std::vector<std::vector<uint32_t>> x, y;
                    if ( again.status )
                        bad = "the next call was refused: " + again.what;
                    else {
                        bad = collect( ref, plain, x );
                        if ( bad.empty() )
                            bad = collect( back, again, y );
                        if ( bad.empty() && x != y )
                            bad = "the next call gave another result";
                    }
                }
            }
            catch ( const std::exception & e ) {
                live::countdown = -1;
                bad = std::string( "unexpected exception: " ) + e.what();
            }
            d.in.clear();
            d.out.clear();
            const live::State now = live::state();
            if ( bad.empty() && !( now == objects ) )
                bad = "before the call: " + objects.text() + ", after it: " + now.text();
            if ( !bad.empty() )
                ctx.fail( "fault/" + sigOf( c, G ), text + ": " + bad );
            ++ctx.evaluations;
            ctx.distinct.insert( vf::mix( hashOf( c, G ), at ) );
            ctx.sample( text );
        } );
    }

    // memory of the device
    void modeMemory( vf::Ctx & ctx )
    {
        warmUp();
        cl_uint alignBits = 0;
        must( clGetDeviceInfo( multiCL::OpenCLDeviceManager::instance().device().deviceId(), CL_DEVICE_MEM_BASE_ADDR_ALIGN, sizeof( alignBits ), &alignBits, NULL ), "query" );
        ctx.loop( "G01 memory", [&]( uint64_t idx, Rng & rng ) {
            multiCL::MemoryAllocator & memory = multiCL::MemoryManager::memory();
            const live::State objects = live::state();
            size_t P = rng.pick<size_t>( { 4096, 65536, 100000, 1u << 20, 3u << 18, 5000000, 8191, 1u << 16 } ) + rng.u( 0, 3 ) * 512;
            const std::string text = fmt( "device memory of %zu bytes", P );
            ctx.begin( idx, text );
            std::string bad;
            struct Block
            {
                cl_mem m;
                size_t n, offset;
                bool pooled;
                std::vector<uint8_t> bytes;
            };
            std::vector<Block> blocks;
            auto check = [&]( const Block & b ) {
                std::vector<uint8_t> now( b.n );
                get( b.m, 0, now.data(), b.n );
                if ( now != b.bytes && bad.empty() )
                    bad = fmt( "a block of %zu bytes lost its contents", b.n );
            };
            auto request = [&]( size_t n, int type ) {
                Block b;
                if ( type == 0 )
                    b.m = memory.allocate<uint8_t>( n );
                else if ( type == 1 ) {
                    b.m = memory.allocate<uint32_t>( n );
                    n *= 4;
                }
                else {
                    b.m = memory.allocate<double>( n );
                    n *= 8;
                }
                b.n = n;
                size_t size = 0, offset = 0;
                cl_mem parent = NULL;
                must( clGetMemObjectInfo( b.m, CL_MEM_SIZE, sizeof( size ), &size, NULL ), "query" );
                must( clGetMemObjectInfo( b.m, CL_MEM_OFFSET, sizeof( offset ), &offset, NULL ), "query" );
                must( clGetMemObjectInfo( b.m, CL_MEM_ASSOCIATED_MEMOBJECT, sizeof( parent ), &parent, NULL ), "query" );
                b.offset = offset;
                b.pooled = parent != NULL;
                if ( size != n && bad.empty() )
                    bad = fmt( "asked for %zu bytes, got %zu", n, size );
                if ( b.pooled ) {
                    if ( bad.empty() && ( offset + n > P || offset * 8 % alignBits ) )
                        bad = fmt( "block of %zu bytes at offset %zu of a pool of %zu", n, offset, P );
                    for ( const Block & o : blocks )
                        if ( bad.empty() && o.pooled && o.offset < offset + n && offset < o.offset + o.n )
                            bad = fmt( "block of %zu bytes at %zu overlaps one of %zu bytes at %zu", n, offset, o.n, o.offset );
                }
                ctx.hit( b.pooled ? "blocks of the pool" : "blocks outside of the pool" );
                b.bytes.resize( n );
                randomBytes( b.bytes.data(), n, rng );
                put( b.m, 0, b.bytes.data(), n );
                blocks.push_back( b );
                ++ctx.evaluations;
            };
            auto release = [&]( size_t k ) {
                check( blocks[k] );
                memory.free( blocks[k].m );
                blocks.erase( blocks.begin() + static_cast<long>( k ) );
            };
            try {
                memory.reserve( P );
                const uint32_t steps = rng.u( 5, 60 );
                for ( uint32_t s = 0; s < steps && bad.empty(); ++s ) {
                    const uint32_t what = rng.u( 0, 99 );
                    if ( what < 55 || blocks.empty() ) {
                        const size_t n = rng.chance( 20 ) ? rng.u( 1, static_cast<uint32_t>( P ) ) : rng.chance( 40 ) ? size_t( 1 ) << rng.u( 0, 16 ) : rng.u( 1, 5000 );
                        const int t = static_cast<int>( rng.u( 0, 2 ) );
                        request( t == 0 ? n : std::max<size_t>( 1, n / 8 ), t );
                    }
                    else if ( what < 92 )
                        release( rng.u( 0, static_cast<uint32_t>( blocks.size() ) - 1 ) );
                    else {
                        // refused requests change nothing
                        bool pooled = false;
                        for ( const Block & b : blocks )
                            pooled = pooled || b.pooled;
                        const uint32_t which = rng.u( 0, 3 );
                        bool thrown = false;
                        try {
                            if ( which == 0 )
                                memory.reserve( 0 );
                            else if ( which == 1 )
                                memory.reserve( memory.availableSize() + rng.u( 1, 1000 ) );
                            else if ( which == 2 && pooled )
                                memory.reserve( P + rng.u( 1, 5000 ) );
                            else {
                                const size_t much = ( static_cast<size_t>( -1 ) / 4 ) + rng.u( 2, 600 );
                                cl_mem m = memory.allocate<uint32_t>( much );
                                memory.free( m );
                            }
                        }
                        catch ( const std::exception & ) {
                            thrown = true;
                        }
                        if ( !thrown && bad.empty() )
                            bad = fmt( "request %u which cannot be met was not refused", which );
                        memory.reserve( P ); // no change of size: nothing happens
                        ctx.hit( "refusals" );
                    }
                }
                while ( !blocks.empty() )
                    release( rng.u( 0, static_cast<uint32_t>( blocks.size() ) - 1 ) );
                // everything is available again: the largest powers of two the pool consists of
                std::vector<size_t> parts;
                for ( int bit = 40; bit >= 10; --bit )
                    if ( P & ( size_t( 1 ) << bit ) )
                        parts.push_back( size_t( 1 ) << bit );
                for ( size_t n : parts )
                    if ( bad.empty() && n * 8 >= alignBits && n >= 1024 ) {
                        request( n == P ? n - 1 : n, 0 );
                        if ( !blocks.back().pooled && bad.empty() )
                            bad = fmt( "%zu bytes are not available from the empty pool of %zu", n, P );
                    }
                while ( !blocks.empty() )
                    release( blocks.size() - 1 );
            }
            catch ( const std::exception & e ) {
                if ( bad.empty() )
                    bad = std::string( "unexpected exception: " ) + e.what();
            }
            live::State now = live::state();
            if ( now.m - objects.m == 1 ) // the pool itself
                --now.m;
            if ( bad.empty() && !( now == objects ) )
                bad = "objects before: " + objects.text() + ", after: " + now.text();
            if ( !bad.empty() )
                ctx.fail( "memory", text + ": " + bad );
            ctx.distinct.insert( vf::mix( P, rng.next() ) );
            ctx.sample( text );
        } );
    }

    template <typename T>
    std::string typeRoundTrip( Rng & r )
    {
        auto value = [&]() { return static_cast<T>( r.next() ); };
        const T a = value(), b = value();
        multiCL::Type<T> t( a );
        if ( t.get() != a )
            return "Type does not keep its value";
        t = b;
        if ( t.get() != b )
            return "Type does not take a new value";
        multiCL::Type<T> u( std::move( t ) );
        if ( u.get() != b )
            return "Type loses its value when moved";
        std::vector<T> v( r.u( 1, 3000 ) ), w( r.u( 1, 3000 ) );
        for ( T & x : v )
            x = value();
        for ( T & x : w )
            x = value();
        multiCL::Array<T> x( v );
        if ( x.get() != v || x.size() != v.size() || x.empty() )
            return "Array does not keep its values";
        multiCL::Array<T> y;
        if ( !y.empty() || y.size() != 0 || !y.get().empty() )
            return "a fresh Array is not empty";
        y = w;
        if ( y.get() != w || x.get() != v )
            return "Array does not take new values";
        y = std::move( x );
        if ( y.get() != v )
            return "Array loses its values when moved";
        y = v.size() == w.size() ? v : w;
        multiCL::Array<T> z( static_cast<size_t>( r.u( 1, 500 ) ) );
        const size_t n = r.u( 0, 500 );
        z.resize( n );
        if ( z.size() != n || z.get().size() != n || z.empty() != ( n == 0 ) )
            return "Array has another size than asked for";
        bool thrown = false;
        try {
            multiCL::Array<T> & zz = z;
            zz.resize( static_cast<size_t>( 1 ) << 55 );
        }
        catch ( const std::exception & ) {
            thrown = true;
        }
        if ( !thrown )
            return "an impossible Array was created";
        if ( z.get().size() != z.size() || ( z.data() == NULL && z.size() != 0 ) )
            return "an Array reports elements which it does not have after a refused resize";
        return "";
    }

    // device images as values
    template <typename T>
    std::string imageValues( Rng & r )
    {
        typedef penguinV::ImageTemplate<T> Base;
        typedef ImageTemplateOpenCL<T> Dev;
        struct Model
        {
            uint32_t w = 0, h = 0;
            uint8_t cc = 1, al = 1;
            std::vector<T> v; // whole rows
            bool known = true;
            uint32_t rs() const
            {
                return ( w * cc + al - 1u ) / al * al;
            }
        };
        std::vector<Dev> im( 3 );
        std::vector<Model> mo( 3 );
        auto same = [&]( const Dev & a, const Model & m ) -> std::string {
            if ( a.type() != 3 )
                return fmt( "type %u", a.type() );
            if ( a.empty() != m.v.empty() )
                return "emptiness";
            if ( a.empty() )
                return "";
            if ( a.width() != m.w || a.height() != m.h || a.colorCount() != m.cc || a.alignment() != m.al || a.rowSize() != m.rs() )
                return fmt( "is %ux%ux%u row %u, must be %ux%ux%u row %u", a.width(), a.height(), a.colorCount(), a.rowSize(), m.w, m.h, m.cc, m.rs() );
            std::vector<T> now( m.v.size() );
            get( mem( a.data() ), 0, now.data(), now.size() * sizeof( T ) );
            if ( m.known && memcmp( now.data(), m.v.data(), now.size() * sizeof( T ) ) != 0 )
                return "contents";
            return "";
        };
        std::string history;
        for ( uint32_t s = 0; s < 14; ++s ) {
            const size_t a = r.u( 0, 2 ), b = r.u( 0, 2 );
            switch ( r.u( 0, 8 ) ) {
            case 0: {
                Model m;
                m.w = r.u( 1, 70 );
                m.h = r.u( 1, 20 );
                m.cc = static_cast<uint8_t>( r.pick( { 1, 3, 4 } ) );
                m.al = pickAlign( r );
                Dev d( m.w, m.h, m.cc, m.al );
                m.v.resize( static_cast<size_t>( m.rs() ) * m.h );
                for ( T & x : m.v )
                    x = static_cast<T>( r.next() );
                put( mem( d.data() ), 0, m.v.data(), m.v.size() * sizeof( T ) );
                im[a] = d;
                mo[a] = m;
                history += fmt( " new%zu", a );
                break;
            }
            case 1:
                im[a] = im[b];
                mo[a] = mo[b];
                history += fmt( " %zu=%zu", a, b );
                break;
            case 2: {
                Dev t( im[b] );
                im[a].swap( t );
                mo[a] = mo[b];
                history += fmt( " %zu=copy%zu", a, b );
                break;
            }
            case 3:
                im[a].swap( im[b] );
                std::swap( mo[a], mo[b] );
                history += fmt( " swap%zu,%zu", a, b );
                break;
            case 4: {
                if ( mo[a].v.empty() )
                    break;
                const T v = static_cast<T>( r.next() );
                im[a].fill( v );
                std::fill( mo[a].v.begin(), mo[a].v.end(), v );
                mo[a].known = true;
                history += fmt( " fill%zu", a );
                break;
            }
            case 5:
                im[a].clear();
                mo[a].v.clear();
                mo[a].w = mo[a].h = 0;
                history += fmt( " clear%zu", a );
                break;
            case 6: {
                if ( mo[a].v.empty() )
                    break;
                mo[a].w = r.u( 1, 70 );
                mo[a].h = r.u( 1, 20 );
                im[a].resize( mo[a].w, mo[a].h );
                mo[a].v.assign( static_cast<size_t>( mo[a].rs() ) * mo[a].h, T() );
                mo[a].known = false;
                const T v = static_cast<T>( r.next() );
                im[a].fill( v );
                std::fill( mo[a].v.begin(), mo[a].v.end(), v );
                mo[a].known = true;
                history += fmt( " resize%zu", a );
                break;
            }
            case 7: { // through the base class
                Base t( im[a] );
                Base u = t;
                im[b] = im[a];
                if ( a != b )
                    mo[b] = mo[a];
                if ( t.type() != 3 || u.type() != 3 )
                    return history + ": a copy has another type";
                history += fmt( " base%zu", a );
                break;
            }
            default: { // an image in ordinary memory cannot be assigned
                bool thrown = false;
                Base cpu( 3, 3 );
                Base & ref = im[a];
                try {
                    ref = static_cast<const Base &>( cpu );
                }
                catch ( const penguinVException & ) {
                    thrown = true;
                }
                if ( !thrown )
                    return history + ": an image of another type was assigned";
                break;
            }
            }
            for ( size_t k = 0; k < 3; ++k ) {
                const std::string e = same( im[k], mo[k] );
                if ( !e.empty() )
                    return history + fmt( ": image %zu: ", k ) + e;
            }
        }
        return "";
    }

    const char * countCode = R"(
        __kernel void count3( volatile __global uint * cells, uint w, uint h, uint d, volatile __global uint * outside )
        {
            const size_t x = get_global_id(0);
            const size_t y = get_global_id(1);
            const size_t z = get_global_id(2);
            if( x < w && y < h && z < d )
                atomic_add( &cells[( z * h + y ) * w + x], 1 );
            else
                atomic_add( outside, 1 );
        })";

    void modeApi( vf::Ctx & ctx )
    {
        multiCL::OpenCLDeviceManager & manager = multiCL::OpenCLDeviceManager::instance();
        ctx.loop( "G01 api", [&]( uint64_t idx, Rng & rng ) {
            std::string bad, what;
            const uint32_t which = static_cast<uint32_t>( idx % 11 );
            auto refusedAs = [&]( const char * name, const std::function<void()> & f ) {
                try {
                    f();
                }
                catch ( const penguinVException & ) {
                    ctx.hit( "refusals" );
                    return;
                }
                catch ( const std::exception & e ) {
                    bad = fmt( "%s ended in another exception: %s", name, e.what() );
                    return;
                }
                bad = fmt( "%s was not refused", name );
            };
            try {
                switch ( which ) {
                case 0:
                    what = "single values and arrays";
                    ctx.begin( idx, what );
                    bad = typeRoundTrip<uint8_t>( rng );
                    if ( bad.empty() )
                        bad = typeRoundTrip<uint32_t>( rng );
                    if ( bad.empty() )
                        bad = typeRoundTrip<int64_t>( rng );
                    break;
                case 1:
                    what = "images of 8 bits as values";
                    ctx.begin( idx, what );
                    bad = imageValues<uint8_t>( rng );
                    break;
                case 2:
                    what = "images of more bits as values";
                    ctx.begin( idx, what );
                    bad = rng.chance( 50 ) ? imageValues<uint16_t>( rng ) : imageValues<uint32_t>( rng );
                    break;
                case 3: {
                    const size_t n = rng.u( 1, 20000 );
                    const size_t ps = rng.pick<size_t>( { 1, 1, 2, 4, 8 } );
                    const size_t items = ( n + ps - 1 ) / ps;
                    const size_t first = rng.u( 0, static_cast<uint32_t>( items ) - 1 ), count = rng.u( 1, static_cast<uint32_t>( items - first ) );
                    what = fmt( "memory of %zu items of %zu bytes, %zu items set from item %zu", items, ps, count, first );
                    ctx.begin( idx, what );
                    std::vector<uint8_t> v( items * ps ), p( ps );
                    randomBytes( v.data(), v.size(), rng );
                    randomBytes( p.data(), ps, rng );
                    cl_mem m = multiCL::MemoryManager::memory().allocate<uint8_t>( v.size() );
                    put( m, 0, v.data(), v.size() );
                    multiCL::MemoryManager::memorySet( m, p.data(), ps, first * ps, count * ps );
                    for ( size_t k = 0; k < count * ps; ++k )
                        v[first * ps + k] = p[k % ps];
                    std::vector<uint8_t> now( v.size() );
                    get( m, 0, now.data(), now.size() );
                    multiCL::MemoryManager::memory().free( m );
                    if ( now != v )
                        bad = "the contents are not as requested";
                    break;
                }
                case 4: {
                    const uint32_t dims = rng.u( 1, 3 );
                    const uint32_t w = rng.chance( 10 ) ? rng.u( 4000, 9000 ) : rng.u( 1, 300 ), h = dims > 1 ? rng.u( 1, 90 ) : 1, d = dims > 2 ? rng.u( 1, 20 ) : 1;
                    what = fmt( "kernel in %u dimensions: %ux%ux%u", dims, w, h, d );
                    ctx.begin( idx, what );
                    static std::unique_ptr<multiCL::OpenCLProgram> program;
                    static cl_context of = NULL;
                    if ( !program || of != manager.device().context()() ) {
                        std::ofstream( "count.cl" ) << countCode << std::string( rng.u( 0, 64 ), ' ' );
                        program.reset( new multiCL::OpenCLProgram( multiCL::CreateProgramFromFile( "count.cl" ) ) );
                        of = manager.device().context()();
                    }
                    multiCL::OpenCLKernel kernel( *program, "count3" );
                    multiCL::Array<uint32_t> cells( std::vector<uint32_t>( static_cast<size_t>( w ) * h * d, 0u ) );
                    multiCL::Type<uint32_t> outside( 0u );
                    kernel.setArgument( cells.data(), w, h, d, outside.data() );
                    if ( dims == 1 )
                        multiCL::launchKernel1D( kernel, w );
                    else if ( dims == 2 )
                        multiCL::launchKernel2D( kernel, w, h );
                    else
                        multiCL::launchKernel3D( kernel, w, h, d );
                    for ( uint32_t c : cells.get() )
                        if ( c != 1 )
                            bad = fmt( "a position was visited %u times", c );
                    refusedAs( "a kernel which does not exist", [&]() { multiCL::OpenCLKernel k( *program, "other" ); } );
                    break;
                }
                case 5: {
                    what = "device numbers";
                    ctx.begin( idx, what );
                    const uint32_t id = manager.supportedDeviceCount() + rng.pick( { 0u, 1u, 7u, 100u, 0x7FFFFFFFu } );
                    refusedAs( "device()", [&]() { manager.device( id ); } );
                    if ( bad.empty() )
                        refusedAs( "device() const", [&]() { static_cast<const multiCL::OpenCLDeviceManager &>( manager ).device( id ); } );
                    if ( bad.empty() )
                        refusedAs( "setActiveDevice()", [&]() { manager.setActiveDevice( id ); } );
                    if ( bad.empty() )
                        refusedAs( "initializeDevice()", [&]() { manager.initializeDevice( id ); } );
                    if ( bad.empty() )
                        refusedAs( "closeDevice()", [&]() { manager.closeDevice( id ); } );
                    if ( bad.empty() )
                        refusedAs( "memory()", [&]() { multiCL::MemoryManager::memory( id ); } );
                    const uint32_t before = manager.deviceCount();
                    manager.initializeDevices();
                    if ( manager.deviceCount() != before && bad.empty() )
                        bad = "initializing again changed the number of devices";
                    break;
                }
                case 6: {
                    what = "devices closed and initialized again";
                    ctx.begin( idx, what );
                    manager.closeDevices();
                    if ( manager.deviceCount() != 0 )
                        bad = "closed devices are counted";
                    refusedAs( "device() without devices", [&]() { manager.device(); } );
                    if ( rng.chance( 50 ) )
                        manager.initializeDevices();
                    else
                        manager.initializeDevice( 0 );
                    Case c;
                    c.form = 4;
                    for ( const Op & op : table() )
                        if ( op.name == "Subtract" )
                            generate( c, op, rng );
                    const Judged j = judge( c, rng, G, true );
                    if ( bad.empty() && !j.sig.empty() )
                        bad = "afterwards: " + j.sig + ": " + j.text;
                    Image f = ImageOpenCL().generate( 30, 20 );
                    f.fill( 77 );
                    const Image g = download( f );
                    if ( bad.empty() && ( g.data()[0] != 77 || g.data()[599] != 77 ) )
                        bad = "afterwards an image is not filled";
                    if ( idx % 2 )
                        multiCL::MemoryManager::memory().reserve( 1u << 20 );
                    break;
                }
                case 7: {
                    what = "queues";
                    ctx.begin( idx, what );
                    multiCL::OpenCLDevice & device = manager.device();
                    const size_t n = rng.u( 1, 6 );
                    device.setQueueCount( n );
                    if ( device.queueCount() != n )
                        bad = fmt( "%zu queues instead of %zu", device.queueCount(), n );
                    const size_t q = rng.u( 0, 8 ), before = device.currentQueueId();
                    device.setCurrentQueueId( q );
                    if ( bad.empty() && device.currentQueueId() != ( q < n ? q : before ) )
                        bad = fmt( "queue %zu is in use after choosing %zu of %zu", device.currentQueueId(), q, n );
                    Case c;
                    c.form = 4;
                    for ( const Op & op : table() )
                        if ( op.name == "Maximum" )
                            generate( c, op, rng );
                    const Judged j = judge( c, rng, G, true );
                    if ( bad.empty() && !j.sig.empty() )
                        bad = "operation: " + j.sig + ": " + j.text;
                    device.synchronize();
                    device.setQueueCount( 1 );
                    if ( bad.empty() && device.currentQueueId() != 0 )
                        bad = "a removed queue is in use";
                    break;
                }
                case 8: {
                    what = "transfers which do not fit";
                    ctx.begin( idx, what );
                    const uint32_t w = rng.u( 2, 60 ), h = rng.u( 2, 40 );
                    const int cc = rng.pick( { 1, 3, 4 } );
                    Image cpu = makeImage( w, h, cc, rng );
                    const Image old = cpu;
                    uint32_t w2 = w, h2 = h;
                    int c2 = cc;
                    switch ( rng.u( 0, 3 ) ) {
                    case 0: w2 = w + 1 - 2 * rng.u( 0, 1 ); break;
                    case 1: h2 = h + 1 - 2 * rng.u( 0, 1 ); break;
                    case 2: c2 = cc == 1 ? 3 : 1; break;
                    default: w2 = h2 = 0;
                    }
                    Image dev = w2 ? upload( makeImage( w2, h2, c2, rng ) ) : ImageOpenCL().generate();
                    const Image devOld = download( dev );
                    refusedAs( "ConvertToOpenCL", [&]() { Image_Function_OpenCL::ConvertToOpenCL( cpu, dev ); } );
                    if ( bad.empty() )
                        refusedAs( "ConvertFromOpenCL", [&]() { Image_Function_OpenCL::ConvertFromOpenCL( dev, cpu ); } );
                    if ( bad.empty() )
                        bad = sameImages( cpu, old );
                    if ( bad.empty() )
                        bad = sameImages( download( dev ), devOld );
                    break;
                }
                case 9: {
                    what = "program which cannot be built";
                    ctx.begin( idx, what );
                    refusedAs( "a wrong program", [&]() { multiCL::OpenCLProgram p( manager.device().context(), "__kernel void f( int a ) { undeclared = a; }" ); } );
                    break;
                }
                default: {
                    what = "support of devices";
                    ctx.begin( idx, what );
                    bool g = false, c = false;
                    multiCL::getDeviceSupportStatus( g, c );
                    if ( !g || !c || !multiCL::isOpenCLSupported() )
                        bad = "status";
                    multiCL::enableDeviceSupport( false, false );
                    const bool none = multiCL::isOpenCLSupported();
                    multiCL::enableDeviceSupport( false, true );
                    const bool cpu = multiCL::isOpenCLSupported();
                    multiCL::enableDeviceSupport( true, true );
                    if ( none || !cpu )
                        bad = "support does not follow the enabled devices";
                    break;
                }
                }
            }
            catch ( const std::exception & e ) {
                if ( bad.empty() )
                    bad = std::string( "unexpected exception: " ) + e.what();
            }
            if ( !bad.empty() )
                ctx.fail( "api/" + what.substr( 0, 12 ), what + ": " + bad );
            ++ctx.evaluations;
            ctx.hit( fmt( "kind %u", which ) );
            ctx.distinct.insert( rng.next() );
            ctx.sample( what );
        } );
    }

    // several devices: every thread has its own active device, nothing done on one of them concerns another one
    void modeDevices( vf::Ctx & ctx )
    {
        multiCL::OpenCLDeviceManager & manager = multiCL::OpenCLDeviceManager::instance();
        const uint32_t devices = manager.deviceCount();
        if ( devices < 2 ) {
            printf( "only %u OpenCL devices\n", devices );
            exit( 3 );
        }
        const auto list = combos();
        auto randomCase = [&]( Rng & r ) {
            const Combo * k = nullptr;
            do
                k = &r.pick( list );
            while ( k->ns != G );
            Case c;
            c.ns = F;
            c.form = k->form;
            Limits lim;
            lim.big = false;
            generate( c, *k->op, r, lim );
            return c;
        };
        auto contextOf = []( const Image & im ) {
            cl_context c = NULL;
            must( clGetMemObjectInfo( mem( im.data() ), CL_MEM_CONTEXT, sizeof c, &c, NULL ), "context of a memory object" );
            return c;
        };
        auto info = []( cl_device_id id, cl_device_info what ) {
            size_t n = 0;
            must( clGetDeviceInfo( id, what, 0, NULL, &n ), "information" );
            std::vector<char> v( n + 1 );
            must( clGetDeviceInfo( id, what, n, v.data(), NULL ), "information" );
            return std::string( v.data() );
        };
        for ( uint32_t k = 0; k < devices; ++k ) { // programs and shared kernels
            manager.setActiveDevice( k );
            warmUp();
        }
        manager.setActiveDevice( 0 );
        ctx.loop( "G01 devices", [&]( uint64_t idx, Rng & rng ) {
            std::string bad, what;
            const uint32_t which = static_cast<uint32_t>( idx % 6 );
            auto check = [&]( bool ok, const std::string & text ) {
                if ( !ok && bad.empty() )
                    bad = text;
            };
            auto refusedAs = [&]( const char * name, const std::function<void()> & f ) {
                try {
                    f();
                }
                catch ( const penguinVException & ) {
                    ctx.hit( "refusals" );
                    return;
                }
                catch ( const std::exception & e ) {
                    check( false, fmt( "%s ended in another exception: %s", name, e.what() ) );
                    return;
                }
                check( false, fmt( "%s was not refused", name ) );
            };
            auto callOn = [&]( uint32_t k, Rng & r ) {
                Case c = randomCase( r );
                const Judged j = judge( c, r, G, true );
                ctx.hit( "values compared", j.values );
                check( j.sig.empty(), fmt( "device %u: %s: %s: %s", k, sigOf( c, G ).c_str(), j.sig.c_str(), j.text.c_str() ) );
            };
            try {
                switch ( which ) {
                case 0: {
                    const uint32_t n = rng.u( 2, 4 ), m = rng.u( 1, 4 );
                    const uint64_t seed = rng.next();
                    what = fmt( "%u threads with %u calls each, every thread on a device of its own choice", n, m );
                    ctx.begin( idx, what );
                    manager.setActiveDevice( rng.u( 0, devices - 1 ) );
                    const multiCL::OpenCLDevice * mine = &manager.device();
                    std::vector<std::thread> ts;
                    std::mutex lock;
                    std::atomic<uint32_t> ready{ 0 };
                    live::turns = true;
                    for ( uint32_t t = 0; t < n; ++t )
                        ts.emplace_back( [&, t]() {
                            Rng r( vf::mix( seed, t ) );
                            std::string e;
                            uint64_t values = 0;
                            std::vector<Case> cases;
                            for ( uint32_t k = 0; k < m; ++k )
                                cases.push_back( randomCase( r ) );
                            try {
                                if ( &manager.device() != &manager.device( 0 ) )
                                    e = "a new thread has another active device than the first one";
                                ready.fetch_add( 1 );
                                while ( ready.load() < n )
                                    std::this_thread::yield();
                                uint32_t on = t % devices;
                                for ( uint32_t k = 0; k < m && e.empty(); ++k ) {
                                    if ( k == 0 || r.chance( 30 ) ) {
                                        on = k == 0 ? on : r.u( 0, devices - 1 );
                                        manager.setActiveDevice( on );
                                    }
                                    if ( &manager.device() != &manager.device( on ) )
                                        e = "the chosen device is not the active one";
                                    const uint8_t v = static_cast<uint8_t>( r.next() );
                                    Image f = ImageOpenCL().generate( r.u( 1, 200 ), r.u( 1, 40 ) );
                                    if ( contextOf( f ) != manager.device( on ).context()() )
                                        e = "an image is not on the chosen device";
                                    f.fill( v );
                                    const Image g = download( f );
                                    for ( uint32_t i = 0; i < g.rowSize() * g.height(); ++i )
                                        if ( g.data()[i] != v )
                                            e = "an image is not filled";
                                    const Judged j = judge( cases[k], r, G, true );
                                    values += j.values;
                                    if ( !j.sig.empty() )
                                        e = fmt( "device %u: %s: %s: %s", on, sigOf( cases[k], G ).c_str(), j.sig.c_str(), j.text.c_str() );
                                }
                            }
                            catch ( const std::exception & x ) {
                                e = std::string( "unexpected exception: " ) + x.what();
                            }
                            std::lock_guard<std::mutex> g( lock );
                            check( e.empty(), e );
                            ctx.evaluations += m;
                            ctx.hit( "values compared", values );
                        } );
                    for ( auto & t : ts )
                        t.join();
                    live::turns = false;
                    check( &manager.device() == mine, "threads changed the active device of another thread" );
                    break;
                }
                case 1: {
                    struct Held
                    {
                        uint32_t on;
                        Image im;
                        Image model;
                    };
                    const uint32_t steps = rng.u( 4, 24 );
                    what = fmt( "images on %u devices in turn, %u steps", devices, steps );
                    ctx.begin( idx, what );
                    for ( uint32_t k = 0; k < devices; ++k ) {
                        manager.setActiveDevice( k );
                        warmUp();
                    }
                    const live::State before = live::state();
                    std::vector<std::unique_ptr<Held>> held;
                    std::string history;
                    auto drop = [&]( size_t k ) {
                        manager.setActiveDevice( held[k]->on );
                        held.erase( held.begin() + static_cast<std::ptrdiff_t>( k ) );
                    };
                    for ( uint32_t s = 0; s < steps && bad.empty(); ++s ) {
                        const uint32_t action = rng.u( 0, 5 );
                        if ( action < 2 || held.empty() ) {
                            std::unique_ptr<Held> h( new Held );
                            h->on = rng.u( 0, devices - 1 );
                            manager.setActiveDevice( h->on );
                            Image cpu = makeImage( rng.u( 1, 120 ), rng.u( 1, 60 ), rng.pick( { 1, 1, 3, 4 } ), rng );
                            Image t = Image_Function_OpenCL::ConvertToOpenCL( cpu );
                            check( contextOf( t ) == manager.device( h->on ).context()(), "an image is not on the active device" );
                            h->im.swap( t );
                            h->model.swap( cpu );
                            history += fmt( " new(%u)", h->on );
                            held.push_back( std::move( h ) );
                        }
                        else {
                            const size_t k = rng.u( 0, static_cast<uint32_t>( held.size() ) - 1 );
                            Held & h = *held[k];
                            manager.setActiveDevice( h.on );
                            if ( action == 2 ) {
                                history += fmt( " invert(%zu)", k );
                                Image_Function_OpenCL::Invert( h.im, h.im );
                                Image_Function::Invert( h.model, h.model );
                            }
                            else if ( action == 3 ) {
                                history += fmt( " fill(%zu)", k );
                                const uint8_t v = static_cast<uint8_t>( rng.next() );
                                h.im.fill( v );
                                h.model.fill( v );
                            }
                            else if ( action == 4 ) {
                                history += fmt( " copy(%zu)", k );
                                Image t( h.im );
                                check( contextOf( t ) == manager.device( h.on ).context()(), "a copy is not on the active device" );
                                h.im.swap( t );
                            }
                            else {
                                history += fmt( " drop(%zu)", k );
                                drop( k );
                            }
                        }
                        for ( size_t k = 0; k < held.size(); ++k ) {
                            manager.setActiveDevice( held[k]->on );
                            const std::string e = sameImages( download( held[k]->im ), held[k]->model );
                            check( e.empty(), fmt( "image %zu on device %u:%s: %s", k, held[k]->on, history.c_str(), e.c_str() ) );
                        }
                    }
                    while ( !held.empty() )
                        drop( rng.u( 0, static_cast<uint32_t>( held.size() ) - 1 ) );
                    check( live::state() == before, "objects remain: " + before.text() + ", afterwards " + live::state().text() );
                    break;
                }
                case 2: {
                    const uint32_t keep = rng.u( 0, devices - 1 ), other = ( keep + rng.u( 1, devices - 1 ) ) % devices;
                    what = fmt( "device %u closed while images are on device %u", other, keep );
                    ctx.begin( idx, what );
                    manager.setActiveDevice( other );
                    if ( rng.chance( 40 ) )
                        multiCL::MemoryManager::memory( other ).reserve( 1u << rng.u( 12, 20 ) );
                    callOn( other, rng );
                    manager.setActiveDevice( keep );
                    Image cpu = makeImage( rng.u( 1, 120 ), rng.u( 1, 60 ), 1, rng );
                    Image dev = Image_Function_OpenCL::ConvertToOpenCL( cpu );
                    const multiCL::OpenCLDevice * kept = &manager.device();
                    const live::State before = live::state();
                    manager.closeDevice( other );
                    const live::State after = live::state();
                    check( after.q == before.q - 1, "closing a device left its queue" );
                    check( after.m <= before.m, "closing a device created memory objects" );
                    check( manager.deviceCount() == devices - 1, "a closed device is counted" );
                    check( &manager.device() == kept, "closing a device replaced another one" );
                    refusedAs( "device() of a closed device", [&]() { manager.device( other ); } );
                    refusedAs( "setActiveDevice() of a closed device", [&]() { manager.setActiveDevice( other ); } );
                    refusedAs( "memory() of a closed device", [&]() { multiCL::MemoryManager::memory( other ); } );
                    check( &manager.device() == kept, "a refused choice changed the active device" );
                    if ( rng.chance( 50 ) )
                        manager.closeDevice( other );
                    check( manager.deviceCount() == devices - 1, "closing a closed device closed another one" );
                    std::string e = sameImages( download( dev ), cpu );
                    check( e.empty(), "image on the other device: " + e );
                    callOn( keep, rng );
                    if ( rng.chance( 50 ) )
                        manager.initializeDevice( other );
                    else
                        manager.initializeDevices();
                    check( manager.deviceCount() == devices, "initializing did not bring the device back" );
                    check( &manager.device() == kept, "initializing replaced another device" );
                    e = sameImages( download( dev ), cpu );
                    check( e.empty(), "image on the other device after initializing: " + e );
                    {
                        Image none;
                        dev.swap( none );
                    }
                    manager.setActiveDevice( other );
                    callOn( other, rng );
                    break;
                }
                case 3: {
                    what = "description of devices";
                    ctx.begin( idx, what );
                    std::set<const multiCL::OpenCLDevice *> all;
                    std::set<cl_context> contexts;
                    for ( uint32_t k = 0; k < devices; ++k ) {
                        const multiCL::OpenCLDevice & d = static_cast<const multiCL::OpenCLDeviceManager &>( manager ).device( k );
                        all.insert( &d );
                        contexts.insert( d.context()() );
                        check( &d == &manager.device( k ), "two objects of one device" );
                        check( d.name() == info( d.deviceId(), CL_DEVICE_NAME ), "name " + d.name() );
                        check( d.computeCapability() == info( d.deviceId(), CL_DEVICE_VERSION ), "capability " + d.computeCapability() );
                        cl_device_id of = NULL;
                        must( clGetContextInfo( d.context()(), CL_CONTEXT_DEVICES, sizeof of, &of, NULL ), "devices of a context" );
                        check( of == d.deviceId(), "the context is one of another device" );
                        of = NULL;
                        must( clGetCommandQueueInfo( d.queue()(), CL_QUEUE_DEVICE, sizeof of, &of, NULL ), "device of a queue" );
                        check( of == d.deviceId(), "the queue is one of another device" );
                        const size_t n = rng.u( 1, 5000 );
                        cl_mem m = multiCL::MemoryManager::memory( k ).allocate<uint8_t>( n );
                        cl_context c = NULL;
                        size_t size = 0;
                        must( clGetMemObjectInfo( m, CL_MEM_CONTEXT, sizeof c, &c, NULL ), "context of a memory object" );
                        must( clGetMemObjectInfo( m, CL_MEM_SIZE, sizeof size, &size, NULL ), "size of a memory object" );
                        multiCL::MemoryManager::memory( k ).free( m );
                        check( c == d.context()() && size >= n, "memory of another device or size" );
                    }
                    check( all.size() == devices && contexts.size() == devices, "devices are not distinct" );
                    break;
                }
                case 4: {
                    std::vector<cl_device_id> ids;
                    for ( uint32_t k = 0; k < devices; ++k )
                        ids.push_back( manager.device( k ).deviceId() );
                    const uint32_t lost = rng.u( 0, devices - 1 );
                    const bool allLost = rng.chance( 15 );
                    what = allLost ? "no device is available" : fmt( "device %u is not available", lost );
                    ctx.begin( idx, what );
                    manager.setActiveDevice( 0 );
                    if ( allLost )
                        live::noContext.insert( ids.begin(), ids.end() );
                    else
                        live::noContext.insert( ids[lost] );
                    try {
                        manager.resetSupportedDevice();
                        const uint32_t left = allLost ? 0 : devices - 1;
                        check( manager.deviceCount() == 0, "devices remain initialized" );
                        check( manager.supportedDeviceCount() == left, fmt( "%u devices are offered instead of %u", manager.supportedDeviceCount(), left ) );
                        if ( bad.empty() ) {
                            manager.initializeDevices();
                            check( manager.deviceCount() == left, "not all available devices are initialized" );
                            for ( uint32_t k = 0, at = 0; k < devices && bad.empty() && !allLost; ++k )
                                if ( k != lost ) {
                                    check( manager.device( at ).deviceId() == ids[k], "another device is offered than the available one" );
                                    manager.setActiveDevice( at++ );
                                    callOn( k, rng );
                                }
                            if ( allLost )
                                refusedAs( "device() without devices", [&]() { manager.device(); } );
                        }
                    }
                    catch ( const std::exception & e ) {
                        check( false, std::string( "unexpected exception: " ) + e.what() );
                    }
                    live::noContext.clear();
                    manager.resetSupportedDevice();
                    manager.initializeDevices();
                    check( manager.deviceCount() == devices, "an available device does not come back" );
                    break;
                }
                default: {
                    const uint32_t k = rng.u( 0, devices - 1 ), active = rng.u( 0, devices - 1 );
                    what = fmt( "wrong program for device %u while device %u is active", k, active );
                    ctx.begin( idx, what );
                    manager.setActiveDevice( active );
                    const std::string name = fmt( "undeclared_%u", rng.u( 0, 1000000 ) );
                    try {
                        multiCL::OpenCLProgram p( manager.device( k ).context(), ( "__kernel void f( __global int * a ) { a[0] = 1; }\n__kernel void g( int a ) { a = " + name + "; }" ).c_str() );
                        check( false, "was not refused" );
                    }
                    catch ( const penguinVException & e ) {
                        ctx.hit( "refusals" );
                        check( std::string( e.what() ).find( name ) != std::string::npos, std::string( "the reason is not told: " ) + e.what() );
                    }
                    callOn( active, rng );
                    break;
                }
                }
            }
            catch ( const std::exception & e ) {
                check( false, std::string( "unexpected exception: " ) + e.what() );
            }
            manager.setActiveDevice( 0 );
            if ( !bad.empty() )
                ctx.fail( fmt( "devices/%u", which ), what + ": " + bad );
            ++ctx.evaluations;
            ctx.hit( fmt( "devices: kind %u", which ) );
            ctx.distinct.insert( rng.next() );
            ctx.sample( what );
        } );
    }
}

int main( int argc, char ** argv )
{
    vf::Ctx ctx;
    ctx.parse( argc, argv );
    // compiled kernels stay in the scratch folder of this process
    char cwd[3000];
    if ( getcwd( cwd, sizeof cwd ) )
        setenv( "POCL_CACHE_DIR", ( std::string( cwd ) + "/pocl" ).c_str(), 0 );
    if ( ctx.mode == "devices" )
        setenv( "POCL_DEVICES", "cpu cpu", 1 );
    multiCL::enableDeviceSupport( true, true );
    if ( !multiCL::isOpenCLSupported() ) {
        printf( "no OpenCL device\n" );
        return 3;
    }
    multiCL::OpenCLDeviceManager::instance().initializeDevices();
    if ( ctx.shard % 2 == 1 && ctx.mode != "memory" )
        multiCL::MemoryManager::memory().reserve( 64u << 20 );
    // operations which the device does not have are executed in ordinary memory
    ImageTypeManager::instance().enableIntertypeConversion( true );
    if ( ctx.mode == "ops" )
        modeOps( ctx );
    else if ( ctx.mode == "threads" )
        modeThreads( ctx );
    else if ( ctx.mode == "faults" )
        modeFaults( ctx );
    else if ( ctx.mode == "memory" )
        modeMemory( ctx );
    else if ( ctx.mode == "api" )
        modeApi( ctx );
    else if ( ctx.mode == "devices" )
        modeDevices( ctx );
    return ctx.finish();
}
