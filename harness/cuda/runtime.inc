// The stand-in of the CUDA runtime. Included by the monitor only.
//
// What is modelled: several devices; streams with the ordering rules of the default stream; kernels, copies between device memory and fillings which
// are executed later than they are requested; blocks in random order (in parallel with VF_CUDA_PARALLEL); limits of devices; checks of launches, copies
// and pointers; memory which only kernels and copies may touch (with ASan); failures on request.
#include "cuda/cuda_runtime.h"
#include "cuda/cufft.h"
#include <atomic>
#include <complex>
#include <condition_variable>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#if defined( __SANITIZE_ADDRESS__ )
#include <sanitizer/asan_interface.h>
#define VF_HIDE( P, N ) __asan_poison_memory_region( P, N )
#define VF_SHOW( P, N ) __asan_unpoison_memory_region( P, N )
#else
#define VF_HIDE( P, N ) (void)0
#define VF_SHOW( P, N ) (void)0
#endif

__thread uint3 threadIdx;
__thread uint3 blockIdx;
__thread uint3 blockDim;
__thread uint3 gridDim;

struct vfCudaStream
{
    int device;
    bool blocking;
};
struct vfCudaEvent
{
    int device;
    bool done;
};

namespace vfcuda
{
    struct Block // of memory
    {
        size_t size;
        int device; // -1: memory of the host
    };
    struct Work
    {
        cudaStream_t stream; // nullptr: default stream
        bool blocking;
        uint64_t id;
        std::function<void()> work;
    };
    struct Device
    {
        cudaDeviceProp p;
        size_t used = 0;
        std::list<Work> pending;
    };
    struct Stats
    {
        uint64_t launches = 0, deferred = 0, blocks = 0, copies = 0, reordered = 0;
    };

    // never destroyed: the library closes devices at the very end of the program
    struct World
    {
        std::recursive_mutex lock;
        std::vector<Device> device;
        std::map<const uint8_t *, Block> memory;
        std::set<cudaStream_t> streams;
        std::map<int, std::pair<int, std::pair<int, int>>> plans; // device, sizes
        std::map<int, cudaStream_t> planStream;
        int nextPlan = 1;
        uint64_t nextId = 1;
        uint64_t random = 88172645463325252ull;
        bool eager = false; // nothing is deferred
        Stats stats;
        std::vector<std::string> wrong; // misuse of the runtime
    };
    World & world()
    {
        static World * w = new World;
        return *w;
    }
    std::atomic<int> countdown{ -1 };
    std::atomic<uint64_t> injected{ 0 };

    __thread int current = 0;
    __thread cudaError_t last = cudaSuccess;

    typedef std::lock_guard<std::recursive_mutex> Guard;

    uint64_t rnd()
    {
        uint64_t & x = world().random;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        return x * 2685821657736338717ull >> 16;
    }
    void complain( const std::string & s )
    {
        if ( world().wrong.size() < 20 )
            world().wrong.push_back( s );
    }
    std::vector<std::string> takeWrong()
    {
        Guard g( world().lock );
        std::vector<std::string> v;
        v.swap( world().wrong );
        return v;
    }
    cudaError_t fail( cudaError_t e )
    {
        last = e;
        return e;
    }
    bool inject()
    {
        if ( countdown.load() < 0 )
            return false;
        if ( countdown.fetch_sub( 1 ) != 0 )
            return false;
        ++injected;
        return true;
    }
    // the block a part of memory is in
    const std::pair<const uint8_t * const, Block> * find( const void * p, size_t size )
    {
        const uint8_t * q = static_cast<const uint8_t *>( p );
        auto it = world().memory.upper_bound( q );
        if ( it == world().memory.begin() )
            return nullptr;
        --it;
        if ( q < it->first || static_cast<size_t>( q - it->first ) + size > it->second.size )
            return nullptr;
        return &*it;
    }
    struct Show // memory of devices is visible during its lifetime
    {
        Show()
        {
            for ( auto & m : world().memory )
                if ( m.second.device >= 0 )
                    VF_SHOW( m.first, m.second.size );
        }
        ~Show()
        {
            for ( auto & m : world().memory )
                if ( m.second.device >= 0 )
                    VF_HIDE( m.first, m.second.size );
        }
    };
    void execute( Device & d, std::list<Work>::iterator it )
    {
        Work op = std::move( *it );
        if ( it != d.pending.begin() )
            ++world().stats.reordered;
        d.pending.erase( it );
        Show show;
        op.work();
    }
    bool ready( const Device & d, std::list<Work>::const_iterator it )
    {
        for ( auto e = d.pending.begin(); e != it; ++e )
            if ( e->stream == it->stream || ( e->stream == nullptr && it->blocking ) || ( it->stream == nullptr && e->blocking ) )
                return false;
        return true;
    }
    void step( Device & d )
    {
        std::vector<std::list<Work>::iterator> v;
        for ( auto it = d.pending.begin(); it != d.pending.end(); ++it )
            if ( ready( d, it ) )
                v.push_back( it );
        if ( !v.empty() )
            execute( d, v[rnd() % v.size()] );
    }
    void progress()
    {
        for ( Device & d : world().device ) {
            if ( world().eager )
                while ( !d.pending.empty() )
                    step( d );
            else
                while ( !d.pending.empty() && rnd() % 4 == 0 )
                    step( d );
        }
    }
    template <typename F>
    void until( Device & d, F done )
    {
        while ( !done() )
            step( d );
    }
    void untilStream( Device & d, cudaStream_t s )
    {
        until( d, [&]() {
            for ( const Work & o : d.pending )
                if ( o.stream == s )
                    return false;
            return true;
        } );
    }
    uint64_t enqueue( int device, cudaStream_t s, std::function<void()> work )
    {
        Device & d = world().device[device];
        const uint64_t id = world().nextId++;
        d.pending.push_back( { s, s == nullptr || s->blocking, id, std::move( work ) } );
        return id;
    }
    void untilDone( int device, uint64_t id )
    {
        Device & d = world().device[device];
        until( d, [&]() {
            for ( const Work & o : d.pending )
                if ( o.id == id )
                    return false;
            return true;
        } );
    }
    bool validStream( cudaStream_t s, int device )
    {
        return s == nullptr || ( world().streams.count( s ) != 0 && s->device == device );
    }

    // every device of the list exists from here on
    void setDevices( const std::vector<cudaDeviceProp> & list )
    {
        Guard g( world().lock );
        world().device.clear();
        for ( const cudaDeviceProp & p : list ) {
            world().device.emplace_back();
            world().device.back().p = p;
        }
    }
    cudaDeviceProp property( const char * name, size_t memory, int threads )
    {
        cudaDeviceProp p;
        memset( &p, 0, sizeof( p ) );
        snprintf( p.name, sizeof( p.name ), "%s", name );
        p.totalGlobalMem = memory;
        p.sharedMemPerBlock = 48 << 10;
        p.warpSize = 32;
        p.maxThreadsPerBlock = threads;
        p.maxThreadsDim[0] = p.maxThreadsDim[1] = threads > 512 ? 1024 : 512;
        p.maxThreadsDim[2] = 64;
        p.maxGridSize[0] = threads > 512 ? 2147483647 : 65535;
        p.maxGridSize[1] = 65535;
        p.maxGridSize[2] = threads > 512 ? 65535 : 1;
        p.major = 7;
        p.minor = 5;
        p.asyncEngineCount = 2;
        p.multiProcessorCount = 4;
        return p;
    }
    struct Live
    {
        size_t blocks, bytes, host, streams, plans;
        bool operator==( const Live & o ) const
        {
            return blocks == o.blocks && bytes == o.bytes && host == o.host && streams == o.streams && plans == o.plans;
        }
        std::string text() const
        {
            char b[160];
            snprintf( b, sizeof( b ), "%zu blocks of device memory with %zu bytes, %zu blocks of host memory, %zu streams, %zu plans", blocks, bytes, host, streams, plans );
            return b;
        }
    };
    Live live()
    {
        Guard g( world().lock );
        Live l{ 0, 0, 0, world().streams.size(), world().plans.size() };
        for ( const auto & m : world().memory )
            if ( m.second.device >= 0 ) {
                ++l.blocks;
                l.bytes += m.second.size;
            }
            else
                ++l.host;
        return l;
    }
    int deviceOf( const void * p )
    {
        Guard g( world().lock );
        const auto * m = find( p, 1 );
        return m ? m->second.device : -2;
    }
    void finish()
    {
        Guard g( world().lock );
        for ( Device & d : world().device )
            while ( !d.pending.empty() )
                step( d );
    }

#ifdef VF_CUDA_PARALLEL
    // the blocks of a kernel on several threads which live as long as the program
    class Workers
    {
    public:
        static Workers & instance()
        {
            static Workers * w = new Workers;
            return *w;
        }
        void run( const std::function<void( unsigned )> & f, unsigned n )
        {
            std::unique_lock<std::mutex> l( _m );
            _f = &f;
            _n = n;
            _next = 0;
            _left = n;
            _go.notify_all();
            _done.wait( l, [&]() { return _left == 0; } );
            _f = nullptr;
        }

    private:
        Workers()
        {
            for ( int k = 0; k < 3; ++k )
                std::thread( [this]() { loop(); } ).detach();
        }
        void loop()
        {
            std::unique_lock<std::mutex> l( _m );
            for ( ;; ) {
                _go.wait( l, [&]() { return _f && _next < _n; } );
                const unsigned k = _next++;
                const auto * f = _f;
                l.unlock();
                ( *f )( k );
                l.lock();
                if ( --_left == 0 )
                    _done.notify_all();
            }
        }
        std::mutex _m;
        std::condition_variable _go, _done;
        const std::function<void( unsigned )> * _f = nullptr;
        unsigned _n = 0, _next = 0, _left = 0;
    };
#endif

    void runBlock( const Config & c, const std::function<void()> & work, uint64_t k, uint64_t order )
    {
        gridDim = uint3{ c.grid.x, c.grid.y, c.grid.z };
        blockDim = uint3{ c.block.x, c.block.y, c.block.z };
        blockIdx = uint3{ static_cast<unsigned>( k % c.grid.x ), static_cast<unsigned>( k / c.grid.x % c.grid.y ), static_cast<unsigned>( k / c.grid.x / c.grid.y ) };
        const unsigned n = c.block.x * c.block.y * c.block.z;
        const bool back = ( order & 1 ) != 0;
        const unsigned shift = static_cast<unsigned>( ( order >> 1 ) % n );
        for ( unsigned q = 0; q < n; ++q ) {
            const unsigned t = ( ( back ? n - 1 - q : q ) + shift ) % n;
            threadIdx = uint3{ t % c.block.x, t / c.block.x % c.block.y, t / c.block.x / c.block.y };
            work();
        }
    }
    void runKernel( const Config & c, const std::function<void()> & work )
    {
        const uint64_t n = static_cast<uint64_t>( c.grid.x ) * c.grid.y * c.grid.z;
        world().stats.blocks += n;
        const uint64_t order = rnd();
#ifdef VF_CUDA_PARALLEL
        if ( n > 1 ) {
            const unsigned parts = static_cast<unsigned>( std::min<uint64_t>( n, 3 ) );
            Workers::instance().run(
                [&]( unsigned w ) {
                    for ( uint64_t k = w; k < n; k += parts )
                        runBlock( c, work, k, order >> 8 );
                },
                parts );
            return;
        }
#endif
        const uint64_t start = order % n;
        for ( uint64_t q = 0; q < n; ++q ) {
            const uint64_t k = ( ( order >> 40 & 1 ? n - 1 - q : q ) + start ) % n;
            runBlock( c, work, k, order >> 41 );
        }
    }

    void submit( const Config & c, std::function<void()> work, const std::vector<const void *> & pointers )
    {
        Guard g( world().lock );
        progress();
        if ( current >= static_cast<int>( world().device.size() ) ) {
            last = cudaErrorNoDevice;
            return;
        }
        const cudaDeviceProp & p = world().device[current].p;
        const dim3 & b = c.block;
        const dim3 & n = c.grid;
        auto tooBig = []( unsigned v, int limit ) { return v == 0 || v > static_cast<unsigned>( limit ); };
        if ( inject() ) {
            last = cudaErrorLaunchFailure;
            return;
        }
        if ( tooBig( b.x, p.maxThreadsDim[0] ) || tooBig( b.y, p.maxThreadsDim[1] ) || tooBig( b.z, p.maxThreadsDim[2] )
             || static_cast<uint64_t>( b.x ) * b.y * b.z > static_cast<uint64_t>( p.maxThreadsPerBlock ) || tooBig( n.x, p.maxGridSize[0] ) || tooBig( n.y, p.maxGridSize[1] )
             || tooBig( n.z, p.maxGridSize[2] ) || c.shared > p.sharedMemPerBlock ) {
            char t[200];
            snprintf( t, sizeof( t ), "kernel requested with %ux%ux%u blocks of %ux%ux%u threads", n.x, n.y, n.z, b.x, b.y, b.z );
            complain( t );
            last = cudaErrorInvalidConfiguration;
            return;
        }
        if ( !validStream( c.stream, current ) ) {
            complain( "kernel requested in a stream which does not exist on this device" );
            last = cudaErrorInvalidResourceHandle;
            return;
        }
        for ( const void * q : pointers ) {
            const auto * m = find( q, 1 );
            if ( !m || ( m->second.device >= 0 && m->second.device != current ) ) {
                complain( m ? "kernel got memory of another device" : "kernel got memory which is not on a device" );
                last = cudaErrorLaunchFailure;
                return;
            }
        }
        ++world().stats.launches;
        const Config k = c;
        const int device = current;
        enqueue( device, c.stream, [k, work]() { runKernel( k, work ); } );
        progress();
        if ( !world().device[device].pending.empty() )
            ++world().stats.deferred;
    }

    // size 0 is not reached
    cudaError_t copy( void * out, size_t pitchOut, const void * in, size_t pitchIn, size_t width, size_t height, cudaMemcpyKind kind, cudaStream_t stream, bool async )
    {
        Guard g( world().lock );
        progress();
        if ( inject() )
            return fail( cudaErrorUnknown );
        if ( current >= static_cast<int>( world().device.size() ) )
            return fail( cudaErrorNoDevice );
        if ( !validStream( stream, current ) )
            return fail( cudaErrorInvalidResourceHandle );
        if ( width == 0 || height == 0 )
            return cudaSuccess;
        if ( width > pitchOut || width > pitchIn )
            return fail( cudaErrorInvalidPitchValue );
        const size_t spanOut = pitchOut * ( height - 1 ) + width, spanIn = pitchIn * ( height - 1 ) + width;
        const auto * mo = find( out, 1 );
        const auto * mi = find( in, 1 );
        const bool devOut = mo && mo->second.device >= 0, devIn = mi && mi->second.device >= 0;
        if ( kind != cudaMemcpyDefault
             && ( devOut != ( kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice ) || devIn != ( kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice ) ) ) {
            complain( "copying between other kinds of memory than stated" );
            return fail( cudaErrorInvalidValue );
        }
        if ( ( devOut && !find( out, spanOut ) ) || ( devIn && !find( in, spanIn ) ) ) {
            complain( "copying beyond the end of device memory" );
            return fail( cudaErrorInvalidValue );
        }
        ++world().stats.copies;
        auto work = [=]() {
            for ( size_t y = 0; y < height; ++y )
                memmove( static_cast<uint8_t *>( out ) + y * pitchOut, static_cast<const uint8_t *>( in ) + y * pitchIn, width );
        };
        const bool hostSide = !devOut || !devIn;
        const uint64_t id = enqueue( current, stream, work );
        if ( hostSide && !( async && ( ( mo && !devOut ) || ( mi && !devIn ) ) ) ) // not asynchronous for ordinary memory
            untilDone( current, id );
        progress();
        return cudaSuccess;
    }
    cudaError_t set( void * data, size_t pitch, int value, size_t width, size_t height, cudaStream_t stream )
    {
        Guard g( world().lock );
        progress();
        if ( inject() )
            return fail( cudaErrorUnknown );
        if ( current >= static_cast<int>( world().device.size() ) )
            return fail( cudaErrorNoDevice );
        if ( !validStream( stream, current ) )
            return fail( cudaErrorInvalidResourceHandle );
        if ( width == 0 || height == 0 )
            return cudaSuccess;
        const auto * m = find( data, pitch * ( height - 1 ) + width );
        if ( !m || m->second.device < 0 || width > pitch ) {
            complain( "filling what is not device memory" );
            return fail( cudaErrorInvalidValue );
        }
        enqueue( current, stream, [=]() {
            for ( size_t y = 0; y < height; ++y )
                memset( static_cast<uint8_t *>( data ) + y * pitch, value, width );
        } );
        progress();
        return cudaSuccess;
    }
    cudaError_t allocate( void ** data, size_t size, int device )
    {
        Guard g( world().lock );
        progress();
        if ( inject() )
            return fail( cudaErrorMemoryAllocation );
        if ( device >= static_cast<int>( world().device.size() ) )
            return fail( cudaErrorNoDevice );
        if ( !data )
            return fail( cudaErrorInvalidValue );
        if ( size == 0 ) {
            *data = nullptr;
            return cudaSuccess;
        }
        if ( device >= 0 ) {
            Device & d = world().device[device];
            if ( size > d.p.totalGlobalMem - d.used )
                return fail( cudaErrorMemoryAllocation );
            d.used += size;
        }
        else if ( size > ( static_cast<size_t>( 1 ) << 28 ) )
            return fail( cudaErrorMemoryAllocation );
        void * p = nullptr;
        if ( posix_memalign( &p, 256, size ) != 0 )
            return fail( cudaErrorMemoryAllocation );
        for ( size_t k = 0; k < size; k += 8 ) { // contents of new memory are not known
            const uint64_t v = rnd();
            memcpy( static_cast<uint8_t *>( p ) + k, &v, std::min<size_t>( 8, size - k ) );
        }
        world().memory[static_cast<uint8_t *>( p )] = { size, device };
        if ( device >= 0 )
            VF_HIDE( p, size );
        *data = p;
        return cudaSuccess;
    }
    cudaError_t release( void * data, bool host )
    {
        Guard g( world().lock );
        if ( !data )
            return cudaSuccess;
        auto it = world().memory.find( static_cast<uint8_t *>( data ) );
        if ( it == world().memory.end() || ( it->second.device < 0 ) != host ) {
            complain( "releasing memory which was not allocated" );
            return fail( cudaErrorInvalidValue );
        }
        for ( Device & d : world().device ) // waits for everything
            while ( !d.pending.empty() )
                step( d );
        if ( it->second.device >= 0 ) {
            world().device[it->second.device].used -= it->second.size;
            VF_SHOW( data, it->second.size );
        }
        world().memory.erase( it );
        ::free( data );
        return cudaSuccess;
    }
}

using namespace vfcuda;

cudaError_t cudaGetLastError()
{
    const cudaError_t e = last;
    last = cudaSuccess;
    return e;
}
cudaError_t cudaPeekAtLastError()
{
    return last;
}
const char * cudaGetErrorString( cudaError_t )
{
    return "CUDA error";
}
cudaError_t cudaGetDeviceCount( int * count )
{
    Guard g( world().lock );
    if ( inject() )
        return fail( cudaErrorUnknown );
    *count = static_cast<int>( world().device.size() );
    return *count ? cudaSuccess : fail( cudaErrorNoDevice );
}
cudaError_t cudaGetDeviceProperties( cudaDeviceProp * property, int device )
{
    Guard g( world().lock );
    if ( inject() )
        return fail( cudaErrorUnknown );
    if ( device < 0 || device >= static_cast<int>( world().device.size() ) )
        return fail( cudaErrorInvalidDevice );
    *property = world().device[device].p;
    return cudaSuccess;
}
cudaError_t cudaSetDevice( int device )
{
    Guard g( world().lock );
    if ( device < 0 || device >= static_cast<int>( world().device.size() ) )
        return fail( cudaErrorInvalidDevice );
    current = device;
    return cudaSuccess;
}
cudaError_t cudaGetDevice( int * device )
{
    *device = current;
    return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize()
{
    Guard g( world().lock );
    if ( inject() )
        return fail( cudaErrorUnknown );
    if ( current >= static_cast<int>( world().device.size() ) )
        return fail( cudaErrorNoDevice );
    Device & d = world().device[current];
    while ( !d.pending.empty() )
        step( d );
    return cudaSuccess;
}
cudaError_t cudaMemGetInfo( size_t * free, size_t * total )
{
    Guard g( world().lock );
    if ( inject() )
        return fail( cudaErrorUnknown );
    if ( current >= static_cast<int>( world().device.size() ) )
        return fail( cudaErrorNoDevice );
    *total = world().device[current].p.totalGlobalMem;
    *free = *total - world().device[current].used;
    return cudaSuccess;
}
cudaError_t vfCudaMalloc( void ** data, size_t size )
{
    return allocate( data, size, current );
}
cudaError_t vfCudaMallocHost( void ** data, size_t size )
{
    return allocate( data, size, -1 );
}
cudaError_t cudaFree( void * data )
{
    return release( data, false );
}
cudaError_t cudaFreeHost( void * data )
{
    return release( data, true );
}
cudaError_t cudaMemcpy( void * out, const void * in, size_t size, cudaMemcpyKind kind )
{
    return copy( out, size, in, size, size, 1, kind, nullptr, false );
}
cudaError_t cudaMemcpyAsync( void * out, const void * in, size_t size, cudaMemcpyKind kind, cudaStream_t stream )
{
    return copy( out, size, in, size, size, 1, kind, stream, true );
}
cudaError_t cudaMemcpy2D( void * out, size_t pitchOut, const void * in, size_t pitchIn, size_t width, size_t height, cudaMemcpyKind kind )
{
    return copy( out, pitchOut, in, pitchIn, width, height, kind, nullptr, false );
}
cudaError_t cudaMemcpy2DAsync( void * out, size_t pitchOut, const void * in, size_t pitchIn, size_t width, size_t height, cudaMemcpyKind kind, cudaStream_t stream )
{
    return copy( out, pitchOut, in, pitchIn, width, height, kind, stream, true );
}
cudaError_t cudaMemset( void * data, int value, size_t size )
{
    return vfcuda::set( data, size, value, size, 1, nullptr );
}
cudaError_t cudaMemsetAsync( void * data, int value, size_t size, cudaStream_t stream )
{
    return vfcuda::set( data, size, value, size, 1, stream );
}
cudaError_t cudaMemset2D( void * data, size_t pitch, int value, size_t width, size_t height )
{
    return vfcuda::set( data, pitch, value, width, height, nullptr );
}
cudaError_t cudaMemset2DAsync( void * data, size_t pitch, int value, size_t width, size_t height, cudaStream_t stream )
{
    return vfcuda::set( data, pitch, value, width, height, stream );
}
cudaError_t cudaStreamCreateWithFlags( cudaStream_t * stream, unsigned int flags )
{
    Guard g( world().lock );
    if ( inject() )
        return fail( cudaErrorUnknown );
    if ( current >= static_cast<int>( world().device.size() ) )
        return fail( cudaErrorNoDevice );
    *stream = new vfCudaStream{ current, flags != cudaStreamNonBlocking };
    world().streams.insert( *stream );
    return cudaSuccess;
}
cudaError_t cudaStreamCreate( cudaStream_t * stream )
{
    return cudaStreamCreateWithFlags( stream, cudaStreamDefault );
}
cudaError_t cudaStreamDestroy( cudaStream_t stream )
{
    Guard g( world().lock );
    if ( !stream || !world().streams.count( stream ) ) {
        complain( "a stream which does not exist was destroyed" );
        return fail( cudaErrorInvalidResourceHandle );
    }
    untilStream( world().device[stream->device], stream );
    world().streams.erase( stream );
    delete stream;
    return cudaSuccess;
}
cudaError_t cudaStreamSynchronize( cudaStream_t stream )
{
    Guard g( world().lock );
    if ( inject() )
        return fail( cudaErrorUnknown );
    if ( stream && !world().streams.count( stream ) )
        return fail( cudaErrorInvalidResourceHandle );
    untilStream( world().device[stream ? stream->device : current], stream );
    return cudaSuccess;
}
cudaError_t cudaStreamQuery( cudaStream_t stream )
{
    Guard g( world().lock );
    progress();
    if ( stream && !world().streams.count( stream ) )
        return fail( cudaErrorInvalidResourceHandle );
    for ( const Work & o : world().device[stream ? stream->device : current].pending )
        if ( o.stream == stream )
            return fail( cudaErrorNotReady );
    return cudaSuccess;
}
cudaError_t cudaStreamAddCallback( cudaStream_t stream, cudaStreamCallback_t callback, void * data, unsigned int )
{
    Guard g( world().lock );
    if ( inject() )
        return fail( cudaErrorUnknown );
    if ( !validStream( stream, stream ? stream->device : current ) || !callback )
        return fail( cudaErrorInvalidResourceHandle );
    enqueue( stream ? stream->device : current, stream, [=]() { callback( stream, cudaSuccess, data ); } );
    progress();
    return cudaSuccess;
}
cudaError_t cudaEventCreate( cudaEvent_t * event )
{
    *event = new vfCudaEvent{ current, true };
    return cudaSuccess;
}
cudaError_t cudaEventDestroy( cudaEvent_t event )
{
    finish();
    delete event;
    return cudaSuccess;
}
cudaError_t cudaEventRecord( cudaEvent_t event, cudaStream_t stream )
{
    Guard g( world().lock );
    event->done = false;
    event->device = stream ? stream->device : current;
    enqueue( event->device, stream, [event]() { event->done = true; } );
    return cudaSuccess;
}
cudaError_t cudaEventSynchronize( cudaEvent_t event )
{
    Guard g( world().lock );
    until( world().device[event->device], [&]() { return event->done; } );
    return cudaSuccess;
}
cudaError_t cudaEventElapsedTime( float * ms, cudaEvent_t, cudaEvent_t )
{
    *ms = 1;
    return cudaSuccess;
}

cufftResult cufftPlan2d( cufftHandle * plan, int nx, int ny, cufftType type )
{
    Guard g( world().lock );
    if ( inject() )
        return CUFFT_ALLOC_FAILED;
    if ( nx < 1 || ny < 1 )
        return CUFFT_INVALID_SIZE;
    if ( type != CUFFT_C2C )
        return CUFFT_INVALID_VALUE;
    *plan = world().nextPlan++;
    world().plans[*plan] = { current, { nx, ny } };
    return CUFFT_SUCCESS;
}
cufftResult cufftDestroy( cufftHandle plan )
{
    Guard g( world().lock );
    world().planStream.erase( plan );
    return world().plans.erase( plan ) ? CUFFT_SUCCESS : CUFFT_INVALID_PLAN;
}
cufftResult cufftSetStream( cufftHandle plan, cudaStream_t stream )
{
    Guard g( world().lock );
    if ( !world().plans.count( plan ) )
        return CUFFT_INVALID_PLAN;
    world().planStream[plan] = stream;
    return CUFFT_SUCCESS;
}
namespace vfcuda
{
    void transform( std::vector<std::complex<double>> & v, size_t start, size_t stride, size_t n, int direction )
    {
        std::vector<std::complex<double>> r( n ), w( n );
        for ( size_t k = 0; k < n; ++k )
            w[k] = std::polar( 1.0, direction * 2 * M_PI * static_cast<double>( k ) / static_cast<double>( n ) );
        for ( size_t k = 0; k < n; ++k )
            for ( size_t i = 0; i < n; ++i )
                r[k] += v[start + i * stride] * w[k * i % n];
        for ( size_t k = 0; k < n; ++k )
            v[start + k * stride] = r[k];
    }
}
cufftResult cufftExecC2C( cufftHandle plan, cufftComplex * in, cufftComplex * out, int direction )
{
    Guard g( world().lock );
    progress();
    if ( inject() )
        return CUFFT_EXEC_FAILED;
    auto it = world().plans.find( plan );
    if ( it == world().plans.end() || it->second.first != current )
        return CUFFT_INVALID_PLAN;
    if ( direction != CUFFT_FORWARD && direction != CUFFT_INVERSE )
        return CUFFT_INVALID_VALUE;
    const size_t rows = static_cast<size_t>( it->second.second.first ), columns = static_cast<size_t>( it->second.second.second );
    for ( const void * p : { static_cast<const void *>( in ), static_cast<const void *>( out ) } ) {
        const auto * m = find( p, rows * columns * sizeof( cufftComplex ) );
        if ( !m || m->second.device != current ) {
            complain( "transform of what is not memory of this device" );
            return CUFFT_INVALID_VALUE;
        }
    }
    auto work = [=]() {
        std::vector<std::complex<double>> v( rows * columns );
        for ( size_t k = 0; k < v.size(); ++k )
            v[k] = std::complex<double>( in[k].x, in[k].y );
        for ( size_t y = 0; y < rows; ++y )
            transform( v, y * columns, 1, columns, direction );
        for ( size_t x = 0; x < columns; ++x )
            transform( v, x, columns, rows, direction );
        for ( size_t k = 0; k < v.size(); ++k ) {
            out[k].x = static_cast<float>( v[k].real() );
            out[k].y = static_cast<float>( v[k].imag() );
        }
    };
    enqueue( current, world().planStream.count( plan ) ? world().planStream[plan] : nullptr, work );
    progress();
    return CUFFT_SUCCESS;
}
