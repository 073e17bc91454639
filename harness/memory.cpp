// Monitors of the memory manager and of images as values. Modes: M01, M02, M03.
#include "common.h"
#include "image_buffer.h"
#include "memory/cpu_memory.h"
#include "penguinv_exception.h"
#include <memory>
#include <new>
#include <thread>

using vf::Rng;

// Heap accounting: every request of the process is seen here, so it is known which blocks came from the heap, and any of them
// can be made to fail.
namespace heap
{
    thread_local uint64_t calls = 0; // requests of this thread
    thread_local void * last = nullptr; // the last block served
    thread_local size_t lastSize = 0;
    thread_local int64_t failAfter = -1; // the request to fail: 0 is the next one
    thread_local bool arraysOnly = false; // only requests by new[] fail
    thread_local uint64_t failed = 0;
#ifdef __SANITIZE_ADDRESS__
    const size_t tooBig = size_t( 2 ) << 30;
#else
    const size_t tooBig = size_t( 1 ) << 30;
#endif
    inline void * get( size_t n, bool array )
    {
        ++calls;
        if ( failAfter >= 0 && ( array || !arraysOnly ) && failAfter-- == 0 ) {
            ++failed;
            throw std::bad_alloc();
        }
        if ( n > tooBig )
            throw std::bad_alloc();
        void * p = malloc( n ? n : 1 );
        if ( !p )
            throw std::bad_alloc();
        last = p;
        lastSize = n;
        return p;
    }
    struct Fail
    {
        explicit Fail( int64_t n, bool arrays = true )
        {
            arraysOnly = arrays;
            failAfter = n;
        }
        ~Fail()
        {
            failAfter = -1;
        }
    };
}
void * operator new( size_t n )
{
    return heap::get( n, false );
}
void * operator new[]( size_t n )
{
    return heap::get( n, true );
}
void operator delete( void * p ) noexcept
{
    free( p );
}
void operator delete[]( void * p ) noexcept
{
    free( p );
}
void operator delete( void * p, size_t ) noexcept
{
    free( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    free( p );
}

namespace
{
    using cpu_Memory::MemoryAllocator;

    struct Odd
    {
        uint8_t b[3];
    };
    struct Big
    {
        double d[5];
    };
    struct alignas( 16 ) Wide
    {
        uint64_t d[2];
    };

    // element types of one allocation
    struct Type
    {
        const char * name;
        size_t size, align;
        void * ( *get )( MemoryAllocator &, size_t );
        void ( *put )( MemoryAllocator &, void * );
    };
    template <typename T>
    Type type( const char * name )
    {
        return { name, sizeof( T ), alignof( T ), []( MemoryAllocator & a, size_t n ) -> void * { return a.allocate<T>( n ); },
                 []( MemoryAllocator & a, void * p ) { a.free( static_cast<T *>( p ) ); } };
    }
    const std::vector<Type> & types()
    {
        static const std::vector<Type> t = { type<uint8_t>( "uint8_t" ), type<uint8_t>( "uint8_t" ), type<uint16_t>( "uint16_t" ), type<uint32_t>( "uint32_t" ),
                                             type<double>( "double" ),   type<Odd>( "3 bytes" ),      type<Big>( "40 bytes" ),    type<Wide>( "16 bytes" ) };
        return t;
    }

    struct Block
    {
        uint8_t * p = nullptr;
        size_t bytes = 0;
        const Type * t = nullptr;
        uint64_t pattern = 0;
        bool pool = false;
    };

    void paint( const Block & b )
    {
        Rng r( b.pattern );
        size_t i = 0;
        for ( ; i + 8 <= b.bytes; i += 8 ) {
            const uint64_t v = r.next();
            memcpy( b.p + i, &v, 8 );
        }
        const uint64_t v = r.next();
        memcpy( b.p + i, &v, b.bytes - i );
    }
    bool intact( const Block & b )
    {
        Rng r( b.pattern );
        size_t i = 0;
        for ( ; i + 8 <= b.bytes; i += 8 ) {
            const uint64_t v = r.next();
            if ( memcmp( b.p + i, &v, 8 ) )
                return false;
        }
        const uint64_t v = r.next();
        return memcmp( b.p + i, &v, b.bytes - i ) == 0;
    }

    // all live blocks of one allocator
    struct Shadow
    {
        std::mutex m;
        std::map<uintptr_t, size_t> live;
        std::string add( const Block & b )
        {
            std::lock_guard<std::mutex> l( m );
            const uintptr_t a = reinterpret_cast<uintptr_t>( b.p ), e = a + ( b.bytes ? b.bytes : 1 );
            auto n = live.lower_bound( a );
            if ( n != live.end() && n->first < e )
                return vf::fmt( "a block of %zu bytes overlaps the live block of %zu bytes which starts %zu bytes later", b.bytes, n->second, static_cast<size_t>( n->first - a ) );
            if ( n != live.begin() ) {
                auto p = n;
                --p;
                if ( p->first + ( p->second ? p->second : 1 ) > a )
                    return vf::fmt( "a block of %zu bytes starts inside a live block of %zu bytes", b.bytes, p->second );
            }
            live[a] = b.bytes;
            return "";
        }
        void remove( const Block & b )
        {
            std::lock_guard<std::mutex> l( m );
            live.erase( reinterpret_cast<uintptr_t>( b.p ) );
        }
    };

    size_t poolSize( Rng & r )
    {
        switch ( r.u( 0, 6 ) ) {
        case 0: return r.u( 1, 16 );
        case 1: return r.u( 17, 700 );
        case 2: return size_t( 1 ) << r.u( 4, 17 );
        case 3: return ( size_t( 1 ) << r.u( 5, 17 ) ) - 1;
        case 4: return ( size_t( 1 ) << r.u( 5, 16 ) ) + r.u( 1, 3 );
        default: return r.u( 1000, 120000 );
        }
    }
    size_t blockSize( Rng & r, size_t pool )
    {
        const uint32_t top = static_cast<uint32_t>( pool < 4096 ? 4096 : pool );
        switch ( r.u( 0, 9 ) ) {
        case 0: return r.u( 0, 2 );
        case 1:
        case 2: return r.u( 1, 64 );
        case 3: return size_t( 1 ) << r.u( 0, 12 );
        case 4: return ( size_t( 1 ) << r.u( 1, 12 ) ) + r.u( 0, 2 ) - 1;
        case 5: return r.u( 1, 1 + static_cast<uint32_t>( pool / 2 ) );
        case 6: return pool + r.u( 0, 2 ) - ( pool > 0 ? 1 : 0 );
        case 7: return r.u( 1, 1 + static_cast<uint32_t>( pool / 16 ) );
        case 8: return r.u( 1, top );
        default: return r.u( 1, 1 + static_cast<uint32_t>( pool / 64 ) );
        }
    }

    struct Actor
    {
        MemoryAllocator & a;
        Shadow & shadow;
        Rng r;
        size_t pool;
        std::vector<Block> mine;
        uint64_t fromPool = 0, fromHeap = 0;
        std::string error;

        Actor( MemoryAllocator & a_, Shadow & s, uint64_t seed, size_t pool_ )
            : a( a_ )
            , shadow( s )
            , r( seed )
            , pool( pool_ )
        {}
        bool get( const Type & t, size_t count )
        {
            Block b;
            b.t = &t;
            b.bytes = count * t.size;
            const uint64_t before = heap::calls;
            heap::last = nullptr;
            void * p = t.get( a, count );
            b.pool = !( heap::calls != before && heap::last == p );
            b.p = static_cast<uint8_t *>( p );
            if ( !p ) {
                error = vf::fmt( "no block for %zu x %s", count, t.name );
                return false;
            }
            ( b.pool ? fromPool : fromHeap ) += 1;
            if ( count && reinterpret_cast<uintptr_t>( p ) % t.align )
                error = vf::fmt( "a block for %zu x %s is not aligned to %zu bytes", count, t.name, t.align );
            const std::string e = shadow.add( b );
            if ( !e.empty() ) {
                error = e + vf::fmt( " (%zu x %s, pool of %zu bytes)", count, t.name, pool );
                return false; // nothing may be written there
            }
            b.pattern = r.next();
            paint( b );
            mine.push_back( b );
            return error.empty();
        }
        void put( size_t k )
        {
            Block b = mine[k];
            if ( !intact( b ) )
                error = vf::fmt( "the contents of a live block of %zu bytes (%s, pool of %zu bytes) changed", b.bytes, b.t->name, pool );
            mine[k] = mine.back();
            mine.pop_back();
            shadow.remove( b );
            b.t->put( a, b.p );
        }
        void checkAll()
        {
            for ( const Block & b : mine )
                if ( !intact( b ) )
                    error = vf::fmt( "the contents of a live block of %zu bytes (%s, pool of %zu bytes) changed", b.bytes, b.t->name, pool );
        }
        // one phase of a history
        void phase( uint32_t steps )
        {
            const uint32_t grow = r.pick( { 50u, 70u, 30u, 95u } );
            const uint32_t order = r.u( 0, 3 );
            for ( uint32_t k = 0; k < steps && error.empty(); ++k ) {
                if ( mine.empty() || r.chance( grow ) ) {
                    const Type & t = r.pick( types() );
                    get( t, blockSize( r, pool ) / ( r.chance( 50 ) ? t.size : 1 ) );
                }
                else
                    put( order == 0 ? mine.size() - 1 : order == 1 ? 0 : r.next() % mine.size() );
            }
        }
        void putAll()
        {
            const uint32_t order = r.u( 0, 2 );
            while ( !mine.empty() && error.empty() )
                put( order == 0 ? mine.size() - 1 : order == 1 ? 0 : r.next() % mine.size() );
        }
        void abandon()
        {
            mine.clear();
        }
    };

    // memory a failing case may leave behind: the process ends anyway
    void leak( std::unique_ptr<MemoryAllocator> & a )
    {
        a.release();
    }

    void modeBlocks( vf::Ctx & ctx )
    {
        ctx.loop( "M01", [&]( uint64_t idx, Rng & rng ) {
            const bool shared = rng.chance( 40 ); // the instance used by images
            const size_t size = rng.chance( 6 ) ? 0 : poolSize( rng );
            const uint32_t threads = rng.pick( { 1u, 1u, 1u, 2u, 3u, 4u } );
            const uint32_t steps = rng.u( 10, threads == 1 ? 400 : 200 );
            ctx.begin( idx, vf::fmt( "%s allocator, pool of %zu bytes, %u threads, %u steps", shared ? "common" : "own", size, threads, steps ) );
            std::unique_ptr<MemoryAllocator> own;
            if ( !shared )
                own.reset( new MemoryAllocator );
            MemoryAllocator & a = shared ? MemoryAllocator::instance() : *own;
            if ( size )
                a.reserve( size );
            Shadow shadow;
            std::vector<std::unique_ptr<Actor>> actors;
            for ( uint32_t k = 0; k < threads; ++k )
                actors.emplace_back( new Actor( a, shadow, rng.next(), size ) );
            auto work = [&]( Actor & w ) {
                for ( uint32_t p = 0; p < 3 && w.error.empty(); ++p ) {
                    w.phase( steps / 3 + 1 );
                    w.checkAll();
                }
                w.putAll();
            };
            if ( threads == 1 )
                work( *actors[0] );
            else {
                std::vector<std::thread> ts;
                for ( auto & w : actors )
                    ts.emplace_back( [&]() { work( *w ); } );
                for ( auto & t : ts )
                    t.join();
            }
            bool failed = false;
            for ( auto & w : actors ) {
                ctx.evaluations += w->fromHeap + w->fromPool;
                ctx.hit( "blocks from the pool", w->fromPool );
                ctx.hit( "blocks from the heap", w->fromHeap );
                if ( !w->error.empty() ) {
                    failed = true;
                    ctx.fail( "M01/" + w->error.substr( 0, 0 ) + ( threads > 1 ? "threads" : "single" ), w->error );
                }
            }
            if ( failed ) {
                leak( own );
                for ( auto & w : actors )
                    w->abandon();
                if ( shared )
                    exit( ctx.finish() );
            }
            ctx.distinct.insert( vf::mix( size, vf::mix( steps, idx ) ) );
            ctx.sample( vf::fmt( "pool of %zu bytes, %u threads: %llu blocks from the pool, %llu from the heap", size, threads,
                                 static_cast<unsigned long long>( actors[0]->fromPool ), static_cast<unsigned long long>( actors[0]->fromHeap ) ) );
        } );
    }

    template <typename F>
    bool throwsLogic( F f )
    {
        try {
            f();
        }
        catch ( const std::logic_error & ) {
            return true;
        }
        catch ( const penguinVException & ) {
            return true;
        }
        return false;
    }

    // the same requests to a used and to a fresh allocator
    std::string compareWithFresh( MemoryAllocator & used, size_t size, Rng & rng, uint64_t & compared )
    {
        MemoryAllocator fresh;
        fresh.reserve( size );
        Shadow su, sf;
        const uint64_t seed = rng.next();
        Actor u( used, su, seed, size ), f( fresh, sf, seed, size );
        std::vector<uint8_t> hu, hf;
        const uint32_t kind = rng.u( 0, 2 );
        std::vector<std::pair<const Type *, size_t>> requests;
        size_t claimed = 0; // so many requests have to be served from the pool
        if ( kind == 0 ) { // the whole pool in pieces of one size
            const size_t piece = size_t( 1 ) << ( rng.chance( 30 ) ? rng.u( 0, 40 ) : rng.u( 0, 14 ) );
            const bool smaller = rng.chance( 40 ); // sizes which take a piece each, too
            for ( size_t k = 0; k < size / piece + 2 && k < 600; ++k )
                requests.emplace_back( &types()[0], smaller && piece < size ? piece - rng.next() % ( ( piece + 1 ) / 2 ) : std::min( piece, size * 2 ) );
            claimed = piece < size ? size / piece : 0;
        }
        else
            for ( uint32_t k = rng.u( 1, 120 ); k > 0; --k ) {
                const Type & t = rng.pick( types() );
                requests.emplace_back( &t, blockSize( rng, size ) / t.size );
            }
        if ( kind == 0 && rng.chance( 50 ) ) { // the biggest first
            requests.insert( requests.begin(), { &types()[0], size / 2 + 1 } );
            claimed = 0;
        }
        std::string error;
        for ( size_t k = 0; k < requests.size(); ++k ) {
            if ( !u.get( *requests[k].first, requests[k].second ) ) {
                error = u.error;
                u.mine.clear();
                break;
            }
            if ( !f.get( *requests[k].first, requests[k].second ) ) {
                error = "fresh: " + f.error;
                f.mine.clear();
                break;
            }
            ++compared;
            if ( k < claimed && !f.mine.back().pool ) {
                error = vf::fmt( "request %zu of %zu bytes is served from the heap, the pool of %zu bytes has room for %zu of them", k, f.mine.back().bytes, size, claimed );
                break;
            }
            if ( u.mine.back().pool != f.mine.back().pool ) {
                error = vf::fmt( "request %zu of %zu bytes is served from the %s, by a fresh pool of %zu bytes from the %s", k, u.mine.back().bytes,
                                 u.mine.back().pool ? "pool" : "heap", size, f.mine.back().pool ? "pool" : "heap" );
                break;
            }
        }
        u.putAll();
        f.putAll();
        return error;
    }

    void modeReclaim( vf::Ctx & ctx )
    {
        ctx.loop( "M02", [&]( uint64_t idx, Rng & rng ) {
            const bool shared = rng.chance( 30 );
            size_t size = poolSize( rng );
            ctx.begin( idx, vf::fmt( "%s allocator, pool of %zu bytes", shared ? "common" : "own", size ) );
            std::unique_ptr<MemoryAllocator> own;
            if ( !shared )
                own.reset( new MemoryAllocator );
            MemoryAllocator & a = shared ? MemoryAllocator::instance() : *own;
            std::string error;
            auto bad = [&]( const std::string & e ) {
                if ( error.empty() && !e.empty() )
                    error = e;
            };
            if ( rng.chance( 30 ) )
                a.reserve( size + 1 ); // a pool which is replaced
            if ( shared )
                a.reserve( size + 2 );
            a.reserve( size );
            bool whole = true;
            auto reserveNew = [&]() {
                const size_t old = size;
                while ( size == old )
                    size = poolSize( rng );
                a.reserve( size );
                whole = true;
            };
            const uint32_t rounds = rng.u( 1, 4 );
            uint64_t compared = 0, refusals = 0, injected = 0;
            for ( uint32_t round = 0; round < rounds && error.empty(); ++round ) {
                Shadow shadow;
                const uint32_t threads = rng.pick( { 1u, 1u, 1u, 2u, 4u } );
                std::vector<std::unique_ptr<Actor>> ws;
                for ( uint32_t k = 0; k < threads; ++k )
                    ws.emplace_back( new Actor( a, shadow, rng.next(), size ) );
                std::vector<std::thread> ts;
                const uint32_t steps = rng.u( 5, 150 );
                for ( uint32_t k = 1; k < threads; ++k )
                    ts.emplace_back( [&, k]() {
                        ws[k]->phase( steps );
                        ws[k]->checkAll();
                    } );
                ws[0]->phase( steps );
                for ( auto & t : ts )
                    t.join();
                ts.clear();
                for ( auto & w : ws )
                    bad( w->error );
                size_t poolBlocks = 0, blocks = 0;
                for ( auto & w : ws )
                    for ( auto & b : w->mine ) {
                        poolBlocks += b.pool;
                        ++blocks;
                    }
                // refused operations while blocks are in use, and other threads working at the same time
                if ( error.empty() && rng.chance( 70 ) ) {
                    std::unique_ptr<Actor> other;
                    std::thread t;
                    if ( rng.chance( 40 ) && poolBlocks ) {
                        other.reset( new Actor( a, shadow, rng.next(), size ) );
                        t = std::thread( [&]() { other->phase( 100 ); } );
                    }
                    if ( poolBlocks ) {
                        size_t n = poolSize( rng );
                        if ( n == size )
                            ++n;
                        if ( !throwsLogic( [&]() { a.reserve( n ); } ) )
                            bad( vf::fmt( "reserving %zu bytes was accepted while %zu blocks of the pool of %zu bytes are in use", n, poolBlocks, size ) );
                        ++refusals;
                    }
                    if ( !throwsLogic( [&]() { a.reserve( 0 ); } ) )
                        bad( "reserving zero bytes was accepted" );
                    a.reserve( size ); // the same size: nothing to do
                    if ( t.joinable() )
                        t.join();
                    if ( other ) {
                        bad( other->error );
                        if ( error.empty() )
                            other->putAll();
                        bad( other->error );
                    }
                    ++refusals;
                    for ( auto & w : ws ) {
                        w->checkAll();
                        bad( w->error );
                    }
                }
                // requests which fail for lack of memory
                if ( error.empty() && rng.chance( 80 ) ) {
                    Actor & w = *ws[0];
                    for ( uint32_t k = rng.u( 1, 12 ); k > 0 && error.empty(); --k ) {
                        const Type & t = rng.pick( types() );
                        const uint64_t before = heap::failed;
                        const uint32_t how = rng.u( 0, 9 );
                        const size_t n = how == 0   ? SIZE_MAX / t.size - rng.u( 0, 70 )
                                         : how == 1 ? SIZE_MAX - rng.u( 0, 70 )
                                         : how == 2 ? ( size_t( 1 ) << 63 ) / t.size + rng.u( 0, 70 )
                                         : how == 3 ? ( t.size > 1 ? SIZE_MAX / t.size + rng.u( 1, 70 ) : SIZE_MAX )
                                                    : blockSize( rng, size ) / t.size;
                        void * p = nullptr;
                        bool threw = false;
                        try {
                            const bool arrays = rng.chance( 60 );
                            // a pool which failed to note its own state stays usable but may be fragmented
                            if ( how >= 4 && !arrays )
                                whole = false;
                            heap::Fail inject( how < 4 ? -1 : static_cast<int64_t>( rng.u( 0, 6 ) ), arrays );
                            p = t.get( a, n );
                        }
                        catch ( const std::bad_alloc & ) {
                            threw = true;
                        }
                        if ( !threw && how < 4 )
                            bad( vf::fmt( "a request for %zu x %s was served", n, t.name ) );
                        if ( threw )
                            ++refusals;
                        injected += heap::failed - before;
                        if ( !threw && error.empty() ) {
                            Block b;
                            b.t = &t;
                            b.p = static_cast<uint8_t *>( p );
                            b.bytes = n * t.size;
                            bad( shadow.add( b ) );
                            if ( !error.empty() )
                                break;
                            b.pattern = rng.next();
                            paint( b );
                            w.mine.push_back( b );
                        }
                        // everybody can go on: a request of another thread ends, too
                        if ( rng.chance( 30 ) ) {
                            Actor o( a, shadow, rng.next(), size );
                            std::thread( [&]() {
                                o.phase( 10 );
                                o.putAll();
                            } ).join();
                            bad( o.error );
                        }
                    }
                    w.checkAll();
                    bad( w.error );
                }
                for ( auto & w : ws ) {
                    if ( error.empty() )
                        w->putAll();
                    bad( w->error );
                }
                if ( error.empty() && whole )
                    bad( compareWithFresh( a, size, rng, compared ) );
                // reservations which fail
                if ( error.empty() && rng.chance( 30 ) ) {
                    const uint32_t how = rng.u( 0, 3 );
                    const size_t n = how == 0 ? SIZE_MAX - rng.u( 0, 40 ) : how == 1 ? ( size_t( 1 ) << 63 ) + rng.u( 0, 3 ) : how == 2 ? size_t( 1 ) << 50 : size + 100;
                    bool threw = false;
                    try {
                        heap::Fail inject( how == 3 ? 0 : -1, true );
                        a.reserve( n );
                    }
                    catch ( const std::exception & ) {
                        threw = true;
                    }
                    ++refusals;
                    if ( !threw )
                        bad( vf::fmt( "reserving %zu bytes was accepted", n ) );
                    else {
                        // without or with the former pool, requests are served
                        Actor o( a, shadow, rng.next(), size );
                        std::thread( [&]() {
                            o.phase( 20 );
                            o.putAll();
                        } ).join();
                        bad( o.error );
                        if ( error.empty() ) {
                            reserveNew();
                            bad( compareWithFresh( a, size, rng, compared ) );
                        }
                    }
                }
                if ( !error.empty() )
                    for ( auto & w : ws )
                        w->abandon();
                if ( error.empty() && rng.chance( 30 ) ) {
                    reserveNew();
                    bad( compareWithFresh( a, size, rng, compared ) );
                }
            }
            if ( !error.empty() ) {
                ctx.fail( std::string( "M02/" ) + ( shared ? "common" : "own" ), error + vf::fmt( " [pool of %zu bytes]", size ) );
                leak( own );
                if ( shared )
                    exit( ctx.finish() );
            }
            ctx.evaluations += compared + refusals;
            ctx.hit( "requests compared with a fresh pool", compared );
            ctx.hit( "refused operations", refusals );
            ctx.hit( "failures injected", injected );
            ctx.distinct.insert( vf::mix( size, idx ) );
            ctx.sample( vf::fmt( "pool of %zu bytes, %u rounds: %llu requests compared with a fresh pool, %llu refusals, %llu failures injected", size, rounds,
                                 static_cast<unsigned long long>( compared ), static_cast<unsigned long long>( refusals ), static_cast<unsigned long long>( injected ) ) );
        } );
    }

    // ---------------------------------------------------------------- images as values
    // memory of other kinds, one for each type of images
    struct Kinds
    {
        std::map<const void *, uint8_t> live; // the kind of each block
        std::string error;
    };
    inline Kinds & kinds()
    {
        static Kinds k;
        return k;
    }
    const uint8_t KINDS[] = { 0, 91, 255 };
    template <typename T, uint8_t kind>
    struct Typed : penguinV::ImageTemplate<T>
    {
        Typed()
        {
            this->_setType( kind, get, put, copy_, set_ );
        }
        static T * get( size_t n )
        {
            T * p = static_cast<T *>( ::operator new( n * sizeof( T ) ) );
            kinds().live[p] = kind;
            return p;
        }
        static void put( T * p )
        {
            auto i = kinds().live.find( p );
            if ( i == kinds().live.end() ) {
                kinds().error = vf::fmt( "memory which is not of kind %u is released as such", kind );
                return;
            }
            if ( i->second != kind )
                kinds().error = vf::fmt( "memory of kind %u is released as kind %u", i->second, kind );
            kinds().live.erase( i );
            ::operator delete( p );
        }
        static void check( const T * p, const char * what )
        {
            auto i = kinds().live.find( p );
            if ( i == kinds().live.end() || i->second != kind )
                kinds().error = vf::fmt( "memory which is not of kind %u is %s as such", kind, what );
        }
        static void copy_( T * out, T * in, size_t n )
        {
            check( out, "written" );
            check( in, "read" );
            memcpy( out, in, n );
        }
        static void set_( T * p, T v, size_t n )
        {
            check( p, "filled" );
            std::fill( p, p + n / sizeof( T ), v );
        }
    };
    template <typename T>
    struct Model
    {
        uint32_t w = 0, h = 0, row = 0;
        uint8_t cc = 1, al = 1, type = 0;
        bool data = false;
        std::vector<T> v;
        void clear()
        {
            w = h = row = 0;
            data = false;
            v.clear();
        }
    };
    inline uint64_t rowOf( uint32_t w, uint8_t cc, uint8_t al )
    {
        const uint64_t n = static_cast<uint64_t>( w ) * cc;
        return n % al ? ( n / al + 1 ) * al : n;
    }

    template <typename T>
    struct Values
    {
        typedef penguinV::ImageTemplate<T> Im;
        std::vector<std::unique_ptr<Im>> im;
        std::vector<Model<T>> mo;
        Rng & r;
        std::string error, history;
        uint64_t checks = 0, refusals = 0, injected = 0, otherKinds = 0;
        bool held = false; // something else holds memory, too

        explicit Values( Rng & rng )
            : r( rng )
        {}

        void fillRandom( size_t k )
        {
            Model<T> & m = mo[k];
            m.v.resize( static_cast<size_t>( m.row ) * m.h );
            for ( auto & x : m.v )
                x = static_cast<T>( r.next() );
            if ( !m.v.empty() )
                memcpy( im[k]->data(), m.v.data(), m.v.size() * sizeof( T ) );
        }
        void check( size_t k )
        {
            const Im & i = *im[k];
            const Model<T> & m = mo[k];
            ++checks;
            if ( i.width() != m.w || i.height() != m.h || i.rowSize() != m.row || i.colorCount() != m.cc || i.alignment() != m.al || i.empty() == m.data
                 || ( i.data() != nullptr ) != m.data || i.type() != m.type )
                error = vf::fmt( "image %zu is %ux%u row %u colours %u alignment %u type %u %s instead of %ux%u row %u colours %u alignment %u type %u %s", k, i.width(), i.height(),
                                 i.rowSize(), i.colorCount(), i.alignment(), i.type(), i.empty() ? "without data" : "with data", m.w, m.h, m.row, m.cc, m.al, m.type,
                                 m.data ? "with data" : "without data" );
            else if ( m.data && memcmp( i.data(), m.v.data(), m.v.size() * sizeof( T ) ) )
                error = vf::fmt( "the values of image %zu changed", k );
        }
        void checkAll()
        {
            std::map<const T *, const T *> ranges;
            for ( size_t k = 0; k < im.size() && error.empty(); ++k ) {
                check( k );
                if ( error.empty() && mo[k].data )
                    if ( !ranges.insert( { im[k]->data(), im[k]->data() + mo[k].v.size() } ).second )
                        error = vf::fmt( "image %zu shares its memory with another image", k );
            }
            size_t foreign = 0;
            for ( size_t k = 0; k < im.size() && error.empty(); ++k ) {
                if ( !mo[k].data )
                    continue;
                const auto i = kinds().live.find( im[k]->data() );
                foreign += mo[k].type != 0;
                if ( mo[k].type ? i == kinds().live.end() || i->second != mo[k].type : i != kinds().live.end() )
                    error = vf::fmt( "the memory of image %zu is not of its kind (%u)", k, mo[k].type );
            }
            if ( error.empty() )
                error = kinds().error;
            if ( error.empty() && !held && foreign != kinds().live.size() )
                error = vf::fmt( "%zu images hold memory of other kinds, %zu blocks of it exist", foreign, kinds().live.size() );
            const T * end = nullptr;
            for ( auto & p : ranges ) {
                if ( error.empty() && p.first < end )
                    error = "two images share memory";
                end = p.second;
            }
        }
        // after an exception an image is as before or empty
        bool settle( size_t k, bool dropOnly, uint8_t cc, uint8_t al )
        {
            const Im & i = *im[k];
            Model<T> & m = mo[k];
            if ( !i.empty() )
                return true; // must be as before: checked by checkAll
            if ( m.data || !dropOnly ) {
                if ( i.width() && i.height() ) {
                    error = vf::fmt( "after a failed operation image %zu describes %ux%u without memory", k, i.width(), i.height() );
                    return false;
                }
                m.clear();
                m.w = i.width();
                m.h = i.height();
                m.row = i.rowSize();
                // either description
                if ( i.colorCount() == cc && i.alignment() == al ) {
                    m.cc = cc;
                    m.al = al;
                }
            }
            return true;
        }
        uint8_t colours()
        {
            return r.pick<uint8_t>( { 1, 1, 1, 3, 3, 4, 2, 5, 255 } );
        }
        uint8_t align()
        {
            return r.pick<uint8_t>( { 1, 1, 1, 2, 3, 4, 8, 16, 32, 100, 255 } );
        }
        uint32_t dim()
        {
            return r.chance( 6 ) ? 0 : r.pick( { r.u( 1, 4 ), r.u( 1, 40 ), r.u( 1, 120 ) } );
        }
        size_t k()
        {
            return r.next() % im.size();
        }

        // an empty image of another kind
        Im ofKind( uint8_t type )
        {
            if ( type == KINDS[1] )
                return Typed<T, 91>().generate();
            if ( type == KINDS[2] )
                return Typed<T, 255>().generate();
            return Im();
        }
        T * memoryOf( uint8_t type, size_t n )
        {
            return type == KINDS[1] ? Typed<T, 91>::get( n ) : type == KINDS[2] ? Typed<T, 255>::get( n ) : cpu_Memory::MemoryAllocator::instance().allocate<T>( n );
        }
        void giveBack( uint8_t type, T * p )
        {
            type == KINDS[1] ? Typed<T, 91>::put( p ) : type == KINDS[2] ? Typed<T, 255>::put( p ) : cpu_Memory::MemoryAllocator::instance().free( p );
        }

        void step()
        {
            const size_t a = k(), b = k();
            const uint32_t op = r.u( 0, 19 );
            Model<T> & m = mo[a];
            const bool inject = r.chance( 12 );
            const uint64_t before = heap::failed;
            switch ( op ) {
            case 0: { // constructor
                const uint32_t w = dim(), h = dim();
                const uint8_t cc = colours(), al = align();
                const uint8_t type = kindsUsed ? r.pick<uint8_t>( { KINDS[0], KINDS[1], KINDS[2] } ) : KINDS[0];
                history += vf::fmt( "%zu=new(%ux%u,%u,%u type %u) ", a, w, h, cc, al, type );
                std::unique_ptr<Im> n;
                try {
                    if ( type ) {
                        Im source = ofKind( type );
                        heap::Fail f( inject ? 0 : -1 );
                        n.reset( new Im( source.generate( w, h, cc, al ) ) );
                    }
                    else {
                        heap::Fail f( inject ? 0 : -1 );
                        n.reset( new Im( w, h, cc, al ) );
                    }
                }
                catch ( const std::bad_alloc & ) {
                    ++refusals;
                    break;
                }
                im[a] = std::move( n );
                m.clear();
                m.type = type;
                otherKinds += type != 0;
                m.cc = cc;
                m.al = al;
                if ( w && h ) {
                    m.w = w;
                    m.h = h;
                    m.row = static_cast<uint32_t>( rowOf( w, cc, al ) );
                    m.data = true;
                    fillRandom( a );
                }
                break;
            }
            case 1: { // copy constructor
                history += vf::fmt( "%zu=new(%zu) ", a, b );
                std::unique_ptr<Im> n;
                try {
                    heap::Fail f( inject ? 0 : -1 );
                    n.reset( new Im( *im[b] ) );
                }
                catch ( const std::bad_alloc & ) {
                    ++refusals;
                    break;
                }
                held = true;
                checkAll();
                held = false;
                const Model<T> c = mo[b];
                im[a] = std::move( n );
                m = c;
                break;
            }
            case 2: { // move constructor: the source stays usable
                history += vf::fmt( "%zu=new(move %zu) ", a, b );
                std::unique_ptr<Im> n( new Im( std::move( *im[b] ) ) );
                const Model<T> c = mo[b];
                mo[b] = Model<T>();
                if ( !im[b]->empty() ) {
                    error = "an image is not empty after its move";
                    return;
                }
                mo[b].cc = im[b]->colorCount();
                mo[b].al = im[b]->alignment();
                mo[b].type = im[b]->type();
                if ( mo[b].type != 0 && mo[b].type != c.type )
                    error = "the source of a move has a type of its own";
                im[a] = std::move( n );
                m = c;
                break;
            }
            case 3:
            case 4: { // assignment, also to itself
                history += vf::fmt( "%zu=%zu ", a, b );
                Im & ra = *im[a];
                const Im & rb = *im[b];
                try {
                    heap::Fail f( inject ? 0 : -1 );
                    if ( op == 3 )
                        ra = rb;
                    else
                        ra.copy( rb );
                }
                catch ( const std::bad_alloc & ) {
                    ++refusals;
                    settle( a, false, mo[b].cc, mo[b].al );
                    break;
                }
                catch ( const penguinVException & ) { // of another kind
                    ++refusals;
                    if ( mo[a].type == mo[b].type )
                        error = "copying an image of the same type was refused";
                    break;
                }
                if ( mo[a].type != mo[b].type ) {
                    error = "an image of one type was copied to one of another type";
                    break;
                }
                const Model<T> c = mo[b];
                m = c;
                break;
            }
            case 5: { // move assignment: the target has what the source had, nothing is lost or shared
                history += vf::fmt( "%zu=move %zu ", a, b );
                Im & ra = *im[a];
                Im & rb = *im[b];
                ra = std::move( rb );
                if ( a == b )
                    break;
                const Model<T> old = m;
                m = mo[b];
                // the source holds the former contents of the target or nothing
                if ( im[b]->empty() && old.data ) {
                    mo[b] = Model<T>();
                    mo[b].cc = im[b]->colorCount();
                    mo[b].al = im[b]->alignment();
                    mo[b].w = im[b]->width();
                    mo[b].h = im[b]->height();
                    mo[b].type = im[b]->type();
                    if ( mo[b].type != 0 && mo[b].type != old.type && mo[b].type != m.type )
                        error = "the source of a move has a type of its own";
                    if ( mo[b].w && mo[b].h )
                        error = "an image without memory describes pixels after its move";
                    mo[b].row = im[b]->rowSize();
                }
                else
                    mo[b] = old;
                break;
            }
            case 6: {
                history += vf::fmt( "swap %zu %zu ", a, b );
                im[a]->swap( *im[b] );
                std::swap( mo[a], mo[b] );
                break;
            }
            case 7:
            case 8:
            case 9: {
                uint32_t w = dim(), h = dim();
                const bool huge = r.chance( 15 );
                if ( huge ) {
                    switch ( r.u( 0, 3 ) ) {
                    case 0:
                        w = 0xFFFFFFFFu - r.u( 0, 300 );
                        h = r.u( 1, 3 );
                        break;
                    case 1:
                        w = 0xFFFFFFFFu / m.cc + r.u( 0, 3 ) - 1;
                        h = 0xFFFFFFFFu - r.u( 0, 300 );
                        break;
                    case 2:
                        w = 0x40000000u + r.u( 0, 40 );
                        h = 4 + r.u( 0, 1 );
                        break;
                    default:
                        w = 0x10000u * r.u( 1, 3 );
                        h = 0x10000u * r.u( 1, 3 );
                    }
                }
                history += vf::fmt( "%zu.resize(%u,%u) ", a, w, h );
                const bool change = w && h && ( w != m.w || h != m.h );
                try {
                    heap::Fail f( inject ? 0 : -1 );
                    im[a]->resize( w, h );
                }
                catch ( const std::bad_alloc & ) {
                    ++refusals;
                    if ( !change )
                        error = "resizing without a change of size failed";
                    settle( a, false, m.cc, m.al );
                    break;
                }
                catch ( const penguinVException & ) {
                    ++refusals;
                    if ( rowOf( w, m.cc, m.al ) <= 0xFFFFFFFFu )
                        error = vf::fmt( "an image of %ux%u with %u colours and alignment %u was refused", w, h, m.cc, m.al );
                    settle( a, false, m.cc, m.al );
                    break;
                }
                if ( change ) {
                    if ( huge ) {
                        const uint64_t row = rowOf( w, m.cc, m.al );
                        if ( row > 0xFFFFFFFFu || row * h * sizeof( T ) > heap::tooBig ) {
                            error = vf::fmt( "resizing to %ux%u with %u colours and alignment %u was accepted without memory for it", w, h, m.cc, m.al );
                            return;
                        }
                        im[a]->clear();
                        m.clear();
                        break;
                    }
                    m.w = w;
                    m.h = h;
                    m.row = static_cast<uint32_t>( rowOf( w, m.cc, m.al ) );
                    m.data = true;
                    fillRandom( a );
                }
                break;
            }
            case 10: {
                const uint8_t cc = r.chance( 10 ) ? 0 : r.chance( 30 ) ? m.cc : colours();
                history += vf::fmt( "%zu.colours(%u) ", a, cc );
                im[a]->setColorCount( cc );
                if ( cc && cc != m.cc ) {
                    m.clear();
                    m.cc = cc;
                }
                break;
            }
            case 11: {
                const uint8_t al = r.chance( 10 ) ? 0 : r.chance( 30 ) ? m.al : align();
                history += vf::fmt( "%zu.alignment(%u) ", a, al );
                im[a]->setAlignment( al );
                if ( al && al != m.al ) {
                    m.clear();
                    m.al = al;
                }
                break;
            }
            case 12: {
                const T v = static_cast<T>( r.next() );
                history += vf::fmt( "%zu.fill ", a );
                im[a]->fill( v );
                std::fill( m.v.begin(), m.v.end(), v );
                break;
            }
            case 13: {
                history += vf::fmt( "%zu.clear ", a );
                im[a]->clear();
                m.clear();
                break;
            }
            case 14:
            case 15: { // another description of the same memory
                uint32_t w = dim(), h = dim();
                uint8_t cc = r.chance( 10 ) ? 0 : colours(), al = r.chance( 10 ) ? 0 : align();
                if ( m.data && r.chance( 70 ) ) { // one that fits
                    const uint64_t total = static_cast<uint64_t>( m.row ) * m.h;
                    switch ( r.u( 0, 3 ) ) {
                    case 0:
                        w = static_cast<uint32_t>( total );
                        h = 1;
                        cc = 1;
                        al = 1;
                        break;
                    case 1:
                        w = 1;
                        h = static_cast<uint32_t>( total );
                        cc = 1;
                        al = 1;
                        break;
                    case 2:
                        w = m.h;
                        h = m.row;
                        cc = 1;
                        al = 1;
                        break;
                    default:
                        w = m.w;
                        h = m.h;
                        cc = m.cc;
                        al = m.al;
                        if ( r.chance( 40 ) && m.al > 1 )
                            ++w;
                    }
                }
                else if ( r.chance( 30 ) ) { // the product fits modulo 2^32 only
                    w = 0x10000u;
                    h = 0x10000u * r.u( 1, 3 );
                    cc = al = 1;
                }
                else if ( r.chance( 20 ) ) {
                    w = 0xFFFFFFFFu / 3 + 2;
                    h = r.u( 1, 4 );
                    cc = 3;
                    al = 1;
                }
                history += vf::fmt( "%zu.mutate(%u,%u,%u,%u) ", a, w, h, cc, al );
                bool ok = false, threw = false;
                try {
                    ok = im[a]->mutate( w, h, cc, al );
                }
                catch ( const penguinVException & ) {
                    threw = true;
                    ++refusals;
                }
                const bool fits = cc && al && rowOf( w, cc, al ) <= 0xFFFFFFFFu && rowOf( w, cc, al ) * h == static_cast<uint64_t>( m.row ) * m.h;
                if ( ok != fits )
                    error = vf::fmt( "mutate(%u,%u,%u,%u) of an image of %ux%u, %u colours, row %u %s", w, h, cc, al, m.w, m.h, m.cc, m.row, ok ? "succeeded" : "was refused" );
                if ( threw && cc && al && rowOf( w, cc, al ) <= 0xFFFFFFFFu )
                    error = "mutate threw for a valid description";
                if ( ok ) {
                    m.w = w;
                    m.h = h;
                    m.cc = cc;
                    m.al = al;
                    m.row = static_cast<uint32_t>( rowOf( w, cc, al ) );
                }
                break;
            }
            case 16: { // generate: as the constructor
                uint32_t w = dim(), h = dim();
                const uint32_t given = r.chance( 70 ) ? 4 : r.u( 0, 3 ); // the rest by default: no size, gray-scale, no alignment
                const uint8_t cc = given > 2 ? colours() : 1, al = given > 3 ? align() : 1;
                if ( given < 2 )
                    w = h = 0;
                const uint8_t type = mo[b].type;
                history += vf::fmt( "%zu=%zu.generate(%u,%u,%u,%u; %u given) ", a, b, w, h, cc, al, given );
                try {
                    heap::Fail f( inject ? 0 : -1 );
                    const Im & from = *im[b];
                    std::unique_ptr<Im> n( new Im( given == 4 ? from.generate( w, h, cc, al ) : given == 3 ? from.generate( w, h, cc ) : given == 2 ? from.generate( w, h ) : from.generate() ) );
                    im[a] = std::move( n );
                }
                catch ( const std::bad_alloc & ) {
                    ++refusals;
                    break;
                }
                m.clear();
                m.type = type;
                m.cc = cc;
                m.al = al;
                if ( w && h ) {
                    m.w = w;
                    m.h = h;
                    m.row = static_cast<uint32_t>( rowOf( w, cc, al ) );
                    m.data = true;
                    fillRandom( a );
                }
                break;
            }
            case 17: { // take over memory
                const uint32_t w = r.chance( 10 ) ? 0 : r.u( 1, 40 ), h = r.chance( 10 ) ? 0 : r.u( 1, 40 );
                const uint8_t cc = r.chance( 10 ) ? 0 : colours(), al = r.chance( 10 ) ? 0 : align();
                history += vf::fmt( "%zu.assign(%u,%u,%u,%u) ", a, w, h, cc, al );
                const bool none = r.chance( 10 );
                const bool valid = w && h && cc && al && !none;
                const size_t n = valid ? static_cast<size_t>( rowOf( w, cc, al ) ) * h : 1;
                T * p = memoryOf( m.type, n );
                std::vector<T> v( n );
                for ( auto & x : v )
                    x = static_cast<T>( r.next() );
                memcpy( p, v.data(), n * sizeof( T ) );
                try {
                    im[a]->assign( none ? nullptr : p, w, h, cc, al );
                    if ( !valid ) {
                        error = "an invalid assignment of memory was accepted";
                        return;
                    }
                    m.w = w;
                    m.h = h;
                    m.cc = cc;
                    m.al = al;
                    m.row = static_cast<uint32_t>( rowOf( w, cc, al ) );
                    m.data = true;
                    m.v = v;
                    if ( im[a]->data() != p )
                        error = "assigned memory is not used";
                }
                catch ( const penguinVException & ) {
                    ++refusals;
                    if ( valid )
                        error = "a valid assignment of memory was refused";
                    giveBack( m.type, p );
                }
                break;
            }
            case 18: { // write one value
                if ( m.data && !m.v.empty() ) {
                    const size_t p = r.next() % m.v.size();
                    m.v[p] = static_cast<T>( r.next() );
                    im[a]->data()[p] = m.v[p];
                }
                break;
            }
            default: // identity of an image with itself, and of different ones
                if ( !( *im[a] == *im[a] ) )
                    error = "an image is not equal to itself";
                else if ( a != b && ( m.data || mo[b].data ) && *im[a] == *im[b] )
                    error = vf::fmt( "images %zu and %zu with memory of their own are equal", a, b );
                else if ( a != b && !m.data && !mo[b].data && ( m.type != mo[b].type || m.cc != mo[b].cc || m.al != mo[b].al || m.w != mo[b].w || m.h != mo[b].h ) && *im[a] == *im[b] )
                    error = vf::fmt( "images %zu and %zu are described differently and equal", a, b );
            }
            injected += heap::failed - before;
            if ( error.empty() )
                checkAll();
        }
        bool kindsUsed = false;
        void run( uint32_t images, uint32_t steps )
        {
            kindsUsed = r.chance( 40 );
            for ( uint32_t i = 0; i < images; ++i ) {
                im.emplace_back( new Im );
                mo.emplace_back();
            }
            for ( uint32_t s = 0; s < steps && error.empty(); ++s ) {
                if ( history.size() > 700 )
                    history.erase( 0, 300 );
                step();
            }
        }
    };

    void modeValues( vf::Ctx & ctx )
    {
        ctx.loop( "M03", [&]( uint64_t idx, Rng & rng ) {
            const bool wide = rng.chance( 35 );
            const uint32_t images = rng.u( 1, 6 ), steps = rng.u( 20, 150 );
            const uint32_t pool = rng.u( 0, 3 );
            ctx.begin( idx, vf::fmt( "%u-bit images: %u, %u steps, pool %u", wide ? 16 : 8, images, steps, pool ) );
            if ( pool )
                cpu_Memory::MemoryAllocator::instance().reserve( pool == 1 ? 3000 : pool == 2 ? 65536 : 1000000 );
            auto go = [&]( auto & v ) {
                v.run( images, steps );
                if ( !v.error.empty() )
                    ctx.fail( wide ? "M03/16bit" : "M03/8bit", v.error + " after ..." + v.history );
                ctx.evaluations += v.checks;
                ctx.hit( "images compared with their model", v.checks );
                ctx.hit( "operations refused", v.refusals );
                ctx.hit( "failures injected", v.injected );
                ctx.hit( "images of other types", v.otherKinds );
                ctx.distinct.insert( vf::hashStr( v.history ) );
                ctx.sample( v.history.substr( 0, 300 ) );
                return v.error.empty();
            };
            bool ok;
            if ( wide ) {
                Values<uint16_t> v( rng );
                ok = go( v );
                if ( !ok )
                    exit( ctx.finish() ); // the images may be unsafe to destroy
            }
            else {
                Values<uint8_t> v( rng );
                ok = go( v );
                if ( !ok )
                    exit( ctx.finish() );
            }
            if ( !kinds().error.empty() || !kinds().live.empty() ) {
                ctx.fail( "M03/kinds", kinds().error.empty() ? vf::fmt( "%zu blocks of other kinds of memory exist without images", kinds().live.size() ) : kinds().error );
                exit( ctx.finish() );
            }
            if ( pool && rng.chance( 50 ) ) { // every image gave its memory back
                try {
                    cpu_Memory::MemoryAllocator::instance().reserve( 12345 );
                }
                catch ( const std::logic_error & ) {
                    ctx.fail( "M03/leak", "images kept memory of the pool after their destruction" );
                }
            }
        } );
    }
}

int main( int argc, char ** argv )
{
    vf::Ctx ctx;
    ctx.parse( argc, argv );
    if ( ctx.mode == "M01" )
        modeBlocks( ctx );
    else if ( ctx.mode == "M02" )
        modeReclaim( ctx );
    else
        modeValues( ctx );
    return ctx.finish();
}
