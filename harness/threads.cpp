// Monitors of the thread pool. Modes: T01 (exactly once), T02 (life cycle), T04 (failing tasks). Histories are recorded by the
// tasks themselves and judged when the waits return; hangs are judged by the driver.
#include "common.h"
#include "penguinv_exception.h"
#include "thread_pool.h"
#include <condition_variable>
#include <memory>
#include <stdexcept>
#include <thread>

using vf::Rng;

#if !defined( __SANITIZE_ADDRESS__ ) && !defined( __SANITIZE_THREAD__ )
#define VF_INTERPOSE
#include <dlfcn.h>
#include <pthread.h>
// Delays around every lock, unlock and wait of the process, wherever the library places them: the window between checking a
// condition and falling asleep, and the one between leaving a critical section and the next step, become wide.
namespace
{
    template <typename F>
    F real( const char * name, const char * version = nullptr )
    {
        void * p = version ? dlvsym( RTLD_NEXT, name, version ) : nullptr;
        if ( !p )
            p = dlsym( RTLD_NEXT, name );
        if ( !p )
            abort();
        return reinterpret_cast<F>( p );
    }
}
extern "C" int pthread_mutex_lock( pthread_mutex_t * m ) noexcept
{
    static int ( *const f )( pthread_mutex_t * ) = real<int ( * )( pthread_mutex_t * )>( "pthread_mutex_lock" );
    penguinV_verif_point( "lock" );
    return f( m );
}
extern "C" int pthread_mutex_unlock( pthread_mutex_t * m ) noexcept
{
    static int ( *const f )( pthread_mutex_t * ) = real<int ( * )( pthread_mutex_t * )>( "pthread_mutex_unlock" );
    const int r = f( m );
    penguinV_verif_point( "unlocked" );
    return r;
}
extern "C" int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
{
    static int ( *const f )( pthread_cond_t *, pthread_mutex_t * ) = real<int ( * )( pthread_cond_t *, pthread_mutex_t * )>( "pthread_cond_wait", "GLIBC_2.3.2" );
    penguinV_verif_point( "sleep" );
    return f( c, m );
}
#endif

namespace
{
    vf::Ctx * g;

    void busy( uint32_t n )
    {
        volatile uint32_t x = 0;
        for ( uint32_t i = 0; i < n; ++i )
            x = x + i;
    }

    // what one set of tasks has to do and what was observed
    struct Set
    {
        size_t count = 0;
        std::vector<uint8_t> throwing; // kind of exception per task, 0: none
        std::vector<uint32_t> burn;
        bool anyThrow = false;
    };

    struct Recorder
    {
        std::vector<std::atomic<uint32_t>> runs; // executions of each task of the current set
        std::vector<uint64_t> stamp; // plain memory written by tasks and read by the waiter
        std::atomic<bool> closed{ true }; // no task of this provider may run now
        std::atomic<uint32_t> outside{ 0 }, late{ 0 }, active{ 0 }, started{ 0 };
        uint64_t round = 0;
        const Set * set = nullptr;
        std::atomic<uint32_t> workersSeen{ 0 };

        void open( const Set & s )
        {
            set = &s;
            ++round;
            if ( runs.size() < s.count ) {
                std::vector<std::atomic<uint32_t>> n( s.count );
                runs.swap( n );
                stamp.assign( s.count, 0 );
            }
            for ( size_t i = 0; i < runs.size(); ++i )
                runs[i].store( 0, std::memory_order_relaxed );
            started = 0;
            closed = false;
        }
        void task( size_t id )
        {
            ++active;
            ++started;
            if ( closed )
                ++late;
            if ( set == nullptr || id >= set->count ) {
                ++outside;
                --active;
                return;
            }
            if ( set->burn[id] == 0xFFFFFFFFu )
                sched_yield();
            else if ( set->burn[id] == 0xFFFFFFFEu )
                std::this_thread::sleep_for( std::chrono::milliseconds( 2300 ) );
            else
                busy( set->burn[id] );
            stamp[id] = round * 1000003u + id;
            runs[id].fetch_add( 1, std::memory_order_relaxed );
            const uint8_t kind = set->throwing[id];
            --active;
            switch ( kind ) {
            case 1: throw std::runtime_error( "task" );
            case 2: throw 42;
            case 3: throw penguinVException( "task" );
            case 4: throw std::bad_alloc();
            case 5: throw std::string( "task" );
            default: break;
            }
        }
        // judge after a wait; dropped: tasks may be missing if the wait said so
        std::string judge( bool result, bool mayDrop, bool * complete = nullptr )
        {
            closed = true;
            if ( outside )
                return vf::fmt( "%u tasks ran with a number outside 0..%zu", outside.load(), set->count - 1 );
            if ( late )
                return vf::fmt( "%u tasks ran after the wait of their set", late.load() );
            if ( active )
                return vf::fmt( "%u tasks are still running after the wait", active.load() );
            size_t missing = 0;
            for ( size_t i = 0; i < set->count; ++i ) {
                const uint32_t n = runs[i].load( std::memory_order_relaxed );
                if ( n > 1 )
                    return vf::fmt( "task %zu of %zu ran %u times", i, set->count, n );
                if ( n == 0 )
                    ++missing;
                else if ( stamp[i] != round * 1000003u + i )
                    return vf::fmt( "the effect of task %zu of %zu is not visible after the wait", i, set->count );
            }
            if ( missing && ( !mayDrop || result ) )
                return vf::fmt( "%zu of %zu tasks did not run before the wait returned %s", missing, set->count, result ? "true" : "false" );
            bool threw = false;
            for ( size_t i = 0; i < set->count; ++i )
                if ( set->throwing[i] && runs[i].load( std::memory_order_relaxed ) )
                    threw = true;
            if ( threw && result )
                return "a task threw an exception but the wait returned true";
            if ( !threw && !missing && !result )
                return "all tasks ran without an exception but the wait returned false";
            if ( complete )
                *complete = missing == 0;
            return "";
        }
    };

    struct Provider
    {
        virtual ~Provider() {}
        virtual void start( size_t n ) = 0;
        virtual bool wait() = 0;
        virtual bool ready() = 0;
        virtual void drop( ThreadPool & p ) = 0;
        Recorder rec;
    };

    struct PoolProvider : Provider, TaskProvider
    {
        explicit PoolProvider( ThreadPool * p )
            : TaskProvider( p )
        {}
        void _task( size_t id ) override
        {
            rec.task( id );
        }
        void start( size_t n ) override
        {
            _run( n );
        }
        bool wait() override
        {
            return _wait();
        }
        bool ready() override
        {
            return _ready();
        }
        void drop( ThreadPool & p ) override
        {
            p.remove( this );
        }
    };
    struct SingletonProvider : Provider, TaskProviderSingleton
    {
        void _task( size_t id ) override
        {
            rec.task( id );
        }
        void start( size_t n ) override
        {
            _run( n );
        }
        bool wait() override
        {
            return _wait();
        }
        bool ready() override
        {
            return _ready();
        }
        void drop( ThreadPool & p ) override
        {
            p.remove( this );
        }
    };

    Provider * make( ThreadPool & p, bool singleton )
    {
        if ( singleton )
            return new SingletonProvider;
        return new PoolProvider( &p );
    }

    Set plan( Rng & r, uint32_t throwPercent, size_t limit )
    {
        Set s;
        const uint32_t k = r.u( 0, 99 );
        s.count = k < 20 ? 1 : k < 35 ? 2 : k < 75 ? r.u( 3, 17 ) : k < 93 ? r.u( 18, 150 ) : r.u( 151, static_cast<uint32_t>( limit ) );
        s.throwing.assign( s.count, 0 );
        s.burn.resize( s.count );
        const uint32_t style = r.u( 0, 3 );
        for ( auto & b : s.burn )
            b = style == 0 ? 0 : style == 1 ? r.u( 0, 300 ) : style == 2 ? ( r.chance( 10 ) ? r.u( 0, 20000 ) : 0 ) : ( r.chance( 20 ) ? 0xFFFFFFFFu : r.u( 0, 50 ) );
        if ( r.chance( throwPercent ) ) {
            const uint32_t dense = r.pick( { 1u, 10u, 50u, 100u } );
            for ( auto & t : s.throwing )
                if ( r.chance( dense ) ) {
                    t = static_cast<uint8_t>( r.u( 1, 5 ) );
                    s.anyThrow = true;
                }
            if ( !s.anyThrow || r.chance( 20 ) ) { // exactly one
                std::fill( s.throwing.begin(), s.throwing.end(), 0 );
                s.throwing[r.pick( { size_t( 0 ), s.count - 1, s.count / 2 } )] = static_cast<uint8_t>( r.u( 1, 5 ) );
                s.anyThrow = true;
            }
        }
        return s;
    }

    // every worker is alive: a set in which each task waits for the others to have started
    struct Meet : TaskProvider
    {
        std::mutex m;
        std::condition_variable cv;
        uint32_t here = 0, n;
        Meet( ThreadPool * p, uint32_t n_ )
            : TaskProvider( p )
            , n( n_ )
        {}
        void _task( size_t ) override
        {
            std::unique_lock<std::mutex> l( m );
            ++here;
            cv.notify_all();
            cv.wait( l, [&] { return here >= n; } );
        }
        bool go()
        {
            _run( n );
            return _wait();
        }
    };

    void setDelays( Rng & r )
    {
        vf::delays().percent = r.pick( { 0u, 0u, 5u, 30u } );
        vf::delays().maxMicro = r.pick( { 2u, 60u, 400u } );
    }

    // Copies of providers: a copy begins idle, with the pool of its model and nothing of its tasks; copying and assigning leave
    // the sets of both untouched.
    struct PoolCopy : TaskProvider
    {
        std::unique_ptr<Recorder> rec{ new Recorder };
        PoolCopy() {}
        explicit PoolCopy( ThreadPool & p )
            : TaskProvider( &p )
        {}
        PoolCopy( const PoolCopy & o )
            : TaskProvider( o )
        {}
        PoolCopy & operator=( const PoolCopy & o )
        {
            TaskProvider::operator=( o );
            return *this;
        }
        void _task( size_t id ) override
        {
            rec->task( id );
        }
        using TaskProvider::_ready;
        using TaskProvider::_run;
        using TaskProvider::_wait;
        static bool needsPool()
        {
            return true;
        }
        void attach( ThreadPool & p )
        {
            setThreadPool( &p );
        }
    };
    struct SingletonCopy : TaskProviderSingleton
    {
        std::unique_ptr<Recorder> rec{ new Recorder };
        SingletonCopy() {}
        explicit SingletonCopy( ThreadPool & ) {}
        SingletonCopy( const SingletonCopy & o )
            : TaskProviderSingleton( o )
        {}
        SingletonCopy & operator=( const SingletonCopy & o )
        {
            TaskProviderSingleton::operator=( o );
            return *this;
        }
        void _task( size_t id ) override
        {
            rec->task( id );
        }
        using TaskProviderSingleton::_ready;
        using TaskProviderSingleton::_run;
        using TaskProviderSingleton::_wait;
        static bool needsPool()
        {
            return false;
        }
        void attach( ThreadPool & ) {}
    };

    template <typename P>
    std::string copies( Rng & r, ThreadPool & pool, uint32_t throwPercent, uint32_t rounds, uint64_t & sets, uint64_t & tasks )
    {
        P a( pool ), b;
        if ( b._ready() == P::needsPool() )
            return "a new provider without a pool is ready or one with a pool is not";
        if ( P::needsPool() ) { // no pool, no tasks
            b._run( 3 );
            if ( !b._wait() || b.rec->started )
                return "a provider without a pool ran tasks or failed";
            if ( r.chance( 50 ) ) {
                b.attach( pool );
                if ( !b._ready() )
                    return "a provider which was given a pool is not ready";
            }
        }
        bool attached = !P::needsPool() || b._ready();
        for ( uint32_t k = 0; k < rounds; ++k ) {
            const Set s = plan( r, throwPercent, 200 ), t = plan( r, throwPercent, 200 );
            a.rec->open( s );
            a._run( s.count );
            std::string e;
            auto useCopy = [&]( P & c, bool copied ) {
                if ( !c._ready() )
                    return std::string( "a copy of a provider is not ready" );
                if ( copied && !c._wait() )
                    return std::string( "waiting for a copy without tasks failed" );
                c.rec->open( t );
                c._run( t.count );
                if ( r.chance( 40 ) )
                    a = c; // neither set is touched
                const bool result = c._wait();
                ++sets;
                tasks += t.count;
                const std::string bad = c.rec->judge( result, false );
                return bad.empty() ? bad : "copy: " + bad;
            };
            if ( r.chance( 30 ) )
                busy( r.u( 0, 2000 ) );
            if ( r.chance( 50 ) ) {
                P c( a );
                e = useCopy( c, true );
            }
            else if ( r.chance( 60 ) || !attached ) {
                b = a;
                attached = true;
                e = useCopy( b, true );
            }
            else
                e = useCopy( b, false );
            const bool result = a._wait();
            ++sets;
            tasks += s.count;
            if ( e.empty() ) {
                e = a.rec->judge( result, false );
                if ( !e.empty() )
                    e = "copied provider: " + e;
            }
            if ( e.empty() && r.chance( 30 ) ) { // after a failure as well: nothing of it is copied
                P c( a );
                if ( !c._ready() || !c._wait() || c.rec->started )
                    e = "a copy of a finished provider is not idle";
            }
            if ( !e.empty() )
                return vf::fmt( "round %u: ", k ) + e;
        }
        return "";
    }

    // T01 and T04: submitters sharing one pool of fixed size
    void modeSets( vf::Ctx & ctx, const std::string & prop, uint32_t throwPercent )
    {
        ctx.loop( prop, [&]( uint64_t idx, Rng & rng ) {
            const bool singleton = rng.chance( 40 );
            const uint32_t workers = rng.pick( { 1u, 1u, 2u, 2u, 3u, 4u, 5u, 8u, 13u } ), submitters = rng.pick( { 1u, 1u, 2u, 2u, 3u, 4u, 6u } ), rounds = rng.u( 1, 12 );
            const bool fresh = rng.chance( 30 ); // a new provider for every set, destroyed as soon as the wait returns
            ctx.begin( idx, vf::fmt( "%s pool, %u workers, %u submitters, %u rounds%s", singleton ? "common" : "own", workers, submitters, rounds, fresh ? ", new providers" : "" ) );
            setDelays( rng );
            const bool slow = idx % 1500 == 7, many = idx % 300 == 11; // a task of more than two seconds, more than 2^16 tasks
            if ( many )
                vf::delays().percent = 0;
            std::unique_ptr<ThreadPool> own;
            if ( !singleton )
                own.reset( new ThreadPool( workers ) );
            ThreadPool & pool = singleton ? ThreadPoolMonoid::instance() : *own;
            if ( singleton )
                pool.resize( workers );
            if ( rng.chance( 10 ) ) {
                uint64_t sets = 0, tasks = 0;
                const std::string e = singleton ? copies<SingletonCopy>( rng, pool, throwPercent, rounds, sets, tasks ) : copies<PoolCopy>( rng, pool, throwPercent, rounds, sets, tasks );
                if ( !e.empty() )
                    ctx.fail( prop + "/" + ( singleton ? "singleton" : "pool" ) + "/copies", e );
                ctx.hit( "tasks executed", tasks );
                ctx.hit( "sets of copied providers", sets );
                ctx.evaluations += sets;
                ctx.distinct.insert( vf::mix( idx, ctx.seed ) );
                return;
            }
            std::vector<uint64_t> seeds;
            for ( uint32_t i = 0; i < submitters; ++i )
                seeds.push_back( rng.next() );
            std::atomic<uint32_t> go( 0 );
            std::atomic<uint64_t> tasks( 0 ), sets( 0 ), threw( 0 );
            std::mutex em;
            std::vector<std::string> errors;
            auto submit = [&]( uint32_t me ) {
                Rng r( seeds[me] );
                ++go;
                while ( go < submitters )
                    sched_yield();
                std::unique_ptr<Provider> p( make( pool, singleton ) );
                auto bad = [&]( const std::string & e ) {
                    std::lock_guard<std::mutex> l( em );
                    errors.push_back( e );
                };
                for ( uint32_t k = 0; k < rounds; ++k ) {
                    if ( fresh )
                        p.reset( make( pool, singleton ) );
                    if ( r.chance( 4 ) ) { // nothing to do
                        Set none;
                        none.count = 1;
                        p->start( 0 );
                        if ( !p->wait() )
                            bad( vf::fmt( "round %u of submitter %u: waiting for no tasks failed", k, me ) );
                    }
                    Set s = plan( r, throwPercent, r.chance( 5 ) ? 3000 : 400 );
                    if ( k == 0 && slow && r.chance( 70 ) )
                        s.burn[r.pick( { size_t( 0 ), s.count - 1 } )] = 0xFFFFFFFEu;
                    if ( k == 0 && many && me == 0 ) {
                        s.count = 65536 + r.u( 1, 80000 );
                        s.burn.resize( s.count, 0 );
                        s.throwing.resize( s.count, 0 );
                    }
                    p->rec.open( s );
                    if ( !p->ready() )
                        bad( vf::fmt( "round %u of submitter %u: not ready for the next set", k, me ) );
                    p->start( s.count );
                    if ( r.chance( 30 ) )
                        busy( r.u( 0, 3000 ) );
                    const bool result = p->wait();
                    const std::string e = p->rec.judge( result, false );
                    if ( !e.empty() )
                        bad( vf::fmt( "round %u of submitter %u (%zu tasks%s): ", k, me, s.count, s.anyThrow ? ", some throw" : "" ) + e );
                    if ( !p->wait() ) // the failure of a set is reported once
                        bad( vf::fmt( "round %u of submitter %u: a second wait for the same set failed again", k, me ) );
                    tasks += s.count;
                    ++sets;
                    threw += s.anyThrow;
                    if ( !e.empty() )
                        break;
                }
                if ( p->rec.late )
                    bad( "tasks ran after the wait of their set" );
            };
            if ( submitters == 1 )
                submit( 0 );
            else {
                std::vector<std::thread> ts;
                for ( uint32_t i = 0; i < submitters; ++i )
                    ts.emplace_back( submit, i );
                for ( auto & t : ts )
                    t.join();
            }
            if ( pool.threadCount() != workers )
                errors.push_back( vf::fmt( "the pool has %zu workers instead of %u", pool.threadCount(), workers ) );
            if ( errors.empty() && !pool.empty() )
                errors.push_back( "tasks are left in the pool" );
            if ( errors.empty() ) {
                Meet meet( &pool, workers );
                if ( !meet.go() )
                    errors.push_back( "the set of all workers failed" );
            }
            for ( auto & e : errors )
                ctx.fail( prop + "/" + ( singleton ? "singleton" : "pool" ) + "/" + e.substr( e.find( ": " ) == std::string::npos ? 0 : e.find( ": " ) + 2 ).substr( 0, 0 ), e );
            ctx.hit( "tasks executed", tasks );
            ctx.hit( "sets waited for", sets );
            ctx.hit( "sets with a failing task", threw );
            ctx.evaluations += sets;
            ctx.distinct.insert( vf::mix( idx, ctx.seed ) );
            if ( ctx.samples.size() < 3 )
                ctx.sample( vf::fmt( "%s pool of %u workers, %u submitters: %llu sets, %llu tasks", singleton ? "common" : "own", workers, submitters,
                                     static_cast<unsigned long long>( sets.load() ), static_cast<unsigned long long>( tasks.load() ) ) );
        } );
    }

    // T02: the pool is resized, stopped, cleared and providers are removed while sets run
    void modeLife( vf::Ctx & ctx )
    {
        ctx.loop( "T02", [&]( uint64_t idx, Rng & rng ) {
            const bool singleton = rng.chance( 35 );
            const uint32_t submitters = rng.u( 1, 4 ), controllers = rng.u( 1, 3 ), rounds = rng.u( 2, 15 ), acts = rng.u( 2, 25 );
            const bool onlyResize = rng.chance( 30 ); // nothing may be dropped then
            const bool mayStop = !onlyResize && rng.chance( 60 ), fresh = rng.chance( 40 );
            ctx.begin( idx, vf::fmt( "%s pool, %u submitters, %u controllers, %u rounds, %u actions%s%s", singleton ? "common" : "own", submitters, controllers, rounds, acts,
                                     mayStop ? ", stops" : "", fresh ? ", new providers" : "" ) );
            setDelays( rng );
            std::unique_ptr<ThreadPool> own;
            if ( !singleton )
                own.reset( new ThreadPool( rng.u( 0, 4 ) ) );
            ThreadPool & pool = singleton ? ThreadPoolMonoid::instance() : *own;
            if ( singleton )
                pool.resize( rng.u( 1, 4 ) );
            std::mutex em;
            std::vector<std::string> errors;
            auto bad = [&]( const std::string & e ) {
                std::lock_guard<std::mutex> l( em );
                errors.push_back( e );
            };
            // providers the controllers may remove; guarded, because a provider must not be used after its destruction
            std::mutex pm;
            std::vector<Provider *> live( submitters, nullptr );
            std::atomic<uint64_t> dropped( 0 ), complete( 0 ), refused( 0 ), actions( 0 );
            std::vector<uint64_t> seeds;
            for ( uint32_t i = 0; i < submitters + controllers; ++i )
                seeds.push_back( rng.next() );
            std::atomic<bool> finished( false );
            std::vector<std::thread> ts;
            for ( uint32_t me = 0; me < submitters; ++me )
                ts.emplace_back( [&, me]() {
                    Rng r( seeds[me] );
                    std::unique_ptr<Provider> p( make( pool, singleton ) );
                    {
                        std::lock_guard<std::mutex> l( pm );
                        live[me] = p.get();
                    }
                    auto renew = [&]() {
                        {
                            std::lock_guard<std::mutex> l( pm );
                            live[me] = nullptr;
                        }
                        p.reset( make( pool, singleton ) );
                        std::lock_guard<std::mutex> l( pm );
                        live[me] = p.get();
                    };
                    for ( uint32_t k = 0; k < rounds; ++k ) {
                        if ( fresh )
                            renew();
                        const Set s = plan( r, 10, 200 );
                        p->rec.open( s );
                        try {
                            p->start( s.count );
                        }
                        catch ( const penguinVException & ) { // no workers at this moment
                            ++refused;
                            p->rec.closed = true;
                            if ( p->rec.started )
                                bad( "tasks of a refused set ran" );
                            if ( !p->wait() )
                                bad( "waiting after a refused set failed" );
                            sched_yield();
                            continue;
                        }
                        const bool own = !onlyResize && r.chance( 25 );
                        if ( own )
                            p->drop( pool );
                        if ( r.chance( 30 ) )
                            busy( r.u( 0, 5000 ) );
                        const bool result = p->wait();
                        bool all = false;
                        const std::string e = p->rec.judge( result, !onlyResize, &all );
                        if ( !e.empty() ) {
                            bad( vf::fmt( "round %u of submitter %u (%zu tasks): ", k, me, s.count ) + e );
                            break;
                        }
                        ++( all ? complete : dropped );
                    }
                    {
                        std::lock_guard<std::mutex> l( pm );
                        live[me] = nullptr;
                    }
                    if ( p->rec.late )
                        bad( "tasks ran after the wait of their set" );
                } );
            std::vector<std::thread> cs;
            for ( uint32_t me = 0; me < controllers; ++me )
                cs.emplace_back( [&, me]() {
                    Rng r( seeds[submitters + me] );
                    for ( uint32_t k = 0; k < acts && !finished; ++k ) {
                        ++actions;
                        switch ( r.u( 0, 6 ) ) {
                        case 0:
                        case 1:
                        case 2: {
                            const uint32_t n = r.u( 1, 7 );
                            pool.resize( n );
                            break;
                        }
                        case 3:
                            if ( !onlyResize )
                                pool.clear();
                            break;
                        case 4:
                            if ( mayStop ) {
                                pool.stop();
                                if ( r.chance( 70 ) )
                                    pool.resize( r.u( 1, 4 ) );
                            }
                            break;
                        case 5: {
                            std::lock_guard<std::mutex> l( pm );
                            Provider * p = live[r.u( 0, submitters - 1 )];
                            if ( p && !onlyResize )
                                p->drop( pool );
                            break;
                        }
                        default:
                            try {
                                pool.resize( 0 );
                                bad( "resizing to zero workers was accepted" );
                            }
                            catch ( const penguinVException & ) {
                            }
                            (void)pool.empty();
                            (void)pool.threadCount();
                        }
                        if ( r.chance( 40 ) )
                            busy( r.u( 0, 30000 ) );
                        else
                            sched_yield();
                    }
                } );
            for ( auto & t : ts )
                t.join();
            finished = true;
            for ( auto & t : cs )
                t.join();
            // a pool is destroyed or reused while providers remain
            const uint32_t end = rng.u( 0, 3 );
            if ( errors.empty() && !singleton && end == 0 ) {
                PoolProvider * p = new PoolProvider( nullptr );
                {
                    ThreadPool other( rng.u( 1, 3 ) );
                    p->setThreadPool( &other );
                    Set s = plan( rng, 0, 200 );
                    p->rec.open( s );
                    p->start( s.count );
                    if ( rng.chance( 50 ) )
                        other.clear();
                    other.stop(); // as the destructor does
                    const bool result = p->wait();
                    const std::string e = p->rec.judge( result, true );
                    if ( !e.empty() )
                        bad( "stopping a pool with tasks: " + e );
                    p->setThreadPool( nullptr );
                }
                delete p;
                ctx.hit( "pools stopped with work" );
            }
            if ( errors.empty() && !singleton && end == 1 ) { // destroyed by its own destructor while another thread waits
                std::unique_ptr<ThreadPool> other( new ThreadPool( rng.u( 1, 3 ) ) );
                std::unique_ptr<PoolProvider> p( new PoolProvider( other.get() ) );
                const Set s = plan( rng, 0, 400 );
                p->rec.open( s );
                p->start( s.count );
                bool result = false;
                std::thread w( [&]() { result = p->wait(); } );
                other.reset();
                w.join();
                p->setThreadPool( nullptr );
                const std::string e = p->rec.judge( result, true );
                if ( !e.empty() )
                    bad( "destroying a pool with tasks: " + e );
                ctx.hit( "pools destroyed with work" );
            }
            // afterwards the pool works as a fresh one
            if ( errors.empty() ) {
                if ( rng.chance( 50 ) )
                    pool.stop();
                const uint32_t n = rng.u( 1, 5 );
                pool.resize( n );
                if ( pool.threadCount() != n )
                    bad( vf::fmt( "the pool has %zu workers after resizing to %u", pool.threadCount(), n ) );
                for ( int k = 0; k < 2; ++k ) {
                    std::unique_ptr<Provider> p( make( pool, singleton ) );
                    const Set s = plan( rng, 0, 200 );
                    p->rec.open( s );
                    p->start( s.count );
                    const bool result = p->wait();
                    const std::string e = p->rec.judge( result, false );
                    if ( !e.empty() )
                        bad( "after all actions, as fresh pool: " + e );
                }
                if ( !pool.empty() )
                    bad( "tasks are left in the pool" );
                Meet meet( &pool, n );
                if ( !meet.go() )
                    bad( "after all actions the set of all workers failed" );
            }
            for ( auto & e : errors )
                ctx.fail( std::string( "T02/" ) + ( singleton ? "singleton" : "pool" ), e );
            ctx.hit( "sets completed", complete );
            ctx.hit( "sets dropped and reported", dropped );
            ctx.hit( "sets refused without workers", refused );
            ctx.hit( "actions on the pool", actions );
            ctx.evaluations += complete + dropped + refused;
            ctx.distinct.insert( vf::mix( idx, vf::mix( ctx.seed, dropped * 1000 + refused ) ) );
            if ( ctx.samples.size() < 3 )
                ctx.sample( vf::fmt( "%u submitters against %u controllers: %llu sets completed, %llu dropped, %llu refused", submitters, controllers,
                                     static_cast<unsigned long long>( complete.load() ), static_cast<unsigned long long>( dropped.load() ),
                                     static_cast<unsigned long long>( refused.load() ) ) );
        } );
    }
}

int main( int argc, char ** argv )
{
    vf::Ctx ctx;
    ctx.parse( argc, argv );
    g = &ctx;
    if ( ctx.mode == "T01" )
        modeSets( ctx, "T01", 0 );
    else if ( ctx.mode == "T04" )
        modeSets( ctx, "T04", 50 );
    else if ( ctx.mode == "T02" )
        modeLife( ctx );
    ctx.hit( "steps of the pool", vf::delays().steps );
    ctx.hit( "steps delayed", vf::delays().delayed );
    return ctx.finish();
}
