// Shared parts of all monitors: deterministic random numbers, counters, reporting, breadcrumbs.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace vf
{
    struct Rng
    {
        uint64_t s;
        explicit Rng( uint64_t seed = 1 )
            : s( seed )
        {}
        uint64_t next()
        {
            uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
            z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
            z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
            return z ^ ( z >> 31 );
        }
        // inclusive range
        uint32_t u( uint32_t lo, uint32_t hi )
        {
            return lo + static_cast<uint32_t>( next() % ( static_cast<uint64_t>( hi ) - lo + 1 ) );
        }
        int32_t i( int32_t lo, int32_t hi )
        {
            return static_cast<int32_t>( lo + static_cast<int64_t>( next() % static_cast<uint64_t>( static_cast<int64_t>( hi ) - lo + 1 ) ) );
        }
        bool chance( uint32_t percent )
        {
            return next() % 100 < percent;
        }
        double d( double lo, double hi )
        {
            return lo + ( hi - lo ) * ( static_cast<double>( next() >> 11 ) / 9007199254740992.0 );
        }
        template <typename T>
        T pick( std::initializer_list<T> l )
        {
            return *( l.begin() + next() % l.size() );
        }
        template <typename T>
        const T & pick( const std::vector<T> & l )
        {
            return l[next() % l.size()];
        }
    };

    inline uint64_t mix( uint64_t a, uint64_t b )
    {
        Rng r( a * 0x2545F4914F6CDD1Dull ^ ( b + 0x632BE59BD9B4E019ull ) );
        r.next();
        return r.next();
    }
    inline uint64_t hashBytes( const void * p, size_t n, uint64_t h = 1469598103934665603ull )
    {
        const uint8_t * b = static_cast<const uint8_t *>( p );
        for ( size_t i = 0; i < n; ++i ) {
            h ^= b[i];
            h *= 1099511628211ull;
        }
        return h;
    }
    inline uint64_t hashStr( const std::string & s )
    {
        return hashBytes( s.data(), s.size() );
    }

    inline std::string fmt( const char * f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
    inline std::string fmt( const char * f, ... )
    {
        char b[4096];
        va_list a;
        va_start( a, f );
        vsnprintf( b, sizeof b, f, a );
        va_end( a );
        return b;
    }

    // Command line: --seed S --tier T --shard k --shards n --count N --secs T --only IDX --out FILE --crumb FILE --mode M
    struct Ctx
    {
        uint64_t seed = 1;
        std::string tier = "quick", mode, out, crumbPath, arg;
        uint64_t shard = 0, shards = 1, count = 100, from = 0;
        double secs = 1e9;
        int64_t only = -1;
        uint64_t evaluations = 0;
        std::map<std::string, uint64_t> counters;
        std::set<uint64_t> distinct;
        std::vector<std::string> samples;
        uint64_t failures = 0;
        std::set<std::string> sigs;
        uint64_t current = 0;
        char * crumb = nullptr;
        std::mutex mtx;
        std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

        void parse( int argc, char ** argv )
        {
            for ( int k = 1; k + 1 < argc; k += 2 ) {
                const std::string a = argv[k], v = argv[k + 1];
                if ( a == "--seed" )
                    seed = strtoull( v.c_str(), nullptr, 10 );
                else if ( a == "--tier" )
                    tier = v;
                else if ( a == "--shard" )
                    shard = strtoull( v.c_str(), nullptr, 10 );
                else if ( a == "--shards" )
                    shards = strtoull( v.c_str(), nullptr, 10 );
                else if ( a == "--count" )
                    count = strtoull( v.c_str(), nullptr, 10 );
                else if ( a == "--from" )
                    from = strtoull( v.c_str(), nullptr, 10 );
                else if ( a == "--secs" )
                    secs = atof( v.c_str() );
                else if ( a == "--only" )
                    only = strtoll( v.c_str(), nullptr, 10 );
                else if ( a == "--out" )
                    out = v;
                else if ( a == "--crumb" )
                    crumbPath = v;
                else if ( a == "--mode" )
                    mode = v;
                else if ( a == "--arg" )
                    arg = v;
                else {
                    fprintf( stderr, "unknown option %s\n", a.c_str() );
                    exit( 3 );
                }
            }
            if ( !crumbPath.empty() ) {
                const int fd = open( crumbPath.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644 );
                if ( fd >= 0 && ftruncate( fd, 4096 ) == 0 ) {
                    void * p = mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
                    if ( p != MAP_FAILED )
                        crumb = static_cast<char *>( p );
                }
                if ( fd >= 0 )
                    close( fd );
            }
        }
        double elapsed() const
        {
            return std::chrono::duration<double>( std::chrono::steady_clock::now() - t0 ).count();
        }
        // breadcrumb: what is being executed; survives a crash of the process
        void note( const std::string & s )
        {
            if ( crumb ) {
                const size_t n = s.size() < 4000 ? s.size() : 4000;
                memcpy( crumb, s.data(), n );
                crumb[n] = 0;
            }
        }
        void begin( uint64_t idx, const std::string & s )
        {
            current = idx;
            note( fmt( "case=%llu ", static_cast<unsigned long long>( idx ) ) + s );
        }
        void hit( const std::string & s, uint64_t n = 1 )
        {
            std::lock_guard<std::mutex> l( mtx );
            counters[s] += n;
        }
        void sample( const std::string & s )
        {
            std::lock_guard<std::mutex> l( mtx );
            if ( samples.size() < 6 )
                samples.push_back( s );
        }
        // one violation. sig identifies the failing operation/site, text the history
        void fail( const std::string & sig, const std::string & text )
        {
            std::lock_guard<std::mutex> l( mtx );
            ++failures;
            if ( sigs.insert( sig ).second || failures < 10 ) {
                printf( "FAIL case=%llu sig=%s :: %s\n", static_cast<unsigned long long>( current ), sig.c_str(), text.c_str() );
                fflush( stdout );
            }
        }
        static std::string esc( const std::string & s )
        {
            std::string r;
            for ( char ch : s ) {
                if ( ch == '"' || ch == '\\' ) {
                    r += '\\';
                    r += ch;
                }
                else if ( static_cast<unsigned char>( ch ) < 32 )
                    r += ' ';
                else
                    r += ch;
            }
            return r;
        }
        int finish()
        {
            if ( !out.empty() ) {
                FILE * f = fopen( out.c_str(), "w" );
                if ( f ) {
                    fprintf( f, "{\"evaluations\":%llu,\"failures\":%llu,\"elapsed\":%.3f,\"counters\":{", static_cast<unsigned long long>( evaluations ),
                             static_cast<unsigned long long>( failures ), elapsed() );
                    bool first = true;
                    for ( auto & c : counters ) {
                        fprintf( f, "%s\"%s\":%llu", first ? "" : ",", esc( c.first ).c_str(), static_cast<unsigned long long>( c.second ) );
                        first = false;
                    }
                    fprintf( f, "},\"samples\":[" );
                    first = true;
                    for ( auto & s : samples ) {
                        fprintf( f, "%s\"%s\"", first ? "" : ",", esc( s ).c_str() );
                        first = false;
                    }
                    fprintf( f, "],\"distinct\":[" );
                    first = true;
                    for ( uint64_t h : distinct ) {
                        fprintf( f, "%s%llu", first ? "" : ",", static_cast<unsigned long long>( h ) );
                        first = false;
                    }
                    fprintf( f, "]}\n" );
                    fclose( f );
                }
            }
            printf( "DONE evaluations=%llu failures=%llu\n", static_cast<unsigned long long>( evaluations ), static_cast<unsigned long long>( failures ) );
            fflush( stdout );
            return failures ? 1 : 0;
        }
        // run body(idx, rng) for the cases of this shard
        void loop( const std::string & prop, const std::function<void( uint64_t, Rng & )> & body )
        {
            const uint64_t base = mix( seed, hashStr( prop + "/" + mode ) );
            if ( only >= 0 ) {
                Rng r( mix( base, static_cast<uint64_t>( only ) ) );
                body( static_cast<uint64_t>( only ), r );
                return;
            }
            for ( uint64_t k = shard; k < count; k += shards ) {
                if ( k < from )
                    continue;
                if ( elapsed() > secs ) {
                    counters["stopped_by_time"] = 1;
                    break;
                }
                Rng r( mix( base, k ) );
                current = k;
                body( k, r );
            }
        }
    };
}

// steps of the thread pool (see the hooks in thread_pool.cpp): random delays widen the windows between its critical sections
namespace vf
{
    struct Delays
    {
        std::atomic<uint32_t> percent{ 0 }; // chance of a delay at a step
        std::atomic<uint32_t> maxMicro{ 0 };
        std::atomic<uint64_t> steps{ 0 }, delayed{ 0 };
    };
    inline Delays & delays()
    {
        static Delays d;
        return d;
    }
}
__attribute__( ( weak ) ) void penguinV_verif_point( const char * name )
{
    vf::Delays & d = vf::delays();
    d.steps.fetch_add( 1, std::memory_order_relaxed );
    const uint32_t percent = d.percent.load( std::memory_order_relaxed );
    if ( percent == 0 )
        return;
    static thread_local uint64_t state = reinterpret_cast<uintptr_t>( &state ) ^ static_cast<uint64_t>( std::chrono::steady_clock::now().time_since_epoch().count() );
    vf::Rng r( state ^ vf::hashStr( name ) );
    state = r.next();
    if ( !r.chance( percent ) )
        return;
    d.delayed.fetch_add( 1, std::memory_order_relaxed );
    const uint32_t us = r.u( 0, d.maxMicro.load( std::memory_order_relaxed ) );
    if ( us < 3 ) {
        sched_yield();
        return;
    }
    struct timespec t = { 0, static_cast<long>( us ) * 1000 };
    nanosleep( &t, nullptr );
}
