// Monitor of the choice of an instruction set: the library runs on processors described by the monitor (cpu/cpuid.h), each
// in a process of its own as the library asks the processor only once. Instruction sets are switched on and off meanwhile.
#include "common.h"
#include "image_function_helper.h"
#include "penguinv/cpu_identification.h"
#include <cstdlib>
#include <intrin.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

namespace windows_ // the code for Windows, compiled against a stand-in for its header
{
#include "penguinv/cpu_id_windows.h"
}

namespace
{
    struct Cpu
    {
        unsigned most = 0; // the highest question answered
        unsigned edx1 = 0, ecx1 = 0; // leaf 1
        unsigned ebx7 = 0, ecx7 = 0, edx7 = 0, rest = 0; // leaf 7
    };

    const Cpu & processor()
    {
        static const Cpu cpu = []() {
            Cpu c;
            const char * s = getenv( "VF_CPU" );
            if ( s )
                sscanf( s, "%x,%x,%x,%x,%x,%x,%x", &c.most, &c.edx1, &c.ecx1, &c.ebx7, &c.ecx7, &c.edx7, &c.rest );
            return c;
        }();
        return cpu;
    }
}

extern "C" void vf_cpuid( unsigned leaf, unsigned subleaf, unsigned * r )
{
    const Cpu & c = processor();
    if ( leaf == 0 ) {
        r[0] = c.most;
        r[1] = 0x756e6547; // GenuineIntel
        r[3] = 0x49656e69;
        r[2] = 0x6c65746e;
    }
    else if ( leaf > c.most && leaf < 0x80000000u ) { // processors answer with what they like
        r[0] = r[1] = r[2] = r[3] = c.rest;
    }
    else if ( leaf == 1 ) {
        r[0] = 0x000306a9;
        r[1] = 0x00100800;
        r[2] = c.ecx1;
        r[3] = c.edx1;
    }
    else if ( leaf == 7 && subleaf == 0 ) {
        r[0] = 1;
        r[1] = c.ebx7;
        r[2] = c.ecx7;
        r[3] = c.edx7;
    }
    else
        r[0] = r[1] = r[2] = r[3] = c.rest;
}

namespace
{
    const unsigned SSE2 = 1u << 26, AVX2 = 1u << 5;
    const unsigned AVX512[] = { 1u << 16 /*F*/, 1u << 17 /*DQ*/, 1u << 28 /*CD*/, 1u << 30 /*BW*/, 1u << 31 /*VL*/ };

    bool hasSse( const Cpu & c )
    {
        return c.most >= 1 && ( c.edx1 & SSE2 );
    }
    bool hasAvx( const Cpu & c )
    {
        return c.most >= 7 && ( c.ebx7 & AVX2 );
    }
    bool hasAvx512( const Cpu & c )
    {
        bool all = c.most >= 7;
        for ( unsigned b : AVX512 )
            all = all && ( c.ebx7 & b );
        return all;
    }

    const char * NAMES[] = { "AVX-512", "AVX", "SSE", "NEON", "plain" };

    // steps: (what, on) with what 0 everything, 1 AVX-512, 2 AVX, 3 SSE, 4 NEON
    std::string play( const Cpu & c, uint64_t seed, uint32_t steps, std::string & history, uint64_t * seen )
    {
        vf::Rng r( seed );
        bool on[5] = { true, true, true, true, true };
        for ( uint32_t k = 0; k <= steps; ++k ) {
            if ( k > 0 ) {
                const uint32_t what = r.u( 0, 4 );
                const bool enable = r.chance( 55 );
                history += vf::fmt( " %s%s", enable ? "+" : "-", what == 0 ? "all" : NAMES[what - 1] );
                switch ( what ) {
                case 0:
                    simd::EnableSimd( enable );
                    on[1] = on[2] = on[3] = on[4] = enable;
                    break;
                case 1:
                    simd::EnableAvx512( enable );
                    break;
                case 2:
                    simd::EnableAvx( enable );
                    break;
                case 3:
                    simd::EnableSse( enable );
                    break;
                default:
                    simd::EnableNeon( enable );
                    break;
                }
                on[what] = enable;
            }
            simd::SIMDType want = simd::cpu_function;
#ifdef __SSE2__
            if ( on[3] && hasSse( c ) )
                want = simd::sse_function;
#endif
#ifdef __AVX2__
            if ( on[2] && hasAvx( c ) )
                want = simd::avx_function;
#endif
#if defined( __AVX512BW__ ) && defined( __AVX512CD__ ) && defined( __AVX512DQ__ ) && defined( __AVX512F__ ) && defined( __AVX512VL__ )
            if ( on[1] && hasAvx512( c ) )
                want = simd::avx512_function;
#endif
            const simd::SIMDType got = simd::actualSimdType();
            ++seen[static_cast<int>( want )];
            if ( got != want )
                return vf::fmt( "%s is used instead of %s", NAMES[static_cast<int>( got )], NAMES[static_cast<int>( want )] );
        }
        return "";
    }

    // in the process with that processor
    int child( uint64_t seed, uint32_t steps )
    {
        std::string history;
        uint64_t seen[5] = { 0 };
        const Cpu & c = processor();
        std::string e = play( c, seed, steps, history, seen );
        typedef windows_::CpuInformation Win;
        if ( e.empty() && Win::isSseSupported() != hasSse( c ) )
            e = "on Windows SSE is detected wrongly";
        if ( e.empty() && Win::isAvxSupported() != hasAvx( c ) )
            e = "on Windows AVX2 is detected wrongly";
        if ( e.empty() && Win::isAvx512SKLSupported() != hasAvx512( c ) )
            e = "on Windows AVX-512 is detected wrongly";
        printf( "%llu %llu %llu %llu %llu\n%s\n%s\n", static_cast<unsigned long long>( seen[0] ), static_cast<unsigned long long>( seen[1] ),
                static_cast<unsigned long long>( seen[2] ), static_cast<unsigned long long>( seen[3] ), static_cast<unsigned long long>( seen[4] ),
                e.empty() ? "ok" : e.c_str(), history.c_str() );
        fflush( stdout );
        return 0;
    }

    bool ask( const std::string & cpu, uint64_t seed, uint32_t steps, std::string & out )
    {
        int p[2];
        if ( pipe( p ) != 0 )
            return false;
        const std::string a = vf::fmt( "%llu", static_cast<unsigned long long>( seed ) ), b = vf::fmt( "%u", steps );
        const pid_t pid = fork();
        if ( pid == 0 ) {
            dup2( p[1], 1 );
            close( p[0] );
            close( p[1] );
            setenv( "VF_CPU", cpu.c_str(), 1 );
            execl( "/proc/self/exe", "simd", "--child", a.c_str(), b.c_str(), static_cast<char *>( nullptr ) );
            _exit( 9 );
        }
        close( p[1] );
        char buf[4096];
        ssize_t n;
        while ( pid > 0 && ( n = read( p[0], buf, sizeof buf ) ) > 0 )
            out.append( buf, static_cast<size_t>( n ) );
        close( p[0] );
        int status = 0;
        if ( pid > 0 )
            waitpid( pid, &status, 0 );
        if ( pid > 0 && WIFEXITED( status ) && WEXITSTATUS( status ) == 9 )
            return false;
        if ( pid > 0 && ( !WIFEXITED( status ) || WEXITSTATUS( status ) != 0 ) )
            out = vf::fmt( "0 0 0 0 0\nthe process died with status %d\n\n", status );
        return pid > 0;
    }
}

int main( int argc, char ** argv )
{
    if ( argc == 4 && std::string( argv[1] ) == "--child" )
        return child( strtoull( argv[2], nullptr, 10 ), static_cast<uint32_t>( atoi( argv[3] ) ) );
    vf::Ctx ctx;
    ctx.parse( argc, argv );
    bool broken = false;
    ctx.loop( "S01", [&]( uint64_t idx, vf::Rng & r ) {
        Cpu c;
        c.most = r.chance( 70 ) ? r.u( 7, 32 ) : r.u( 0, 8 );
        c.edx1 = static_cast<unsigned>( r.next() );
        c.ecx1 = static_cast<unsigned>( r.next() );
        c.ebx7 = static_cast<unsigned>( r.next() );
        c.ecx7 = static_cast<unsigned>( r.next() );
        c.edx7 = static_cast<unsigned>( r.next() );
        c.rest = r.chance( 50 ) ? 0 : r.chance( 50 ) ? 0xffffffffu : static_cast<unsigned>( r.next() );
        if ( r.chance( 60 ) )
            c.edx1 |= SSE2;
        if ( r.chance( 40 ) )
            c.ebx7 |= AVX2;
        const uint32_t kind = r.u( 0, 3 );
        for ( unsigned b : AVX512 ) {
            if ( kind == 0 )
                c.ebx7 &= ~b;
            else if ( kind == 1 || ( kind == 2 && r.chance( 85 ) ) )
                c.ebx7 |= b;
        }
        const std::string cpu = vf::fmt( "%x,%x,%x,%x,%x,%x,%x", c.most, c.edx1, c.ecx1, c.ebx7, c.ecx7, c.edx7, c.rest );
        const uint64_t seed = r.next();
        const uint32_t steps = r.u( 0, 24 );
        const std::string what = vf::fmt( "processor that answers %u questions (SSE2 %d, AVX2 %d, AVX-512 F %d DQ %d CD %d BW %d VL %d)", c.most, ( c.edx1 & SSE2 ) != 0,
                                          ( c.ebx7 & AVX2 ) != 0, ( c.ebx7 & AVX512[0] ) != 0, ( c.ebx7 & AVX512[1] ) != 0, ( c.ebx7 & AVX512[2] ) != 0,
                                          ( c.ebx7 & AVX512[3] ) != 0, ( c.ebx7 & AVX512[4] ) != 0 );
        ctx.begin( idx, what );
        std::string out;
        if ( !ask( cpu, seed, steps, out ) ) {
            broken = true;
            return;
        }
        std::istringstream s( out );
        uint64_t seen[5] = { 0 };
        std::string verdict, history;
        for ( uint64_t & v : seen )
            s >> v;
        std::getline( s, verdict );
        std::getline( s, verdict );
        std::getline( s, history );
        for ( int k = 0; k < 5; ++k ) {
            ctx.evaluations += seen[k];
            if ( seen[k] )
                ctx.hit( vf::fmt( "choices of %s", NAMES[k] ), seen[k] );
        }
        ctx.hit( "processors" );
        ctx.distinct.insert( vf::hashStr( cpu + history ) );
        if ( idx < 6 )
            ctx.sample( what + ":" + history );
        if ( verdict != "ok" )
            ctx.fail( "simd/" + verdict, what + ", steps" + history + ": " + verdict );
    } );
    if ( broken ) {
        fprintf( stderr, "cannot start a process\n" );
        return 3;
    }
    return ctx.finish();
}
