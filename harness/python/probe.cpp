// Linked into the Python module: every block of the C++ part is counted and freed blocks lose their contents.
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>

namespace
{
    std::atomic<long long> blocks{ 0 }, bytes{ 0 };
    void * take( size_t n )
    {
        if ( n > ( static_cast<size_t>( 1 ) << 33 ) )
            return nullptr;
        void * p = malloc( n ? n : 1 );
        if ( p ) {
            ++blocks;
            bytes += static_cast<long long>( malloc_usable_size( p ) );
            memset( p, 0xA7, n );
        }
        return p;
    }
    void drop( void * p )
    {
        if ( p == nullptr )
            return;
        const size_t n = malloc_usable_size( p );
        --blocks;
        bytes -= static_cast<long long>( n );
        memset( p, 0xDD, n );
        free( p );
    }
}
#ifndef VF_PYTHON_ASAN
void * operator new( size_t n )
{
    void * p = take( n );
    if ( p == nullptr )
        throw std::bad_alloc();
    return p;
}
void * operator new[]( size_t n )
{
    return operator new( n );
}
void * operator new( size_t n, const std::nothrow_t & ) noexcept
{
    return take( n );
}
void * operator new[]( size_t n, const std::nothrow_t & ) noexcept
{
    return take( n );
}
void operator delete( void * p ) noexcept
{
    drop( p );
}
void operator delete[]( void * p ) noexcept
{
    drop( p );
}
void operator delete( void * p, size_t ) noexcept
{
    drop( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    drop( p );
}
void operator delete( void * p, const std::nothrow_t & ) noexcept
{
    drop( p );
}
void operator delete[]( void * p, const std::nothrow_t & ) noexcept
{
    drop( p );
}
#endif
extern "C" long long vf_live_blocks()
{
    return blocks;
}
extern "C" long long vf_live_bytes()
{
    return bytes;
}
