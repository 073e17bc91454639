// Stand-in of the CUDA runtime: kernels run on the CPU, as late and in as unusual an order as the rules of streams allow.
#pragma once
#include <functional>
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <algorithm>
#include <cmath>
#include <stdio.h>
#include <string.h>

#define __global__
#define __device__
#define __host__
#define __constant__
#define __forceinline__ inline
#define __restrict__ __restrict
#define __launch_bounds__( ... )
#define CUDART_CB

enum cudaError
{
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorInitializationError = 3,
    cudaErrorInvalidConfiguration = 9,
    cudaErrorInvalidPitchValue = 12,
    cudaErrorInvalidMemcpyDirection = 21,
    cudaErrorNoDevice = 100,
    cudaErrorInvalidDevice = 101,
    cudaErrorInvalidResourceHandle = 400,
    cudaErrorNotReady = 600,
    cudaErrorLaunchFailure = 719,
    cudaErrorUnknown = 999
};
typedef cudaError cudaError_t;

enum cudaMemcpyKind
{
    cudaMemcpyHostToHost = 0,
    cudaMemcpyHostToDevice = 1,
    cudaMemcpyDeviceToHost = 2,
    cudaMemcpyDeviceToDevice = 3,
    cudaMemcpyDefault = 4
};
enum
{
    cudaStreamDefault = 0,
    cudaStreamNonBlocking = 1,
    cudaHostAllocDefault = 0
};

struct uint3
{
    unsigned int x, y, z;
};
struct dim3
{
    unsigned int x, y, z;
    dim3( unsigned int x_ = 1, unsigned int y_ = 1, unsigned int z_ = 1 )
        : x( x_ )
        , y( y_ )
        , z( z_ )
    {}
};
struct cudaDeviceProp
{
    char name[256];
    size_t totalGlobalMem;
    size_t sharedMemPerBlock;
    int warpSize;
    int maxThreadsPerBlock;
    int maxThreadsDim[3];
    int maxGridSize[3];
    int major, minor;
    int asyncEngineCount;
    int multiProcessorCount;
};
typedef struct vfCudaStream * cudaStream_t;
typedef struct vfCudaEvent * cudaEvent_t;
typedef void( CUDART_CB * cudaStreamCallback_t )( cudaStream_t stream, cudaError_t status, void * userData );

cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
const char * cudaGetErrorString( cudaError_t error );
cudaError_t cudaGetDeviceCount( int * count );
cudaError_t cudaGetDeviceProperties( cudaDeviceProp * property, int device );
cudaError_t cudaSetDevice( int device );
cudaError_t cudaGetDevice( int * device );
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaMemGetInfo( size_t * free, size_t * total );
cudaError_t vfCudaMalloc( void ** data, size_t size );
cudaError_t vfCudaMallocHost( void ** data, size_t size );
cudaError_t cudaFree( void * data );
cudaError_t cudaFreeHost( void * data );
cudaError_t cudaMemcpy( void * out, const void * in, size_t size, cudaMemcpyKind kind );
cudaError_t cudaMemcpyAsync( void * out, const void * in, size_t size, cudaMemcpyKind kind, cudaStream_t stream = 0 );
cudaError_t cudaMemcpy2D( void * out, size_t pitchOut, const void * in, size_t pitchIn, size_t width, size_t height, cudaMemcpyKind kind );
cudaError_t cudaMemcpy2DAsync( void * out, size_t pitchOut, const void * in, size_t pitchIn, size_t width, size_t height, cudaMemcpyKind kind, cudaStream_t stream = 0 );
cudaError_t cudaMemset( void * data, int value, size_t size );
cudaError_t cudaMemsetAsync( void * data, int value, size_t size, cudaStream_t stream = 0 );
cudaError_t cudaMemset2D( void * data, size_t pitch, int value, size_t width, size_t height );
cudaError_t cudaMemset2DAsync( void * data, size_t pitch, int value, size_t width, size_t height, cudaStream_t stream = 0 );
cudaError_t cudaStreamCreate( cudaStream_t * stream );
cudaError_t cudaStreamCreateWithFlags( cudaStream_t * stream, unsigned int flags );
cudaError_t cudaStreamDestroy( cudaStream_t stream );
cudaError_t cudaStreamSynchronize( cudaStream_t stream );
cudaError_t cudaStreamQuery( cudaStream_t stream );
cudaError_t cudaStreamAddCallback( cudaStream_t stream, cudaStreamCallback_t callback, void * data, unsigned int flags );
cudaError_t cudaEventCreate( cudaEvent_t * event );
cudaError_t cudaEventDestroy( cudaEvent_t event );
cudaError_t cudaEventRecord( cudaEvent_t event, cudaStream_t stream = 0 );
cudaError_t cudaEventSynchronize( cudaEvent_t event );
cudaError_t cudaEventElapsedTime( float * ms, cudaEvent_t start, cudaEvent_t stop );

template <typename T>
cudaError_t cudaMalloc( T ** data, size_t size )
{
    void * p = nullptr;
    const cudaError_t e = vfCudaMalloc( &p, size );
    if ( e == cudaSuccess )
        *data = static_cast<T *>( p );
    return e;
}
template <typename T>
cudaError_t cudaMallocHost( T ** data, size_t size, unsigned int = 0 )
{
    void * p = nullptr;
    const cudaError_t e = vfCudaMallocHost( &p, size );
    if ( e == cudaSuccess )
        *data = static_cast<T *>( p );
    return e;
}
template <typename T>
cudaError_t cudaHostAlloc( T ** data, size_t size, unsigned int flags )
{
    return cudaMallocHost( data, size, flags );
}

// within a kernel
extern __thread uint3 threadIdx;
extern __thread uint3 blockIdx;
extern __thread uint3 blockDim;
extern __thread uint3 gridDim;
static const int warpSize = 32;

#define VF_ATOMIC( T )                                                                                                                                                   \
    inline T atomicAdd( T * p, T v ) { return __atomic_fetch_add( p, v, __ATOMIC_RELAXED ); }                                                                            \
    inline T atomicSub( T * p, T v ) { return __atomic_fetch_sub( p, v, __ATOMIC_RELAXED ); }                                                                            \
    inline T atomicAnd( T * p, T v ) { return __atomic_fetch_and( p, v, __ATOMIC_RELAXED ); }                                                                            \
    inline T atomicOr( T * p, T v ) { return __atomic_fetch_or( p, v, __ATOMIC_RELAXED ); }                                                                              \
    inline T atomicXor( T * p, T v ) { return __atomic_fetch_xor( p, v, __ATOMIC_RELAXED ); }                                                                            \
    inline T atomicExch( T * p, T v ) { return __atomic_exchange_n( p, v, __ATOMIC_RELAXED ); }                                                                          \
    inline T atomicCAS( T * p, T c, T v )                                                                                                                                \
    {                                                                                                                                                                    \
        __atomic_compare_exchange_n( p, &c, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED );                                                                              \
        return c;                                                                                                                                                        \
    }                                                                                                                                                                    \
    inline T atomicMin( T * p, T v )                                                                                                                                     \
    {                                                                                                                                                                    \
        T c = __atomic_load_n( p, __ATOMIC_RELAXED );                                                                                                                    \
        while ( v < c && !__atomic_compare_exchange_n( p, &c, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED ) ) {}                                                        \
        return c;                                                                                                                                                        \
    }                                                                                                                                                                    \
    inline T atomicMax( T * p, T v )                                                                                                                                     \
    {                                                                                                                                                                    \
        T c = __atomic_load_n( p, __ATOMIC_RELAXED );                                                                                                                    \
        while ( c < v && !__atomic_compare_exchange_n( p, &c, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED ) ) {}                                                        \
        return c;                                                                                                                                                        \
    }
VF_ATOMIC( int )
VF_ATOMIC( unsigned int )
VF_ATOMIC( unsigned long long )
#undef VF_ATOMIC

using std::max;
using std::min;

namespace vfcuda
{
    struct Config
    {
        dim3 grid, block;
        size_t shared;
        cudaStream_t stream;
    };
    // work: what one thread does
    void submit( const Config & c, std::function<void()> work, const std::vector<const void *> & pointers );

    template <typename T>
    typename std::enable_if<std::is_pointer<T>::value && !std::is_function<typename std::remove_pointer<T>::type>::value>::type pointer( std::vector<const void *> & v, T p )
    {
        v.push_back( static_cast<const void *>( p ) );
    }
    template <typename T>
    typename std::enable_if<!std::is_pointer<T>::value || std::is_function<typename std::remove_pointer<T>::type>::value>::type pointer( std::vector<const void *> &, const T & )
    {}

    template <typename F>
    struct Call
    {
        Config c;
        F f;
        template <typename... A>
        void operator()( A... a ) const
        {
            std::vector<const void *> p;
            int order[] = { 0, ( pointer( p, a ), 0 )... };
            (void)order;
            F g = f;
            submit( c, [g, a...]() { g( a... ); }, p );
        }
    };
    struct Launch
    {
        Config c;
        Launch( dim3 grid, dim3 block, size_t shared = 0, cudaStream_t stream = 0 )
            : c{ grid, block, shared, stream }
        {}
        template <typename F>
        Call<F> run( F f ) const
        {
            return Call<F>{ c, f };
        }
    };
}
