// Stand-in of the cuFFT library
#pragma once
#include <cuda_runtime.h>

struct cufftComplex
{
    float x, y;
};
typedef int cufftHandle;
enum cufftResult
{
    CUFFT_SUCCESS = 0,
    CUFFT_INVALID_PLAN = 1,
    CUFFT_ALLOC_FAILED = 2,
    CUFFT_INVALID_VALUE = 4,
    CUFFT_EXEC_FAILED = 6,
    CUFFT_INVALID_SIZE = 8
};
enum cufftType
{
    CUFFT_C2C = 0x29
};
enum
{
    CUFFT_FORWARD = -1,
    CUFFT_INVERSE = 1
};
cufftResult cufftPlan2d( cufftHandle * plan, int nx, int ny, cufftType type );
cufftResult cufftDestroy( cufftHandle plan );
cufftResult cufftSetStream( cufftHandle plan, cudaStream_t stream );
cufftResult cufftExecC2C( cufftHandle plan, cufftComplex * in, cufftComplex * out, int direction );
