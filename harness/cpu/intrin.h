// What the header of Visual C++ gives, for the processor the monitor describes.
#pragma once
#include <cpuid.h>
static inline void vf_win_cpuid( int * info, int leaf, int subleaf )
{
    unsigned r[4];
    vf_cpuid( static_cast<unsigned>( leaf ), static_cast<unsigned>( subleaf ), r );
    for ( int k = 0; k < 4; ++k )
        info[k] = static_cast<int>( r[k] );
}
#undef __cpuid
#define __cpuidex( info, leaf, subleaf ) vf_win_cpuid( info, leaf, subleaf )
#define __cpuid( info, leaf ) vf_win_cpuid( info, leaf, 0 )
