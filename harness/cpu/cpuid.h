// Stands in for the header of the compiler: the processor is the one the monitor describes.
#pragma once
extern "C" void vf_cpuid( unsigned leaf, unsigned subleaf, unsigned * r );
#define VF_CPUID( leaf, subleaf, a, b, c, d )                                                                                                                            \
    do {                                                                                                                                                                 \
        unsigned vf_r[4];                                                                                                                                                \
        vf_cpuid( ( leaf ), ( subleaf ), vf_r );                                                                                                                         \
        ( a ) = vf_r[0];                                                                                                                                                 \
        ( b ) = vf_r[1];                                                                                                                                                 \
        ( c ) = vf_r[2];                                                                                                                                                 \
        ( d ) = vf_r[3];                                                                                                                                                 \
    } while ( 0 )
#define __cpuid_count( leaf, subleaf, a, b, c, d ) VF_CPUID( leaf, subleaf, a, b, c, d )
#define __cpuid( leaf, a, b, c, d ) VF_CPUID( leaf, 0, a, b, c, d )
static inline unsigned __get_cpuid_max( unsigned ext, unsigned * )
{
    unsigned r[4];
    vf_cpuid( ext, 0, r );
    return r[0];
}
static inline int __get_cpuid_count( unsigned leaf, unsigned subleaf, unsigned * a, unsigned * b, unsigned * c, unsigned * d )
{
    const unsigned most = __get_cpuid_max( leaf & 0x80000000u, nullptr );
    if ( most == 0 || most < leaf )
        return 0;
    VF_CPUID( leaf, subleaf, *a, *b, *c, *d );
    return 1;
}
static inline int __get_cpuid( unsigned leaf, unsigned * a, unsigned * b, unsigned * c, unsigned * d )
{
    return __get_cpuid_count( leaf, 0, a, b, c, d );
}
