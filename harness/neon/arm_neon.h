// The NEON intrinsics in plain C++, lane by lane, after Arm's definitions: lets the NEON code of the library run on this
// machine. Loads and stores touch exactly the bytes they name, so that the sanitizers see the accesses of the library.
#pragma once
#include <cstdint>
#include <cstring>
#include <type_traits>

#define VFN_TYPE( T, N, NAME )                                                                                                                                     \
    struct NAME                                                                                                                                                    \
    {                                                                                                                                                              \
        T v[N];                                                                                                                                                    \
    };
VFN_TYPE( uint8_t, 8, uint8x8_t )
VFN_TYPE( uint8_t, 16, uint8x16_t )
VFN_TYPE( int8_t, 8, int8x8_t )
VFN_TYPE( int8_t, 16, int8x16_t )
VFN_TYPE( uint16_t, 4, uint16x4_t )
VFN_TYPE( uint16_t, 8, uint16x8_t )
VFN_TYPE( int16_t, 4, int16x4_t )
VFN_TYPE( int16_t, 8, int16x8_t )
VFN_TYPE( uint32_t, 2, uint32x2_t )
VFN_TYPE( uint32_t, 4, uint32x4_t )
VFN_TYPE( int32_t, 2, int32x2_t )
VFN_TYPE( int32_t, 4, int32x4_t )
VFN_TYPE( uint64_t, 1, uint64x1_t )
VFN_TYPE( uint64_t, 2, uint64x2_t )
VFN_TYPE( int64_t, 1, int64x1_t )
VFN_TYPE( int64_t, 2, int64x2_t )

namespace vfn
{
    template <typename V>
    inline unsigned lanes()
    {
        return sizeof( V ) / sizeof( V().v[0] );
    }
    template <typename R, typename A, typename F>
    inline R map( const A & a, F f )
    {
        R r;
        for ( unsigned k = 0; k < lanes<R>(); ++k )
            r.v[k] = static_cast<typename std::remove_reference<decltype( r.v[k] )>::type>( f( a.v[k] ) );
        return r;
    }
    template <typename R, typename A, typename B, typename F>
    inline R map( const A & a, const B & b, F f )
    {
        R r;
        for ( unsigned k = 0; k < lanes<R>(); ++k )
            r.v[k] = static_cast<typename std::remove_reference<decltype( r.v[k] )>::type>( f( a.v[k], b.v[k] ) );
        return r;
    }
    template <typename V, typename T>
    inline V all( T x )
    {
        V r;
        for ( auto & e : r.v )
            e = x;
        return r;
    }
    template <typename V, typename T>
    inline V load( const T * p )
    {
        V r;
        for ( unsigned k = 0; k < lanes<V>(); ++k )
            std::memcpy( &r.v[k], p + k, sizeof( T ) );
        return r;
    }
    template <typename V, typename T>
    inline void store( T * p, const V & x )
    {
        for ( unsigned k = 0; k < lanes<V>(); ++k )
            std::memcpy( p + k, &x.v[k], sizeof( T ) );
    }
    template <typename R, typename A>
    inline R as( const A & a )
    {
        static_assert( sizeof( R ) == sizeof( A ), "" );
        R r;
        std::memcpy( &r, &a, sizeof( r ) );
        return r;
    }
    template <typename T>
    inline T saturated( __int128 x )
    {
        const __int128 low = static_cast<T>( -1 ) < static_cast<T>( 1 ) ? -( static_cast<__int128>( 1 ) << ( 8 * sizeof( T ) - 1 ) ) : 0;
        const __int128 high = low ? -low - 1 : ( static_cast<__int128>( 1 ) << ( 8 * sizeof( T ) ) ) - 1;
        return static_cast<T>( x < low ? low : ( x > high ? high : x ) );
    }
    template <typename V>
    inline V reversed( const V & x, unsigned group )
    {
        V r;
        for ( unsigned k = 0; k < lanes<V>(); ++k )
            r.v[k] = x.v[k / group * group + ( group - 1 - k % group )];
        return r;
    }
}

// S: suffix, T: type of a lane, D: 64 bit vector, Q: 128 bit vector, U: unsigned lane
#define VFN_BOTH( OP, S, T, D, Q, UD, UQ, W ) OP( , S, T, D, UD, W ) OP( q, S, T, Q, UQ, W )
#define VFN_ALL( OP )                                                                                                                                              \
    VFN_BOTH( OP, u8, uint8_t, uint8x8_t, uint8x16_t, uint8x8_t, uint8x16_t, uint32_t )                                                                            \
    VFN_BOTH( OP, s8, int8_t, int8x8_t, int8x16_t, uint8x8_t, uint8x16_t, int32_t )                                                                                \
    VFN_BOTH( OP, u16, uint16_t, uint16x4_t, uint16x8_t, uint16x4_t, uint16x8_t, uint32_t )                                                                        \
    VFN_BOTH( OP, s16, int16_t, int16x4_t, int16x8_t, uint16x4_t, uint16x8_t, int32_t )                                                                            \
    VFN_BOTH( OP, u32, uint32_t, uint32x2_t, uint32x4_t, uint32x2_t, uint32x4_t, uint64_t )                                                                        \
    VFN_BOTH( OP, s32, int32_t, int32x2_t, int32x4_t, uint32x2_t, uint32x4_t, int64_t )                                                                            \
    VFN_BOTH( OP, u64, uint64_t, uint64x1_t, uint64x2_t, uint64x1_t, uint64x2_t, uint64_t )                                                                        \
    VFN_BOTH( OP, s64, int64_t, int64x1_t, int64x2_t, uint64x1_t, uint64x2_t, int64_t )


#define VFN_OPS( q, S, T, V, U, W )                                                                                                                                \
    inline V vadd##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return static_cast<T>( static_cast<uint64_t>( x ) + static_cast<uint64_t>( y ) ); } ); } \
    inline V vsub##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return static_cast<T>( static_cast<uint64_t>( x ) - static_cast<uint64_t>( y ) ); } ); } \
    inline V vmul##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return static_cast<T>( static_cast<uint64_t>( x ) * static_cast<uint64_t>( y ) ); } ); } \
    inline V vmla##q##_##S( V a, V b, V c ) { return vadd##q##_##S( a, vmul##q##_##S( b, c ) ); }                                                                  \
    inline V vmls##q##_##S( V a, V b, V c ) { return vsub##q##_##S( a, vmul##q##_##S( b, c ) ); }                                                                  \
    inline V vqadd##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return vfn::saturated<T>( static_cast<__int128>( x ) + y ); } ); }             \
    inline V vqsub##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return vfn::saturated<T>( static_cast<__int128>( x ) - y ); } ); }             \
    inline V vhadd##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return static_cast<T>( ( static_cast<__int128>( x ) + y ) >> 1 ); } ); }       \
    inline V vrhadd##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return static_cast<T>( ( static_cast<__int128>( x ) + y + 1 ) >> 1 ); } ); }  \
    inline V vmin##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return x < y ? x : y; } ); }                                                    \
    inline V vmax##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return x < y ? y : x; } ); }                                                    \
    inline V vabd##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return static_cast<T>( x < y ? static_cast<uint64_t>( y ) - static_cast<uint64_t>( x ) : static_cast<uint64_t>( x ) - static_cast<uint64_t>( y ) ); } ); } \
    inline V vaba##q##_##S( V a, V b, V c ) { return vadd##q##_##S( a, vabd##q##_##S( b, c ) ); }                                                                   \
    inline V vand##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return x & y; } ); }                                                            \
    inline V vorr##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return x | y; } ); }                                                            \
    inline V veor##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return x ^ y; } ); }                                                            \
    inline V vbic##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return x & ~y; } ); }                                                           \
    inline V vorn##q##_##S( V a, V b ) { return vfn::map<V>( a, b, []( T x, T y ) { return x | ~y; } ); }                                                           \
    inline V vmvn##q##_##S( V a ) { return vfn::map<V>( a, []( T x ) { return static_cast<T>( ~x ); } ); }                                                          \
    inline U vceq##q##_##S( V a, V b ) { return vfn::map<U>( a, b, []( T x, T y ) { return x == y ? -1 : 0; } ); }                                                  \
    inline U vcgt##q##_##S( V a, V b ) { return vfn::map<U>( a, b, []( T x, T y ) { return x > y ? -1 : 0; } ); }                                                   \
    inline U vcge##q##_##S( V a, V b ) { return vfn::map<U>( a, b, []( T x, T y ) { return x >= y ? -1 : 0; } ); }                                                  \
    inline U vclt##q##_##S( V a, V b ) { return vfn::map<U>( a, b, []( T x, T y ) { return x < y ? -1 : 0; } ); }                                                   \
    inline U vcle##q##_##S( V a, V b ) { return vfn::map<U>( a, b, []( T x, T y ) { return x <= y ? -1 : 0; } ); }                                                  \
    inline U vtst##q##_##S( V a, V b ) { return vfn::map<U>( a, b, []( T x, T y ) { return ( x & y ) != 0 ? -1 : 0; } ); }                                          \
    inline V vbsl##q##_##S( U m, V a, V b )                                                                                                                         \
    {                                                                                                                                                               \
        V r;                                                                                                                                                        \
        for ( unsigned k = 0; k < vfn::lanes<V>(); ++k )                                                                                                            \
            r.v[k] = static_cast<T>( ( a.v[k] & m.v[k] ) | ( b.v[k] & ~m.v[k] ) );                                                                                  \
        return r;                                                                                                                                                   \
    }                                                                                                                                                               \
    inline V vdup##q##_n_##S( T x ) { return vfn::all<V>( x ); }                                                                                                    \
    inline V vmov##q##_n_##S( T x ) { return vfn::all<V>( x ); }                                                                                                    \
    inline V vld1##q##_##S( const T * p ) { return vfn::load<V>( p ); }                                                                                             \
    inline V vld1##q##_dup_##S( const T * p ) { return vfn::all<V>( *p ); }                                                                                         \
    inline void vst1##q##_##S( T * p, V x ) { vfn::store( p, x ); }                                                                                                 \
    inline T vget##q##_lane_##S( V x, int k ) { return x.v[k]; }                                                                                                    \
    inline V vset##q##_lane_##S( T t, V x, int k )                                                                                                                  \
    {                                                                                                                                                               \
        x.v[k] = t;                                                                                                                                                 \
        return x;                                                                                                                                                   \
    }                                                                                                                                                               \
    inline V vshl##q##_n_##S( V a, int n ) { return vfn::map<V>( a, [n]( T x ) { return static_cast<T>( static_cast<uint64_t>( x ) << n ); } ); }                   \
    inline V vshr##q##_n_##S( V a, int n ) { return vfn::map<V>( a, [n]( T x ) { return static_cast<T>( static_cast<__int128>( x ) >> n ); } ); }                   \
    inline V vext##q##_##S( V a, V b, int n )                                                                                                                       \
    {                                                                                                                                                               \
        V r;                                                                                                                                                        \
        const int c = static_cast<int>( vfn::lanes<V>() );                                                                                                          \
        for ( int k = 0; k < c; ++k )                                                                                                                               \
            r.v[k] = k + n < c ? a.v[k + n] : b.v[k + n - c];                                                                                                       \
        return r;                                                                                                                                                   \
    }                                                                                                                                                               \
    inline T vaddv##q##_##S( V a )                                                                                                                                  \
    {                                                                                                                                                               \
        uint64_t s = 0;                                                                                                                                             \
        for ( T x : a.v )                                                                                                                                           \
            s += static_cast<uint64_t>( x );                                                                                                                        \
        return static_cast<T>( s );                                                                                                                                 \
    }                                                                                                                                                               \
    inline T vmaxv##q##_##S( V a )                                                                                                                                  \
    {                                                                                                                                                               \
        T s = a.v[0];                                                                                                                                               \
        for ( T x : a.v )                                                                                                                                           \
            s = x > s ? x : s;                                                                                                                                      \
        return s;                                                                                                                                                   \
    }                                                                                                                                                               \
    inline T vminv##q##_##S( V a )                                                                                                                                  \
    {                                                                                                                                                               \
        T s = a.v[0];                                                                                                                                               \
        for ( T x : a.v )                                                                                                                                           \
            s = x < s ? x : s;                                                                                                                                      \
        return s;                                                                                                                                                   \
    }
VFN_ALL( VFN_OPS )

// halves of a vector
#define VFN_HALF( S, T, D, Q )                                                                                                                                     \
    inline D vget_low_##S( Q x ) { return vfn::load<D>( x.v ); }                                                                                                   \
    inline D vget_high_##S( Q x ) { return vfn::load<D>( x.v + vfn::lanes<D>() ); }                                                                                \
    inline Q vcombine_##S( D a, D b )                                                                                                                              \
    {                                                                                                                                                              \
        Q r;                                                                                                                                                       \
        vfn::store( r.v, a );                                                                                                                                      \
        vfn::store( r.v + vfn::lanes<D>(), b );                                                                                                                    \
        return r;                                                                                                                                                  \
    }                                                                                                                                                              \
    inline D vcreate_##S( uint64_t x ) { return vfn::as<D>( x ); }
VFN_HALF( u8, uint8_t, uint8x8_t, uint8x16_t )
VFN_HALF( s8, int8_t, int8x8_t, int8x16_t )
VFN_HALF( u16, uint16_t, uint16x4_t, uint16x8_t )
VFN_HALF( s16, int16_t, int16x4_t, int16x8_t )
VFN_HALF( u32, uint32_t, uint32x2_t, uint32x4_t )
VFN_HALF( s32, int32_t, int32x2_t, int32x4_t )
VFN_HALF( u64, uint64_t, uint64x1_t, uint64x2_t )
VFN_HALF( s64, int64_t, int64x1_t, int64x2_t )

// between lanes of N bits and lanes of 2N bits; S, T, D, Q: narrow, WS, WT, WQ: wide
#define VFN_WIDE( S, T, D, Q, WS, WT, WD, WQ )                                                                                                                     \
    inline WQ vmovl_##S( D a ) { return vfn::map<WQ>( a, []( T x ) { return static_cast<WT>( x ); } ); }                                                           \
    inline WQ vmovl_high_##S( Q a ) { return vmovl_##S( vget_high_##S( a ) ); }                                                                                     \
    inline WQ vaddl_##S( D a, D b ) { return vaddq_##WS( vmovl_##S( a ), vmovl_##S( b ) ); }                                                                      \
    inline WQ vsubl_##S( D a, D b ) { return vsubq_##WS( vmovl_##S( a ), vmovl_##S( b ) ); }                                                                      \
    inline WQ vmull_##S( D a, D b ) { return vmulq_##WS( vmovl_##S( a ), vmovl_##S( b ) ); }                                                                        \
    inline WQ vmlal_##S( WQ s, D a, D b ) { return vaddq_##WS( s, vmull_##S( a, b ) ); }                                                                            \
    inline WQ vabdl_##S( D a, D b ) { return vabdq_##WS( vmovl_##S( a ), vmovl_##S( b ) ); }                                                                        \
    inline WQ vabal_##S( WQ s, D a, D b ) { return vaddq_##WS( s, vabdl_##S( a, b ) ); }                                                                            \
    inline WQ vaddw_##S( WQ a, D b ) { return vaddq_##WS( a, vmovl_##S( b ) ); }                                                                                    \
    inline WQ vsubw_##S( WQ a, D b ) { return vsubq_##WS( a, vmovl_##S( b ) ); }                                                                                    \
    inline WQ vaddl_high_##S( Q a, Q b ) { return vaddl_##S( vget_high_##S( a ), vget_high_##S( b ) ); }                                                            \
    inline WQ vaddw_high_##S( WQ a, Q b ) { return vaddw_##S( a, vget_high_##S( b ) ); }                                                                            \
    inline WQ vshll_n_##S( D a, int n ) { return vshlq_n_##WS( vmovl_##S( a ), n ); }                                                                               \
    inline D vmovn_##WS( WQ a ) { return vfn::map<D>( a, []( WT x ) { return static_cast<T>( x ); } ); }                                                            \
    inline D vqmovn_##WS( WQ a ) { return vfn::map<D>( a, []( WT x ) { return vfn::saturated<T>( x ); } ); }                                                        \
    inline D vshrn_n_##WS( WQ a, int n ) { return vmovn_##WS( vshrq_n_##WS( a, n ) ); }                                                                             \
    inline D vrshrn_n_##WS( WQ a, int n ) { return vfn::map<D>( a, [n]( WT x ) { return static_cast<T>( ( static_cast<__int128>( x ) + ( static_cast<__int128>( 1 ) << ( n - 1 ) ) ) >> n ); } ); } \
    inline D vqshrn_n_##WS( WQ a, int n ) { return vqmovn_##WS( vshrq_n_##WS( a, n ) ); }                                                                           \
    inline WD vpaddl_##S( D a )                                                                                                                                     \
    {                                                                                                                                                               \
        WD r;                                                                                                                                                       \
        for ( unsigned k = 0; k < vfn::lanes<WD>(); ++k )                                                                                                           \
            r.v[k] = static_cast<WT>( static_cast<WT>( a.v[2 * k] ) + static_cast<WT>( a.v[2 * k + 1] ) );                                                          \
        return r;                                                                                                                                                   \
    }                                                                                                                                                               \
    inline WQ vpaddlq_##S( Q a )                                                                                                                                    \
    {                                                                                                                                                               \
        WQ r;                                                                                                                                                       \
        for ( unsigned k = 0; k < vfn::lanes<WQ>(); ++k )                                                                                                           \
            r.v[k] = static_cast<WT>( static_cast<WT>( a.v[2 * k] ) + static_cast<WT>( a.v[2 * k + 1] ) );                                                          \
        return r;                                                                                                                                                   \
    }                                                                                                                                                               \
    inline WD vpadal_##S( WD s, D a ) { return vadd_##WS( s, vpaddl_##S( a ) ); }                                                                                   \
    inline WQ vpadalq_##S( WQ s, Q a ) { return vaddq_##WS( s, vpaddlq_##S( a ) ); }                                                                                \
    inline WT vaddlv_##S( D a ) { return vaddvq_##WS( vmovl_##S( a ) ); }                                                                                           \
    inline WT vaddlvq_##S( Q a ) { return static_cast<WT>( vaddlv_##S( vget_low_##S( a ) ) + vaddlv_##S( vget_high_##S( a ) ) ); }
VFN_WIDE( u8, uint8_t, uint8x8_t, uint8x16_t, u16, uint16_t, uint16x4_t, uint16x8_t )
VFN_WIDE( s8, int8_t, int8x8_t, int8x16_t, s16, int16_t, int16x4_t, int16x8_t )
VFN_WIDE( u16, uint16_t, uint16x4_t, uint16x8_t, u32, uint32_t, uint32x2_t, uint32x4_t )
VFN_WIDE( s16, int16_t, int16x4_t, int16x8_t, s32, int32_t, int32x2_t, int32x4_t )
VFN_WIDE( u32, uint32_t, uint32x2_t, uint32x4_t, u64, uint64_t, uint64x1_t, uint64x2_t )
VFN_WIDE( s32, int32_t, int32x2_t, int32x4_t, s64, int64_t, int64x1_t, int64x2_t )

// sums of neighbours
#define VFN_PAIR( S, T, D )                                                                                                                                        \
    inline D vpadd_##S( D a, D b )                                                                                                                                 \
    {                                                                                                                                                              \
        D r;                                                                                                                                                       \
        const unsigned c = vfn::lanes<D>() / 2;                                                                                                                    \
        for ( unsigned k = 0; k < c; ++k ) {                                                                                                                       \
            r.v[k] = static_cast<T>( a.v[2 * k] + a.v[2 * k + 1] );                                                                                                \
            r.v[k + c] = static_cast<T>( b.v[2 * k] + b.v[2 * k + 1] );                                                                                            \
        }                                                                                                                                                          \
        return r;                                                                                                                                                  \
    }
VFN_PAIR( u8, uint8_t, uint8x8_t )
VFN_PAIR( u16, uint16_t, uint16x4_t )
VFN_PAIR( u32, uint32_t, uint32x2_t )
VFN_PAIR( s8, int8_t, int8x8_t )
VFN_PAIR( s16, int16_t, int16x4_t )
VFN_PAIR( s32, int32_t, int32x2_t )

// the order of lanes
#define VFN_REV( BITS, S, D, Q )                                                                                                                                   \
    inline D vrev##BITS##_##S( D x ) { return vfn::reversed( x, BITS / 8 / sizeof( x.v[0] ) ); }                                                                   \
    inline Q vrev##BITS##q_##S( Q x ) { return vfn::reversed( x, BITS / 8 / sizeof( x.v[0] ) ); }
VFN_REV( 64, u8, uint8x8_t, uint8x16_t )
VFN_REV( 32, u8, uint8x8_t, uint8x16_t )
VFN_REV( 16, u8, uint8x8_t, uint8x16_t )
VFN_REV( 64, u16, uint16x4_t, uint16x8_t )
VFN_REV( 32, u16, uint16x4_t, uint16x8_t )
VFN_REV( 64, u32, uint32x2_t, uint32x4_t )

// tables of bytes: an index out of range gives 0
struct uint8x8x2_t
{
    uint8x8_t val[2];
};
struct uint8x8x3_t
{
    uint8x8_t val[3];
};
struct uint8x8x4_t
{
    uint8x8_t val[4];
};
struct uint8x16x2_t
{
    uint8x16_t val[2];
};
struct uint8x16x3_t
{
    uint8x16_t val[3];
};
struct uint8x16x4_t
{
    uint8x16_t val[4];
};
namespace vfn
{
    template <typename I>
    inline I table( const void * t, unsigned size, const I & index )
    {
        I r;
        for ( unsigned k = 0; k < lanes<I>(); ++k )
            r.v[k] = index.v[k] < size ? static_cast<const uint8_t *>( t )[index.v[k]] : 0;
        return r;
    }
    template <typename V, typename E>
    inline V loadSeparated( const uint8_t * p )
    {
        V r;
        const unsigned n = sizeof( V ) / sizeof( E );
        for ( unsigned k = 0; k < lanes<E>(); ++k )
            for ( unsigned j = 0; j < n; ++j )
                r.val[j].v[k] = p[k * n + j];
        return r;
    }
    template <typename E, typename V>
    inline void storeMixed( uint8_t * p, const V & x )
    {
        const unsigned n = sizeof( V ) / sizeof( E );
        for ( unsigned k = 0; k < lanes<E>(); ++k )
            for ( unsigned j = 0; j < n; ++j )
                p[k * n + j] = x.val[j].v[k];
    }
}
inline uint8x8_t vtbl1_u8( uint8x8_t t, uint8x8_t i ) { return vfn::table( &t, 8, i ); }
inline uint8x8_t vtbl2_u8( uint8x8x2_t t, uint8x8_t i ) { return vfn::table( &t, 16, i ); }
inline uint8x8_t vtbl3_u8( uint8x8x3_t t, uint8x8_t i ) { return vfn::table( &t, 24, i ); }
inline uint8x8_t vtbl4_u8( uint8x8x4_t t, uint8x8_t i ) { return vfn::table( &t, 32, i ); }
inline uint8x8_t vqtbl1_u8( uint8x16_t t, uint8x8_t i ) { return vfn::table( &t, 16, i ); }
inline uint8x16_t vqtbl1q_u8( uint8x16_t t, uint8x16_t i ) { return vfn::table( &t, 16, i ); }
#define VFN_MANY( N )                                                                                                                                              \
    inline uint8x8x##N##_t vld##N##_u8( const uint8_t * p ) { return vfn::loadSeparated<uint8x8x##N##_t, uint8x8_t>( p ); }                                         \
    inline uint8x16x##N##_t vld##N##q_u8( const uint8_t * p ) { return vfn::loadSeparated<uint8x16x##N##_t, uint8x16_t>( p ); }                                      \
    inline void vst##N##_u8( uint8_t * p, uint8x8x##N##_t x ) { vfn::storeMixed<uint8x8_t>( p, x ); }                                                               \
    inline void vst##N##q_u8( uint8_t * p, uint8x16x##N##_t x ) { vfn::storeMixed<uint8x16_t>( p, x ); }
VFN_MANY( 2 )
VFN_MANY( 3 )
VFN_MANY( 4 )

// other views of the same bits
#define VFN_AS( q, A, TA, B, TB )                                                                                                                                  \
    inline TA vreinterpret##q##_##A##_##B( TB x ) { return vfn::as<TA>( x ); }                                                                                     \
    inline TB vreinterpret##q##_##B##_##A( TA x ) { return vfn::as<TB>( x ); }
VFN_AS( , u8, uint8x8_t, u16, uint16x4_t )
VFN_AS( , u8, uint8x8_t, u32, uint32x2_t )
VFN_AS( , u8, uint8x8_t, u64, uint64x1_t )
VFN_AS( , u8, uint8x8_t, s8, int8x8_t )
VFN_AS( , u16, uint16x4_t, u32, uint32x2_t )
VFN_AS( , u16, uint16x4_t, s16, int16x4_t )
VFN_AS( , u32, uint32x2_t, s32, int32x2_t )
VFN_AS( , u32, uint32x2_t, u64, uint64x1_t )
VFN_AS( q, u8, uint8x16_t, u16, uint16x8_t )
VFN_AS( q, u8, uint8x16_t, u32, uint32x4_t )
VFN_AS( q, u8, uint8x16_t, u64, uint64x2_t )
VFN_AS( q, u8, uint8x16_t, s8, int8x16_t )
VFN_AS( q, u16, uint16x8_t, u32, uint32x4_t )
VFN_AS( q, u16, uint16x8_t, s16, int16x8_t )
VFN_AS( q, u32, uint32x4_t, s32, int32x4_t )
VFN_AS( q, u32, uint32x4_t, u64, uint64x2_t )
