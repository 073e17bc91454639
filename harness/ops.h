// The image operations of penguinV as a table: how to make arguments, how to call every form of every implementation and
// what the result has to be (as an interval per value, computed pixel by pixel from the definition of the operation).
#pragma once
#include "common.h"

#include "filtering.h"
#include "function_pool.h"
#include "image_function.h"
#include "image_function_helper.h"
#include "image_function_simd.h"
#include "penguinv/penguinv.h"
#include "penguinv_exception.h"
#ifdef VF_OPENCL
#include "opencl/image_function_opencl.h"
#endif
#ifdef VF_CUDA
#include "cuda/image_function_cuda.cuh"
#endif
#include <cmath>

namespace ops
{
    using penguinV::Image;
    using penguinV::Image16Bit;
    using vf::Rng;

    enum Ns
    {
        F = 0, // Image_Function
        S = 1, // Image_Function_Simd
        P = 2, // Function_Pool
        V = 3, // penguinV (dispatching)
        G = 4 // Image_Function_OpenCL or Image_Function_Cuda
    };
    inline const char * nsName( int n )
    {
#ifdef VF_CUDA
        static const char * names[] = { "Image_Function", "Image_Function_Simd", "Function_Pool", "penguinV", "Image_Function_Cuda" };
#else
        static const char * names[] = { "Image_Function", "Image_Function_Simd", "Function_Pool", "penguinV", "Image_Function_OpenCL" };
#endif
        return names[n];
    }

    // Instruction sets allowed for a call: bit 0 SSE, bit 1 AVX, bit 2 AVX512
    inline bool sharedSimd = false; // several threads run operations: settings of the whole process are left alone
    inline void setSimd( int mask )
    {
        simd::EnableSimd( true );
        simd::EnableSse( ( mask & 1 ) != 0 );
        simd::EnableAvx( ( mask & 2 ) != 0 );
        simd::EnableAvx512( ( mask & 4 ) != 0 );
#ifdef VF_NEON // takes the place of SSE
        simd::EnableNeon( ( mask & 1 ) != 0 );
#endif
    }

    struct Pos
    {
        uint32_t x = 0, y = 0;
    };

    struct Params
    {
        double d[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };
        uint8_t v1 = 0, v2 = 0;
        bool b1 = false, b2 = false;
        uint32_t u1 = 0, u2 = 0;
        std::vector<uint8_t> table;
        std::vector<uint32_t> X, Y;
    };

    struct Op;
    struct Case
    {
        const Op * op = nullptr;
        int ns = F, form = 4, simd = 7;
        bool whole = false, alias = false, invalid = false;
        uint8_t cc = 1;
        std::vector<Image> in, out;
        std::vector<Image16Bit> in16, out16;
        Pos ip[4], op_[4];
        uint32_t w = 1, h = 1, wo = 1, ho = 1;
        Params p;
        std::vector<uint32_t> vec;

        uint32_t val( size_t k, uint32_t x, uint32_t y, uint32_t c ) const
        {
            const Image & im = in[k];
            return im.data()[static_cast<size_t>( ip[k].y + y ) * im.rowSize() + static_cast<size_t>( ip[k].x + x ) * im.colorCount() + c];
        }
    };

    struct Result
    {
        int status = 0; // 0 returned, 1 penguinVException, 2 other exception
        std::string what;
        bool hasImg = false, hasImg16 = false, hasVec = false, hasScalar = false;
        Image img;
        Image16Bit img16;
        std::vector<uint32_t> vec;
        uint32_t scalar = 0;
    };

    // Interval of permitted values for each value of one output
    struct Range
    {
        std::vector<uint32_t> lo, hi;
        void put( uint32_t v )
        {
            lo.push_back( v );
            hi.push_back( v );
        }
        void put( uint32_t a, uint32_t b )
        {
            lo.push_back( a );
            hi.push_back( b );
        }
    };

    enum OutKind
    {
        IMG, // out images (or a returned image)
        IMG16,
        VEC,
        SCALAR,
        INOUT // in[0] itself is changed in its region
    };

    struct Op
    {
        std::string name, family;
        int nsMask = 0; // bit per Ns
        int forms = 15; // bit (form-1): 1 whole->returned, 2 whole->out, 3 region->returned, 4 region->out
        OutKind kind = IMG;
        int nin = 1, nout = 1;
        bool in16 = false;
        bool pointwise = false; // output may be the input image
        bool usesOutside = false; // reads image data beyond its region by definition
        bool wholeWritesPadding = false;
        bool wholeOnlyInput = false; // has no region: form 4 means the only form
        uint32_t minSize = 1;
        std::vector<int> ccs; // accepted channel counts of the first input
        std::function<int( int k, int cc )> inCC, outCC;
        std::function<void( Case &, Rng & )> params;
        std::function<void( Case &, Result & )> call;
        std::function<std::vector<Range>( const Case & )> expect;
    };

// one macro per signature; I/O: input, output images, W/H: region size
#define I0 c.in[0]
#define I1 c.in[1]
#define I2 c.in[2]
#define O0 c.out[0]
#define OO ( c.alias ? c.in[0] : c.out[0] )
#define OP_ ( c.alias ? c.ip[0] : c.op_[0] )
#define A0 c.ip[0].x, c.ip[0].y
#define A1 c.ip[1].x, c.ip[1].y
#define A2 c.ip[2].x, c.ip[2].y
#define Q0 OP_.x, OP_.y
#define WH c.w, c.h
#define SET_IMG( E )                                                                                                                                                     \
    {                                                                                                                                                                    \
        Image t = E;                                                                                                                                                     \
        r.img.swap( t );                                                                                                                                                 \
        r.hasImg = true;                                                                                                                                                 \
    }
#define SET_IMG16( E )                                                                                                                                                   \
    {                                                                                                                                                                    \
        Image16Bit t = E;                                                                                                                                                \
        r.img16.swap( t );                                                                                                                                               \
        r.hasImg16 = true;                                                                                                                                               \
    }
#define SET_VEC( E )                                                                                                                                                     \
    {                                                                                                                                                                    \
        r.vec = E;                                                                                                                                                       \
        r.hasVec = true;                                                                                                                                                 \
    }
#define OUT_VEC( E )                                                                                                                                                     \
    {                                                                                                                                                                    \
        E;                                                                                                                                                               \
    }
#define SET_SC( E )                                                                                                                                                      \
    {                                                                                                                                                                    \
        r.scalar = static_cast<uint32_t>( E );                                                                                                                           \
        r.hasScalar = true;                                                                                                                                              \
    }
#define FORMS( a, b, d, e )                                                                                                                                              \
    switch ( c.form ) {                                                                                                                                                  \
    case 1: a; break;                                                                                                                                                    \
    case 2: b; break;                                                                                                                                                    \
    case 3: d; break;                                                                                                                                                    \
    default: e; break;                                                                                                                                                   \
    }
#define NS_F( M, FN )                                                                                                                                                    \
    case F: M( Image_Function, FN ); break;
#define NS_S( M, FN )                                                                                                                                                    \
    case S: M( Image_Function_Simd, FN ); break;
#define NS_P( M, FN )                                                                                                                                                    \
    case P: M( Function_Pool, FN ); break;
#define NS_V( M, FN )                                                                                                                                                    \
    case V: M( penguinV, FN ); break;
#ifdef VF_OPENCL
#define NS_G( M, FN )                                                                                                                                                    \
    case G: M( Image_Function_OpenCL, FN ); break;
#define NS_GN NS_G
#elif defined( VF_CUDA )
#define NS_G( M, FN )                                                                                                                                                    \
    case G: M( Image_Function_Cuda, FN ); break;
#define NS_GN( M, FN ) // not available with CUDA
#else
#define NS_G( M, FN )
#define NS_GN( M, FN )
#endif
#define CALL( CASES )                                                                                                                                                    \
    []( Case & c, Result & r ) {                                                                                                                                         \
        (void)r;                                                                                                                                                         \
        switch ( c.ns ) {                                                                                                                                                \
            CASES default : throw std::logic_error( "no such namespace" );                                                                                               \
        }                                                                                                                                                                \
    }

#define M_BIN( N, FN ) FORMS( SET_IMG( N::FN( I0, I1 ) ), N::FN( I0, I1, OO ), SET_IMG( N::FN( I0, A0, I1, A1, WH ) ), N::FN( I0, A0, I1, A1, OO, Q0, WH ) )
#define M_UN( N, FN ) FORMS( SET_IMG( N::FN( I0 ) ), N::FN( I0, OO ), SET_IMG( N::FN( I0, A0, WH ) ), N::FN( I0, A0, OO, Q0, WH ) )
#define M_GAMMA( N, FN )                                                                                                                                                 \
    FORMS( SET_IMG( N::FN( I0, c.p.d[0], c.p.d[1] ) ), N::FN( I0, OO, c.p.d[0], c.p.d[1] ), SET_IMG( N::FN( I0, A0, WH, c.p.d[0], c.p.d[1] ) ),                          \
           N::FN( I0, A0, OO, Q0, WH, c.p.d[0], c.p.d[1] ) )
#define M_TABLE( N, FN )                                                                                                                                                 \
    FORMS( SET_IMG( N::FN( I0, c.p.table ) ), N::FN( I0, OO, c.p.table ), SET_IMG( N::FN( I0, A0, WH, c.p.table ) ), N::FN( I0, A0, OO, Q0, WH, c.p.table ) )
#define M_U8( N, FN ) FORMS( SET_IMG( N::FN( I0, c.p.v1 ) ), N::FN( I0, OO, c.p.v1 ), SET_IMG( N::FN( I0, A0, WH, c.p.v1 ) ), N::FN( I0, A0, OO, Q0, WH, c.p.v1 ) )
#define M_U8U8( N, FN )                                                                                                                                                  \
    FORMS( SET_IMG( N::FN( I0, c.p.v1, c.p.v2 ) ), N::FN( I0, OO, c.p.v1, c.p.v2 ), SET_IMG( N::FN( I0, A0, WH, c.p.v1, c.p.v2 ) ),                                      \
           N::FN( I0, A0, OO, Q0, WH, c.p.v1, c.p.v2 ) )
#define M_BB( N, FN )                                                                                                                                                    \
    FORMS( SET_IMG( N::FN( I0, c.p.b1, c.p.b2 ) ), N::FN( I0, OO, c.p.b1, c.p.b2 ), SET_IMG( N::FN( I0, A0, WH, c.p.b1, c.p.b2 ) ),                                      \
           N::FN( I0, A0, OO, Q0, WH, c.p.b1, c.p.b2 ) )
#define M_DD( N, FN )                                                                                                                                                    \
    FORMS( SET_IMG( N::FN( I0, c.p.d[0], c.p.d[1] ) ), N::FN( I0, OO, c.p.d[0], c.p.d[1] ), SET_IMG( N::FN( I0, A0, WH, c.p.d[0], c.p.d[1] ) ),                          \
           N::FN( I0, A0, OO, Q0, WH, c.p.d[0], c.p.d[1] ) )
#define M_U32( N, FN ) FORMS( SET_IMG( N::FN( I0, c.p.u1 ) ), N::FN( I0, OO, c.p.u1 ), SET_IMG( N::FN( I0, A0, WH, c.p.u1 ) ), N::FN( I0, A0, OO, Q0, WH, c.p.u1 ) )
#define M_COPY( N, FN ) FORMS( (void)0, N::FN( I0, OO ), SET_IMG( N::FN( I0, A0, WH ) ), N::FN( I0, A0, OO, Q0, WH ) )
#define M_RESIZE( N, FN )                                                                                                                                                \
    FORMS( SET_IMG( N::FN( I0, c.wo, c.ho ) ), N::FN( I0, OO ), SET_IMG( N::FN( I0, A0, WH, c.wo, c.ho ) ), N::FN( I0, A0, WH, OO, Q0, c.wo, c.ho ) )
#define M_MERGE( N, FN )                                                                                                                                                 \
    FORMS( SET_IMG( N::FN( I0, I1, I2 ) ), N::FN( I0, I1, I2, OO ), SET_IMG( N::FN( I0, A0, I1, A1, I2, A2, WH ) ), N::FN( I0, A0, I1, A1, I2, A2, OO, Q0, WH ) )
#define M_SPLIT( N, FN )                                                                                                                                                 \
    FORMS( (void)0, N::FN( I0, c.out[0], c.out[1], c.out[2] ), (void)0,                                                                                                  \
           N::FN( I0, A0, c.out[0], c.op_[0].x, c.op_[0].y, c.out[1], c.op_[1].x, c.op_[1].y, c.out[2], c.op_[2].x, c.op_[2].y, WH ) )
#define M_REPL( N, FN ) FORMS( (void)0, N::FN( I0, O0, c.p.v1 ), (void)0, N::FN( I0, A0, O0, c.op_[0].x, c.op_[0].y, WH, c.p.v1 ) )
#define M_ROT( N, FN )                                                                                                                                                   \
    FORMS( SET_IMG( N::FN( I0, c.p.d[0], c.p.d[1], c.p.d[4] ) ), N::FN( I0, c.p.d[0], c.p.d[1], O0, c.p.d[2], c.p.d[3], c.p.d[4] ),                                      \
           SET_IMG( N::FN( I0, A0, c.p.d[0], c.p.d[1], WH, c.p.d[4] ) ),                                                                                                 \
           N::FN( I0, A0, c.p.d[0], c.p.d[1], O0, c.op_[0].x, c.op_[0].y, c.p.d[2], c.p.d[3], WH, c.p.d[4] ) )
#define M_TO16( N, FN )                                                                                                                                                  \
    FORMS( SET_IMG16( N::FN( I0 ) ), N::FN( I0, c.out16[0] ), SET_IMG16( N::FN( I0, A0, WH ) ), N::FN( I0, A0, c.out16[0], c.op_[0].x, c.op_[0].y, WH ) )
#define M_TO8( N, FN )                                                                                                                                                   \
    FORMS( SET_IMG( N::FN( c.in16[0] ) ), N::FN( c.in16[0], O0 ), SET_IMG( N::FN( c.in16[0], A0, WH ) ), N::FN( c.in16[0], A0, O0, c.op_[0].x, c.op_[0].y, WH ) )
#define M_ACC( N, FN ) FORMS( (void)0, N::FN( I0, c.vec ), (void)0, N::FN( I0, A0, WH, c.vec ) )
#define M_HIST( N, FN ) FORMS( SET_VEC( N::FN( I0 ) ), N::FN( I0, c.vec ), SET_VEC( N::FN( I0, A0, WH ) ), N::FN( I0, A0, WH, c.vec ) )
#define M_MHIST( N, FN ) FORMS( SET_VEC( N::FN( I0, I1 ) ), N::FN( I0, I1, c.vec ), SET_VEC( N::FN( I0, A0, I1, A1, WH ) ), N::FN( I0, A0, I1, A1, WH, c.vec ) )
#define M_PROJ( N, FN )                                                                                                                                                  \
    FORMS( SET_VEC( N::FN( I0, c.p.b1 ) ), N::FN( I0, c.p.b1, c.vec ), SET_VEC( N::FN( I0, A0, WH, c.p.b1 ) ), N::FN( I0, A0, WH, c.p.b1, c.vec ) )
#define M_SC( N, FN ) FORMS( SET_SC( N::FN( I0 ) ), (void)0, SET_SC( N::FN( I0, A0, WH ) ), (void)0 )
#define M_EQ( N, FN ) FORMS( SET_SC( N::FN( I0, I1 ) ), (void)0, SET_SC( N::FN( I0, A0, I1, A1, WH ) ), (void)0 )
#define M_GETP( N, FN ) FORMS( (void)0, (void)0, SET_SC( N::FN( I0, A0 ) ), (void)0 )
#define M_SETP( N, FN ) N::FN( I0, A0, c.p.v1 )
#define M_SETPL( N, FN ) N::FN( I0, c.p.X, c.p.Y, c.p.v1 )
#define M_GETT( N, FN ) SET_SC( N::FN( c.vec ) )
#define M_FILL( N, FN ) FORMS( (void)0, N::FN( I0, c.p.v1 ), (void)0, N::FN( I0, A0, WH, c.p.v1 ) )
#define M_DIL( N, FN ) FORMS( (void)0, N::FN( I0, c.p.u1, c.p.u2 ), (void)0, N::FN( I0, A0, WH, c.p.u1, c.p.u2 ) )

    inline std::vector<Range> perValue( const Case & c, const std::function<uint32_t( uint32_t, uint32_t, uint32_t )> & f, uint32_t w, uint32_t h, uint32_t cc )
    {
        std::vector<Range> r( 1 );
        r[0].lo.reserve( static_cast<size_t>( w ) * h * cc );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w; ++x )
                for ( uint32_t k = 0; k < cc; ++k )
                    r[0].lo.push_back( f( x, y, k ) );
        r[0].hi = r[0].lo;
        (void)c;
        return r;
    }

    // pixel-wise unary with a 256 entry definition (lo, hi)
    inline std::vector<Range> perTable( const Case & c, const std::vector<uint32_t> & lo, const std::vector<uint32_t> & hi )
    {
        std::vector<Range> r( 1 );
        for ( uint32_t y = 0; y < c.h; ++y )
            for ( uint32_t x = 0; x < c.w; ++x )
                for ( uint32_t k = 0; k < c.cc; ++k ) {
                    const uint32_t v = c.val( 0, x, y, k );
                    r[0].put( lo[v], hi[v] );
                }
        return r;
    }

    inline uint32_t clip8( double v )
    {
        return v < 0 ? 0 : ( v >= 255.5 ? 255 : static_cast<uint32_t>( v ) > 255 ? 255 : static_cast<uint32_t>( v ) );
    }

    // all results an Otsu threshold may have: any value splitting the histogram with the largest between-class variance
    inline bool otsuOk( const std::vector<uint32_t> & h, uint32_t t, double & best, double & got )
    {
        long double total = 0, sum = 0;
        for ( int i = 0; i < 256; ++i ) {
            total += h[i];
            sum += static_cast<long double>( i ) * h[i];
        }
        best = 0;
        got = -1;
        long double n0 = 0, s0 = 0;
        std::vector<long double> sig( 256, 0 );
        for ( int i = 0; i < 256; ++i ) {
            n0 += h[i];
            s0 += static_cast<long double>( i ) * h[i];
            if ( n0 > 0 && n0 < total ) {
                const long double m = s0 / n0 - ( sum - s0 ) / ( total - n0 );
                sig[i] = n0 / total * ( 1 - n0 / total ) * m * m;
            }
            if ( sig[i] > best )
                best = static_cast<double>( sig[i] );
        }
        got = t < 256 ? static_cast<double>( sig[t] ) : -1;
        return best <= 0 || got >= best * ( 1 - 1e-9 );
    }

    inline void randomBytes( uint8_t * p, size_t n, Rng & r )
    {
        size_t i = 0;
        for ( ; i + 8 <= n; i += 8 ) {
            const uint64_t v = r.next();
            memcpy( p + i, &v, 8 );
        }
        for ( ; i < n; ++i )
            p[i] = static_cast<uint8_t>( r.next() );
    }

    // content of one image, padding included
    inline void fillImage( Image & im, Rng & r )
    {
        const size_t n = static_cast<size_t>( im.rowSize() ) * im.height();
        uint8_t * p = im.data();
        switch ( r.u( 0, 9 ) ) {
        case 0: { // narrow range
            const uint32_t lo = r.u( 0, 255 ), hi = std::min( 255u, lo + r.u( 0, 6 ) );
            for ( size_t i = 0; i < n; ++i )
                p[i] = static_cast<uint8_t>( r.u( lo, hi ) );
            break;
        }
        case 1: memset( p, static_cast<int>( r.u( 0, 255 ) ), n ); break;
        case 2: // extremes
            for ( size_t i = 0; i < n; ++i )
                p[i] = r.pick( { uint8_t( 0 ), uint8_t( 255 ), uint8_t( 254 ), uint8_t( 1 ), uint8_t( 127 ), uint8_t( 128 ) } );
            break;
        case 3: memset( p, 255, n ); break;
        case 4: // gradient
            for ( size_t i = 0; i < n; ++i )
                p[i] = static_cast<uint8_t>( i * 7 + i / im.rowSize() * 13 );
            break;
        case 5: // binary
            for ( size_t i = 0; i < n; ++i )
                p[i] = r.chance( 50 ) ? 255 : 0;
            break;
        default: randomBytes( p, n, r ); break;
        }
        // padding is always arbitrary
        for ( uint32_t y = 0; y < im.height(); ++y )
            for ( uint32_t x = im.width() * im.colorCount(); x < im.rowSize(); ++x )
                p[static_cast<size_t>( y ) * im.rowSize() + x] = static_cast<uint8_t>( r.next() );
    }

    inline uint8_t pickAlign( Rng & r )
    {
        return r.chance( 40 ) ? 1 : r.pick( { uint8_t( 2 ), uint8_t( 3 ), uint8_t( 4 ), uint8_t( 4 ), uint8_t( 8 ), uint8_t( 16 ), uint8_t( 32 ), uint8_t( 64 ), uint8_t( 7 ), uint8_t( 255 ) } );
    }

    inline Image makeImage( uint32_t w, uint32_t h, int cc, Rng & r )
    {
        Image im( w, h, static_cast<uint8_t>( cc ), pickAlign( r ) );
        fillImage( im, r );
        return im;
    }
    inline Image16Bit makeImage16( uint32_t w, uint32_t h, int cc, Rng & r )
    {
        Image16Bit im( w, h, static_cast<uint8_t>( cc ), pickAlign( r ) );
        const size_t n = static_cast<size_t>( im.rowSize() ) * im.height();
        const bool ext = r.chance( 20 );
        for ( size_t i = 0; i < n; ++i )
            im.data()[i] = ext ? r.pick( { uint16_t( 0 ), uint16_t( 65535 ), uint16_t( 255 ), uint16_t( 256 ), uint16_t( 32768 ), uint16_t( 65280 ) } ) : static_cast<uint16_t>( r.next() );
        return im;
    }

    // size limits of generated regions
    struct Limits
    {
        bool big = true;
        uint32_t maxArea = 400000;
        bool far = false; // small regions of images of up to 4 GiB, anywhere
    };

    inline void pickSize( Rng & r, uint32_t & w, uint32_t & h, const Limits & lim )
    {
        const uint32_t k = r.u( 0, 99 );
        if ( k < 22 ) {
            w = r.u( 1, 9 );
            h = r.u( 1, 9 );
        }
        else if ( k < 62 ) {
            w = r.pick( { 5u, 8u, 10u, 11u, 15u, 16u, 17u, 21u, 22u, 31u, 32u, 33u, 43u, 47u, 48u, 49u, 63u, 64u, 65u, 80u, 95u, 96u, 97u, 127u, 128u, 129u, 160u, 191u, 192u, 193u, 255u, 256u, 257u } );
            h = r.u( 1, 18 );
        }
        else if ( k < 84 ) {
            w = r.u( 1, 140 );
            h = r.u( 1, 60 );
        }
        else if ( k < 90 ) {
            w = r.u( 200, lim.big ? 6000 : 900 );
            h = r.u( 1, 4 );
            if ( lim.big && !lim.far && r.chance( 2 ) ) { // beyond 16 bits
                w = r.chance( 50 ) ? r.u( 65520, 65560 ) : r.u( 65536, 140000 );
                h = r.u( 1, 2 );
            }
        }
        else if ( k < 96 ) {
            w = r.u( 1, 6 );
            h = r.u( 100, lim.big ? 2500 : 500 );
            if ( lim.big && !lim.far && r.chance( 2 ) ) {
                w = r.u( 1, 2 );
                h = r.chance( 50 ) ? r.u( 65520, 65560 ) : r.u( 65536, 140000 );
            }
        }
        else {
            w = r.u( 100, lim.big ? 700 : 200 );
            h = r.u( 60, lim.big ? 400 : 120 );
        }
    }

    inline std::vector<Op> & table();

    // arguments for one accepted call
    inline void generate( Case & c, const Op & op, Rng & r, const Limits & lim = Limits() )
    {
        c.op = &op;
        c.cc = static_cast<uint8_t>( op.ccs[r.u( 0, static_cast<uint32_t>( op.ccs.size() ) - 1 )] );
        pickSize( r, c.w, c.h, lim );
        c.w = std::max( c.w, op.minSize );
        c.h = std::max( c.h, op.minSize );
        c.wo = c.w;
        c.ho = c.h;
        if ( op.name == "Transpose" )
            std::swap( c.wo, c.ho );
        if ( op.name == "Resize" ) {
            pickSize( r, c.wo, c.ho, lim );
            if ( r.chance( 15 ) ) {
                c.wo = c.w;
                c.ho = c.h;
            }
        }
        const bool wholeForm = c.form == 1 || c.form == 2;
        c.whole = wholeForm || r.chance( 25 );
        c.in.clear();
        c.out.clear();
        c.in16.clear();
        c.out16.clear();
        if ( lim.far )
            c.whole = false;
        // an image which is mostly never touched
        auto distant = [&]( auto & im, const auto & part, Pos pos ) {
            const size_t n = static_cast<size_t>( part.width() ) * part.colorCount();
            for ( uint32_t y = 0; y < part.height(); ++y )
                memcpy( im.data() + static_cast<size_t>( pos.y + y ) * im.rowSize() + static_cast<size_t>( pos.x ) * im.colorCount(),
                        part.data() + static_cast<size_t>( y ) * part.rowSize(), n * sizeof( *part.data() ) );
        };
        uint8_t al = 1;
        auto place = [&]( uint32_t w, uint32_t h, Pos & pos, uint32_t & W, uint32_t & H, int cc ) {
            if ( lim.far ) {
                const bool tall = r.chance( 50 );
                W = w + ( tall ? r.u( 0, 300 ) : r.u( 1000, 200000 ) );
                al = pickAlign( r );
                const uint32_t rowSize = ( W * static_cast<uint32_t>( cc ) + al - 1u ) / al * al;
                const uint32_t most = static_cast<uint32_t>( ( r.chance( 80 ) ? 4294000000u : 2147000000u ) / ( rowSize * ( op.in16 || op.kind == IMG16 ? 2u : 1u ) ) );
                H = std::max( h + 1, most );
                if ( r.chance( 30 ) )
                    H = h + r.u( 0, H - h );
                pos.x = r.chance( 50 ) ? W - w : r.u( 0, W - w );
                pos.y = r.chance( 60 ) ? H - h : r.u( 0, H - h );
            }
            else if ( c.whole || r.chance( 15 ) ) {
                W = w;
                H = h;
                pos = Pos();
                if ( !c.whole && r.chance( 50 ) )
                    H = h + r.u( 0, 3 );
            }
            else {
                W = w + r.u( 0, 9 );
                H = h + r.u( 0, 9 );
                pos.x = r.u( 0, W - w );
                pos.y = r.u( 0, H - h );
            }
        };
        if ( lim.far ) { // growing would copy
            c.in.reserve( 4 );
            c.out.reserve( 4 );
            c.in16.reserve( 4 );
            c.out16.reserve( 4 );
        }
        for ( int k = 0; k < op.nin; ++k ) {
            uint32_t W, H;
            const int cc = op.inCC ? op.inCC( k, c.cc ) : c.cc;
            place( c.w, c.h, c.ip[k], W, H, cc );
            if ( lim.far && op.in16 ) {
                c.in16.emplace_back( W, H, static_cast<uint8_t>( cc ), al );
                distant( c.in16.back(), makeImage16( c.w, c.h, cc, r ), c.ip[k] );
            }
            else if ( lim.far ) {
                c.in.emplace_back( W, H, static_cast<uint8_t>( cc ), al );
                distant( c.in.back(), makeImage( c.w, c.h, cc, r ), c.ip[k] );
            }
            else if ( op.in16 )
                c.in16.push_back( makeImage16( W, H, cc, r ) );
            else
                c.in.push_back( makeImage( W, H, cc, r ) );
        }
        if ( op.nin == 2 && op.kind == IMG && r.chance( 25 ) ) { // correlated inputs
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w * c.cc; ++x ) {
                    const int v = static_cast<int>( c.val( 0, 0, y, x ) ) + r.i( -1, 1 );
                    c.in[1].data()[static_cast<size_t>( c.ip[1].y + y ) * c.in[1].rowSize() + c.ip[1].x * c.cc + x] = static_cast<uint8_t>( v < 0 ? 0 : v > 255 ? 255 : v );
                }
        }
        for ( int k = 0; k < op.nout && ( op.kind == IMG || op.kind == IMG16 ); ++k ) {
            uint32_t W, H;
            const int cc = op.outCC ? op.outCC( k, c.cc ) : c.cc;
            place( c.wo, c.ho, c.op_[k], W, H, cc );
            if ( lim.far && op.kind == IMG16 )
                c.out16.emplace_back( W, H, static_cast<uint8_t>( cc ), al );
            else if ( lim.far )
                c.out.emplace_back( W, H, static_cast<uint8_t>( cc ), al );
            else if ( op.kind == IMG16 )
                c.out16.push_back( makeImage16( W, H, cc, r ) );
            else
                c.out.push_back( makeImage( W, H, cc, r ) );
        }
        c.vec.clear();
        if ( op.kind == VEC ) { // an output vector may hold anything before
            c.vec.resize( r.u( 0, 40 ) );
            for ( auto & v : c.vec )
                v = static_cast<uint32_t>( r.next() );
        }
        if ( op.params )
            op.params( c, r );
    }

    inline void run( Case & c, Result & r )
    {
        if ( !sharedSimd )
            setSimd( c.simd );
        try {
            c.op->call( c, r );
        }
        catch ( const penguinVException & e ) {
            r.status = 1;
            r.what = e.what();
        }
        catch ( const std::exception & e ) {
            r.status = 2;
            r.what = e.what();
        }
        catch ( ... ) {
            r.status = 2;
            r.what = "unknown exception";
        }
    }

    template <typename TImg>
    void collectImage( const TImg & im, Pos pos, uint32_t w, uint32_t h, std::vector<uint32_t> & o )
    {
        const uint32_t cc = im.colorCount();
        o.reserve( static_cast<size_t>( w ) * h * cc );
        for ( uint32_t y = 0; y < h; ++y ) {
            const auto * p = im.data() + static_cast<size_t>( pos.y + y ) * im.rowSize() + static_cast<size_t>( pos.x ) * cc;
            for ( uint32_t x = 0; x < w * cc; ++x )
                o.push_back( p[x] );
        }
    }

    // values of all outputs of a finished call; a returned image of wrong shape gives an error text
    inline std::string collect( const Case & c, const Result & r, std::vector<std::vector<uint32_t>> & outs )
    {
        outs.clear();
        const Op & op = *c.op;
        auto shape = [&]( uint32_t w, uint32_t h, uint32_t cc ) -> std::string {
            const uint32_t want = static_cast<uint32_t>( op.outCC ? op.outCC( 0, c.cc ) : c.cc );
            if ( w != c.wo || h != c.ho || cc != want )
                return vf::fmt( "returned image is %ux%ux%u instead of %ux%ux%u", w, h, cc, c.wo, c.ho, want );
            return "";
        };
        if ( op.kind == INOUT ) {
            outs.resize( 1 );
            collectImage( c.in[0], op.wholeOnlyInput ? Pos() : c.ip[0], op.wholeOnlyInput ? c.in[0].width() : c.w, op.wholeOnlyInput ? c.in[0].height() : c.h, outs[0] );
        }
        else if ( op.kind == VEC ) {
            outs.push_back( r.hasVec ? r.vec : c.vec );
        }
        else if ( op.kind == SCALAR ) {
            outs.push_back( std::vector<uint32_t>( 1, r.scalar ) );
        }
        else if ( r.hasImg16 ) {
            const std::string e = shape( r.img16.width(), r.img16.height(), r.img16.colorCount() );
            if ( !e.empty() )
                return e;
            outs.resize( 1 );
            collectImage( r.img16, Pos(), c.wo, c.ho, outs[0] );
        }
        else if ( r.hasImg ) {
            const std::string e = shape( r.img.width(), r.img.height(), r.img.colorCount() );
            if ( !e.empty() )
                return e;
            outs.resize( 1 );
            collectImage( r.img, Pos(), c.wo, c.ho, outs[0] );
        }
        else if ( op.kind == IMG16 ) {
            outs.resize( 1 );
            collectImage( c.out16[0], c.op_[0], c.wo, c.ho, outs[0] );
        }
        else if ( c.alias ) {
            outs.resize( 1 );
            collectImage( c.in[0], c.ip[0], c.wo, c.ho, outs[0] );
        }
        else {
            outs.resize( c.out.size() );
            for ( size_t k = 0; k < c.out.size(); ++k )
                collectImage( c.out[k], c.op_[k], c.wo, c.ho, outs[k] );
        }
        return "";
    }

    // complete state of an image
    struct Shot
    {
        uint32_t w, h, rs;
        uint8_t cc, al, type;
        const void * data;
        std::vector<uint8_t> bytes;
    };
    template <typename TImg>
    Shot shot( const TImg & im )
    {
        Shot s{ im.width(), im.height(), im.rowSize(), im.colorCount(), im.alignment(), im.type(), im.data(), {} };
        const size_t n = static_cast<size_t>( im.rowSize() ) * im.height() * sizeof( *im.data() );
        if ( im.data() && n )
            s.bytes.assign( reinterpret_cast<const uint8_t *>( im.data() ), reinterpret_cast<const uint8_t *>( im.data() ) + n );
        return s;
    }
    struct Shots
    {
        std::vector<Shot> in, out, in16, out16;
        std::vector<uint32_t> vec;
    };
    inline Shots shots( const Case & c )
    {
        Shots s;
        for ( auto & i : c.in )
            s.in.push_back( shot( i ) );
        for ( auto & i : c.out )
            s.out.push_back( shot( i ) );
        for ( auto & i : c.in16 )
            s.in16.push_back( shot( i ) );
        for ( auto & i : c.out16 )
            s.out16.push_back( shot( i ) );
        s.vec = c.vec;
        return s;
    }
    // difference of an image to its earlier state outside the region [pos, pos+w x h) (w == 0: everywhere)
    template <typename TImg>
    std::string diffOutside( const Shot & s, const TImg & im, Pos pos, uint32_t w, uint32_t h )
    {
        if ( s.w != im.width() || s.h != im.height() || s.rs != im.rowSize() || s.cc != im.colorCount() || s.al != im.alignment() || s.type != im.type() )
            return vf::fmt( "attributes changed from %ux%ux%u row %u alignment %u to %ux%ux%u row %u alignment %u", s.w, s.h, s.cc, s.rs, s.al, im.width(), im.height(),
                            im.colorCount(), im.rowSize(), im.alignment() );
        if ( ( s.data == nullptr ) != ( im.data() == nullptr ) )
            return "data appeared or disappeared";
        if ( im.data() == nullptr )
            return "";
        const size_t es = sizeof( *im.data() );
        const uint8_t * now = reinterpret_cast<const uint8_t *>( im.data() );
        if ( w == 0 ) {
            if ( s.bytes.empty() || memcmp( s.bytes.data(), now, s.bytes.size() ) == 0 )
                return "";
        }
        for ( uint32_t y = 0; y < s.h; ++y )
            for ( uint32_t x = 0; x < s.rs; ++x ) {
                const size_t o = ( static_cast<size_t>( y ) * s.rs + x ) * es;
                if ( memcmp( s.bytes.data() + o, now + o, es ) != 0 ) {
                    if ( w && y >= pos.y && y - pos.y < h && x >= pos.x * s.cc && x < ( pos.x + w ) * s.cc )
                        continue;
                    return vf::fmt( "byte at row %u, offset %u (pixel %u%s) changed from %u to %u", y, x, x / s.cc, x >= s.w * s.cc ? ", row padding" : "", s.bytes[o], now[o] );
                }
            }
        return "";
    }
    inline std::string diffAll( const Shots & s, const Case & c, bool withVec = true )
    {
        std::string e;
        for ( size_t k = 0; k < c.in.size(); ++k )
            if ( !( e = diffOutside( s.in[k], c.in[k], Pos(), 0, 0 ) ).empty() )
                return vf::fmt( "input %zu: ", k ) + e;
        for ( size_t k = 0; k < c.in16.size(); ++k )
            if ( !( e = diffOutside( s.in16[k], c.in16[k], Pos(), 0, 0 ) ).empty() )
                return vf::fmt( "input %zu: ", k ) + e;
        for ( size_t k = 0; k < c.out.size(); ++k )
            if ( !( e = diffOutside( s.out[k], c.out[k], Pos(), 0, 0 ) ).empty() )
                return vf::fmt( "output %zu: ", k ) + e;
        for ( size_t k = 0; k < c.out16.size(); ++k )
            if ( !( e = diffOutside( s.out16[k], c.out16[k], Pos(), 0, 0 ) ).empty() )
                return vf::fmt( "output %zu: ", k ) + e;
        if ( withVec && s.vec != c.vec )
            return vf::fmt( "vector argument changed (size %zu to %zu)", s.vec.size(), c.vec.size() );
        return "";
    }
    // frame of an accepted call
    inline std::string frame( const Shots & s, const Case & c )
    {
        const Op & op = *c.op;
        std::string e;
        for ( size_t k = 0; k < c.in.size(); ++k ) {
            const bool changed = op.kind == INOUT || ( c.alias && k == 0 );
            if ( changed && op.wholeOnlyInput ) { // SetPixel: the pixels named
                e = diffOutside( s.in[k], c.in[k], Pos(), c.in[k].width(), c.in[k].height() );
            }
            else if ( changed && op.wholeWritesPadding && c.form == 2 )
                e = "";
            else
                e = diffOutside( s.in[k], c.in[k], c.ip[k], changed ? c.w : 0, changed ? c.h : 0 );
            if ( !e.empty() )
                return vf::fmt( "input %zu: ", k ) + e;
        }
        for ( size_t k = 0; k < c.in16.size(); ++k )
            if ( !( e = diffOutside( s.in16[k], c.in16[k], Pos(), 0, 0 ) ).empty() )
                return vf::fmt( "input %zu: ", k ) + e;
        const bool returned = c.form == 1 || c.form == 3 || c.alias;
        for ( size_t k = 0; k < c.out.size(); ++k )
            if ( !( op.wholeWritesPadding && c.form == 2 ) && !( e = diffOutside( s.out[k], c.out[k], c.op_[k], returned ? 0 : c.wo, c.ho ) ).empty() )
                return vf::fmt( "output %zu: ", k ) + e;
        for ( size_t k = 0; k < c.out16.size(); ++k )
            if ( !( e = diffOutside( s.out16[k], c.out16[k], c.op_[k], returned ? 0 : c.wo, c.ho ) ).empty() )
                return vf::fmt( "output %zu: ", k ) + e;
        return "";
    }

    inline std::string describe( const Case & c )
    {
        std::string s = vf::fmt( "%s::%s form %d simd %d%s region %ux%u", nsName( c.ns ), c.op->name.c_str(), c.form, c.simd, c.alias ? " in place" : "", c.w, c.h );
        if ( c.wo != c.w || c.ho != c.h )
            s += vf::fmt( " -> %ux%u", c.wo, c.ho );
        for ( size_t k = 0; k < c.in.size(); ++k )
            s += vf::fmt( "; in%zu %ux%ux%u al %u at (%u,%u)", k, c.in[k].width(), c.in[k].height(), c.in[k].colorCount(), c.in[k].alignment(), c.ip[k].x, c.ip[k].y );
        for ( size_t k = 0; k < c.in16.size(); ++k )
            s += vf::fmt( "; in16 %ux%ux%u al %u at (%u,%u)", c.in16[k].width(), c.in16[k].height(), c.in16[k].colorCount(), c.in16[k].alignment(), c.ip[k].x, c.ip[k].y );
        for ( size_t k = 0; k < c.out.size(); ++k )
            s += vf::fmt( "; out%zu %ux%ux%u al %u at (%u,%u)", k, c.out[k].width(), c.out[k].height(), c.out[k].colorCount(), c.out[k].alignment(), c.op_[k].x, c.op_[k].y );
        for ( size_t k = 0; k < c.out16.size(); ++k )
            s += vf::fmt( "; out16 %ux%ux%u al %u at (%u,%u)", c.out16[k].width(), c.out16[k].height(), c.out16[k].colorCount(), c.out16[k].alignment(), c.op_[k].x, c.op_[k].y );
        s += vf::fmt( "; d=%.17g,%.17g,%.17g,%.17g,%.17g v=%u,%u b=%d,%d u=%u,%u table=%zu XY=%zu,%zu vec=%zu", c.p.d[0], c.p.d[1], c.p.d[2], c.p.d[3], c.p.d[4], c.p.v1,
                      c.p.v2, c.p.b1, c.p.b2, c.p.u1, c.p.u2, c.p.table.size(), c.p.X.size(), c.p.Y.size(), c.vec.size() );
        return s;
    }

    // first value outside its interval
    inline std::string compare( const Case & c, const std::vector<Range> & e, const std::vector<std::vector<uint32_t>> & o )
    {
        if ( e.size() != o.size() )
            return vf::fmt( "%zu outputs instead of %zu", o.size(), e.size() );
        for ( size_t k = 0; k < e.size(); ++k ) {
            if ( e[k].lo.size() != o[k].size() )
                return vf::fmt( "output %zu has %zu values instead of %zu", k, o[k].size(), e[k].lo.size() );
            for ( size_t i = 0; i < o[k].size(); ++i )
                if ( o[k][i] < e[k].lo[i] || o[k][i] > e[k].hi[i] )
                    return vf::fmt( "output %zu value %zu is %u, must be %u%s", k, i, o[k][i], e[k].lo[i], e[k].hi[i] != e[k].lo[i] ? vf::fmt( "..%u", e[k].hi[i] ).c_str() : "" );
        }
        (void)c;
        return "";
    }

#include "optable.inc"
}
