// Turns an accepted call into one that has to be refused.
#pragma once
#include "ops.h"

namespace ops
{
    inline bool contains( const std::vector<int> & v, int x )
    {
        return std::find( v.begin(), v.end(), x ) != v.end();
    }

    template <typename TImg>
    inline void recolor( TImg & im, int cc )
    {
        TImg n( im.width(), im.height(), static_cast<uint8_t>( cc ), im.alignment() );
        const size_t k = static_cast<size_t>( n.rowSize() ) * n.height();
        for ( size_t i = 0; i < k; ++i )
            n.data()[i] = static_cast<uint8_t>( i * 37 );
        im.swap( n );
    }
    template <typename TImg>
    inline void reshape( TImg & im, uint32_t w, uint32_t h )
    {
        TImg n( w, h, im.colorCount(), im.alignment() );
        const size_t k = static_cast<size_t>( n.rowSize() ) * n.height();
        for ( size_t i = 0; i < k; ++i )
            n.data()[i] = static_cast<uint8_t>( i * 37 );
        im.swap( n );
    }

    // region coordinates that do not fit an image of width W for a region of width w; false if the axis offers none
    inline uint32_t badStart( Rng & r, uint32_t W, uint32_t w )
    {
        switch ( r.u( 0, 5 ) ) {
        case 0: return W - w + 1;
        case 1: return W;
        case 2: return W + r.u( 0, 50 );
        case 3: return 0xFFFFFFFFu;
        case 4: return 0xFFFFFFFFu - w + 1; // start + width wraps to 0
        default: return 0xFFFFFFFFu - r.u( 0, w );
        }
    }

    // returns a short text for the defect planted in the arguments, empty if none applies
    inline std::string invalidate( Case & c, Rng & r )
    {
        const Op & op = *c.op;
        const bool region = c.form == 3 || c.form == 4;
        const bool returned = c.form == 1 || c.form == 3;
        const bool hasOut = ( op.kind == IMG || op.kind == IMG16 ) && !returned;
        for ( int attempt = 0; attempt < 40; ++attempt ) {
            switch ( r.u( 0, 13 ) ) {
            case 0: // empty input
                if ( op.name == "Fill" && c.form == 2 )
                    continue;
                if ( !c.in.empty() ) {
                    c.in[r.u( 0, static_cast<uint32_t>( c.in.size() ) - 1 )].clear();
                    return "empty input image";
                }
                if ( !c.in16.empty() ) {
                    c.in16[0].clear();
                    return "empty input image";
                }
                continue;
            case 1: // empty output
                if ( !hasOut || ( op.name == "Copy" && c.form == 2 && c.ns == V ) )
                    continue;
                if ( !c.out.empty() )
                    c.out[r.u( 0, static_cast<uint32_t>( c.out.size() ) - 1 )].clear();
                else
                    c.out16[0].clear();
                return "empty output image";
            case 2: // zero size
                if ( !region || op.wholeOnlyInput || op.name == "GetPixel" || op.nin == 0 )
                    continue;
                if ( op.name == "Resize" && r.chance( 50 ) ) {
                    ( r.chance( 50 ) ? c.wo : c.ho ) = 0;
                    return "zero-sized output region";
                }
                ( r.chance( 50 ) ? c.w : c.h ) = 0;
                return "zero-sized region";
            case 3:
            case 4: { // input region outside
                if ( !region || op.nin == 0 || op.name == "SetPixels" )
                    continue;
                const uint32_t k = r.u( 0, static_cast<uint32_t>( op.nin ) - 1 );
                const uint32_t W = op.in16 ? c.in16[0].width() : c.in[k].width(), H = op.in16 ? c.in16[0].height() : c.in[k].height();
                const bool point = op.wholeOnlyInput || op.name == "GetPixel";
                if ( r.chance( 50 ) )
                    c.ip[k].x = badStart( r, W, point ? 1 : c.w );
                else
                    c.ip[k].y = badStart( r, H, point ? 1 : c.h );
                return "region outside an input image";
            }
            case 5: { // output region outside
                if ( !region || !hasOut )
                    continue;
                const uint32_t k = c.out.empty() ? 0 : r.u( 0, static_cast<uint32_t>( c.out.size() ) - 1 );
                const uint32_t W = c.out.empty() ? c.out16[0].width() : c.out[k].width(), H = c.out.empty() ? c.out16[0].height() : c.out[k].height();
                if ( r.chance( 50 ) )
                    c.op_[k].x = badStart( r, W, c.wo );
                else
                    c.op_[k].y = badStart( r, H, c.ho );
                return "region outside an output image";
            }
            case 6: // region size too large, also so that start + size wraps
                if ( !region || op.wholeOnlyInput || op.name == "GetPixel" || op.nin == 0 )
                    continue;
                {
                    uint32_t & s = r.chance( 50 ) ? c.w : c.h;
                    const bool isW = &s == &c.w;
                    const uint32_t dim = op.in16 ? ( isW ? c.in16[0].width() : c.in16[0].height() ) : ( isW ? c.in[0].width() : c.in[0].height() );
                    const uint32_t start = isW ? c.ip[0].x : c.ip[0].y;
                    s = r.pick( { dim - start + 1, dim + 1, 0xFFFFFFFFu, 0xFFFFFFFFu - start + 1, 0x80000000u, 0xFFFFFFFFu - start } );
                    if ( s == 0 )
                        s = 0xFFFFFFFFu;
                    if ( op.kind == VEC && op.name == "Accumulate" && s > 100000 )
                        s = dim + 1;
                    return "region larger than the image";
                }
            case 7: { // unequal sizes of whole images
                if ( region || ( op.name == "Copy" && c.form == 2 && c.ns == V ) ) // a copied whole image replaces the other one
                    continue;
                const uint32_t total = static_cast<uint32_t>( c.in.size() + ( hasOut ? c.out.size() : 0 ) );
                if ( op.in16 || op.kind == IMG16 ) {
                    if ( !hasOut || c.w < 2 )
                        continue;
                    if ( op.in16 )
                        reshape( c.out[0], c.w - 1, c.h );
                    else
                        reshape( c.out16[0], c.w - 1, c.h );
                    return "unequal image sizes";
                }
                if ( total < 2 || op.name == "Resize" )
                    continue;
                const uint32_t k = r.u( 0, total - 1 );
                Image & im = k < c.in.size() ? c.in[k] : c.out[k - c.in.size()];
                const uint32_t W = im.width(), H = im.height();
                if ( op.name == "Transpose" ) { // a larger output is accepted
                    if ( W < 2 && H < 2 )
                        continue;
                    const uint32_t ow = c.out[0].width(), oh = c.out[0].height();
                    if ( ow > 1 && ( oh < 2 || r.chance( 50 ) ) )
                        reshape( c.out[0], ow - 1, oh );
                    else
                        reshape( c.out[0], ow, oh - 1 );
                    return "unequal image sizes";
                }
                const uint32_t w2 = r.chance( 50 ) ? W + r.u( 1, 3 ) : ( W > 1 ? W - 1 : W + 1 );
                if ( r.chance( 50 ) )
                    reshape( im, w2, H );
                else
                    reshape( im, W, H > 1 && r.chance( 50 ) ? H - 1 : H + 1 );
                return "unequal image sizes";
            }
            case 8: // unsupported channel count
            {
                if ( op.nin == 0 || ( op.name == "Fill" && c.form == 2 ) || ( op.name == "Copy" && c.form == 2 ) || op.name == "GetPixel" || op.wholeOnlyInput )
                    continue;
                const int cc = r.pick( { 2, 5, 7 } );
                if ( op.in16 ) {
                    recolor( c.in16[0], cc );
                    return "unsupported channel count";
                }
                if ( hasOut && r.chance( 40 ) ) {
                    if ( !c.out.empty() )
                        recolor( c.out[r.u( 0, static_cast<uint32_t>( c.out.size() ) - 1 )], cc );
                    else
                        recolor( c.out16[0], cc );
                }
                else
                    recolor( c.in[r.u( 0, static_cast<uint32_t>( c.in.size() ) - 1 )], cc );
                return "unsupported channel count";
            }
            case 9: { // a channel count which is supported in general but not here
                if ( op.nin == 0 || ( op.name == "Fill" && c.form == 2 ) )
                    continue;
                if ( op.name == "Copy" && c.form == 2 )
                    continue;
                const int cc = r.pick( { 1, 3, 4 } );
                if ( hasOut && r.chance( 50 ) ) { // output with another channel count than required
                    const uint32_t k = c.out.empty() ? 0 : r.u( 0, static_cast<uint32_t>( c.out.size() ) - 1 );
                    const int want = op.outCC ? op.outCC( static_cast<int>( k ), c.cc ) : c.cc;
                    if ( cc == want )
                        continue;
                    if ( c.out.empty() )
                        recolor( c.out16[0], cc );
                    else
                        recolor( c.out[k], cc );
                    return "channel count of the output not supported";
                }
                if ( op.in16 )
                    continue;
                const uint32_t k = r.u( 0, static_cast<uint32_t>( c.in.size() ) - 1 );
                if ( op.name == "HistogramMask" ) {
                    if ( k == 0 || cc == 1 )
                        continue;
                }
                else if ( op.nin == 2 ) {
                    if ( cc == c.cc )
                        continue;
                }
                else if ( contains( op.ccs, cc ) )
                    continue;
                recolor( c.in[k], cc );
                return "channel count of an input not supported";
            }
            default: // operation specific
                if ( op.name == "ExtractChannel" ) {
                    c.p.v1 = static_cast<uint8_t>( r.chance( 50 ) ? c.cc : r.u( c.cc, 255 ) );
                    return "channel id";
                }
                if ( op.name == "ReplaceChannel" ) {
                    c.p.v1 = static_cast<uint8_t>( r.u( 3, 255 ) );
                    return "channel id";
                }
                if ( op.name == "LookupTable" ) {
                    c.p.table.resize( r.pick( { 0u, 1u, 255u, 257u, 512u, 65536u } ) );
                    return "table size";
                }
                if ( op.name == "GammaCorrection" ) {
                    c.p.d[r.u( 0, 1 )] = r.chance( 50 ) ? -1e-9 : -r.d( 0.001, 10 );
                    return "gamma parameters";
                }
                if ( op.name == "Threshold2" ) {
                    c.p.v1 = static_cast<uint8_t>( r.u( 1, 255 ) );
                    c.p.v2 = static_cast<uint8_t>( r.u( 0, c.p.v1 - 1u ) );
                    return "minimum above maximum";
                }
                if ( op.name == "Median" ) {
                    c.p.u1 = r.pick( { 0u, 1u, 2u, 4u, c.w, c.h, c.w + 1, c.h + 2, 0xFFFFFFFFu, 0x80000001u, 65537u } );
                    if ( c.p.u1 % 2 == 1 && c.p.u1 >= 3 && c.p.u1 < c.w && c.p.u1 < c.h )
                        continue;
                    return "kernel size";
                }
                if ( op.name == "Shift" ) {
                    const int k = r.chance( 50 ) ? 0 : 1;
                    const double m = ( k == 0 ? c.w : c.h ) - 1.0;
                    c.p.d[k] = ( r.chance( 50 ) ? 1 : -1 ) * r.pick( { m + 1e-3, m + 1, m + 100, 1e9, 1e300 } );
                    return "shift larger than the region";
                }
                if ( op.name == "Accumulate" ) {
                    const size_t n = c.vec.size();
                    c.vec.resize( r.pick( { n - 1, n + 1, static_cast<size_t>( 0 ), n + 100, n * 2 } ) );
                    return "size of the accumulation array";
                }
                if ( op.name == "GetThreshold" ) {
                    c.vec.resize( r.pick( { 0u, 1u, 255u, 257u, 768u } ) );
                    return "histogram size";
                }
                if ( op.name == "SetPixels" && r.chance( 65 ) ) {
                    // one point outside; those before it have the value already so that nothing changes
                    Image & im = c.in[0];
                    const size_t k = r.u( 0, static_cast<uint32_t>( c.p.X.size() ) - 1 );
                    if ( r.chance( 60 ) )
                        c.p.X[k] = r.chance( 50 ) ? im.width() + r.u( 0, 3 ) : badStart( r, im.width(), 1 );
                    else
                        c.p.Y[k] = r.chance( 50 ) ? im.height() + r.u( 0, 3 ) : badStart( r, im.height(), 1 );
                    for ( size_t i = 0; i < k; ++i )
                        im.data()[static_cast<size_t>( c.p.Y[i] ) * im.rowSize() + c.p.X[i]] = c.p.v1;
                    return "point outside the image";
                }
                if ( op.name == "SetPixels" ) {
                    if ( r.chance( 50 ) )
                        c.p.X.push_back( 0 );
                    else {
                        c.p.X.clear();
                        c.p.Y.clear();
                    }
                    return "coordinate lists";
                }
                if ( ( op.name == "Sobel" || op.name == "Prewitt" ) && region ) {
                    ( r.chance( 50 ) ? c.w : c.h ) = r.u( 1, 2 );
                    c.wo = c.w;
                    c.ho = c.h;
                    return "region too small for the filter";
                }
                continue;
            }
        }
        return "";
    }
}
