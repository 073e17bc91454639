// Monitors of the parts around the image functions. Modes: B01, B02, E01, X01, X02, X03, X04, L01, kernel.
#include "blob_detection.h"
#include "common.h"
#include "edge_detection.h"
#include "fft.h"
#include "filtering.h"
#include "image_buffer.h"
#include "math/haar_transform.h"
#include "math/hough_transform.h"
#include "math/math_base.h"
#include "penguinv_exception.h"
#include "tool/light_correction.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <limits>
#include <numeric>

using penguinV::Image;
using vf::fmt;
using vf::Rng;
typedef std::vector<std::pair<uint32_t, uint32_t>> Points;

namespace
{
    // true: the library refused the call with its exception
    template <typename F>
    bool refused( F f )
    {
        try {
            f();
        }
        catch ( const penguinVException & ) {
            return true;
        }
        return false;
    }
    Image makeImage( Rng & r, uint32_t w, uint32_t h, uint8_t colours = 1 )
    {
        Image im( w, h, colours, r.pick<uint8_t>( { 1, 1, 2, 4, 8, 16, 3, 32 } ) );
        for ( size_t k = 0; k < static_cast<size_t>( im.rowSize() ) * h; ++k )
            im.data()[k] = static_cast<uint8_t>( r.next() );
        return im;
    }
    bool immense( const Image & im )
    {
        return static_cast<uint64_t>( im.rowSize() ) * im.height() > 50000000u;
    }
    std::vector<uint8_t> bytes( const Image & im )
    {
        if ( immense( im ) )
            return std::vector<uint8_t>();
        return std::vector<uint8_t>( im.data(), im.data() + static_cast<size_t>( im.rowSize() ) * im.height() );
    }
    uint8_t & px( Image & im, uint32_t x, uint32_t y )
    {
        return im.data()[static_cast<size_t>( y ) * im.rowSize() + x];
    }
    uint8_t px( const Image & im, uint32_t x, uint32_t y )
    {
        return im.data()[static_cast<size_t>( y ) * im.rowSize() + x];
    }
    bool close( double a, double b, double tolerance )
    {
        return std::fabs( a - b ) <= tolerance; // false for NaN
    }
    struct Region
    {
        uint32_t x, y, w, h;
    };
    // an image with a region of the given size somewhere in it
    Image around( Rng & r, uint32_t w, uint32_t h, Region & reg )
    {
        reg.w = w;
        reg.h = h;
        if ( r.u( 0, 79 ) == 0 ) { // in an image of up to 4 GiB, most of which is never touched
            const uint32_t W = w + ( r.chance( 50 ) ? r.u( 0, 300 ) : r.u( 1000, 200000 ) );
            const uint8_t al = r.pick<uint8_t>( { 1, 1, 2, 4, 8, 16, 3, 32 } );
            const uint32_t rowSize = ( W + al - 1u ) / al * al;
            const uint32_t H = std::max( h + 1, ( r.chance( 80 ) ? 4294000000u : 2147000000u ) / rowSize );
            reg.x = r.chance( 50 ) ? W - w : r.u( 0, W - w );
            reg.y = r.chance( 60 ) ? H - h : r.u( 0, H - h );
            try {
                Image im( W, H, 1, al );
                for ( uint32_t y = 0; y < h; ++y )
                    for ( uint32_t x = 0; x < w; ++x )
                        px( im, reg.x + x, reg.y + y ) = static_cast<uint8_t>( r.next() );
                return im;
            }
            catch ( const std::bad_alloc & ) { // then a usual one
            }
        }
        const bool whole = r.chance( 25 );
        if ( !whole && r.u( 0, 39 ) == 0 ) { // far from the left or the top
            const bool wide = r.chance( 50 );
            reg.x = r.u( 0, wide ? 70000 / h : 3 );
            reg.y = r.u( 0, wide ? 3 : 70000 / w );
            return makeImage( r, reg.x + w + r.u( 0, 2 ), reg.y + h + r.u( 0, 2 ) );
        }
        reg.x = whole ? 0 : r.u( 0, 6 );
        reg.y = whole ? 0 : r.u( 0, 6 );
        return makeImage( r, reg.x + w + ( whole ? 0 : r.u( 0, 5 ) ), reg.y + h + ( whole ? 0 : r.u( 0, 5 ) ) );
    }
}

// ------------------------------------------------------------------------------------------------ blobs
namespace blob
{
    using namespace Blob_Detection;

    // which pixels of the region pass
    std::vector<char> drawMask( Rng & r, uint32_t w, uint32_t h, std::string & kind )
    {
        std::vector<char> m( static_cast<size_t>( w ) * h, 0 );
        auto set = [&]( int64_t x, int64_t y, char v ) {
            if ( x >= 0 && y >= 0 && x < w && y < h )
                m[static_cast<size_t>( y ) * w + x] = v;
        };
        switch ( r.u( 0, 10 ) ) {
        case 0: {
            kind = "noise";
            const uint32_t p = r.u( 3, 97 );
            for ( auto & v : m )
                v = r.chance( p );
            break;
        }
        case 1:
            kind = "full";
            std::fill( m.begin(), m.end(), 1 );
            for ( uint32_t k = r.u( 0, 4 ); k > 0; --k )
                set( r.u( 0, w - 1 ), r.u( 0, h - 1 ), 0 );
            break;
        case 2: {
            kind = "spiral";
            int64_t x0 = 0, y0 = 0, x1 = w - 1, y1 = h - 1;
            const int gap = r.i( 2, 4 );
            while ( x0 <= x1 && y0 <= y1 ) {
                for ( int64_t x = x0; x <= x1; ++x )
                    set( x, y0, 1 );
                for ( int64_t y = y0; y <= y1; ++y )
                    set( x1, y, 1 );
                for ( int64_t x = x0 + gap; x <= x1; ++x )
                    set( x, y1, 1 );
                for ( int64_t y = y0 + gap; y <= y1; ++y )
                    set( x0 + gap, y, 1 );
                x0 += gap;
                y0 += gap;
                x1 -= gap;
                y1 -= gap;
            }
            break;
        }
        case 3:
            kind = "comb";
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    set( x, y, ( x % 2 == 0 || y + 1 == h ) );
            break;
        case 4:
            kind = "checkerboard";
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x )
                    set( x, y, ( x + y ) % 2 == 0 );
            break;
        case 5:
        case 6:
            kind = "rings";
            for ( uint32_t k = r.u( 1, 5 ); k > 0; --k ) {
                const double cx = r.d( 0, w ), cy = r.d( 0, h ), outer = r.d( 0.5, std::max( w, h ) / 2.0 + 1 ), inner = r.chance( 50 ) ? 0 : outer * r.d( 0.1, 0.9 );
                for ( uint32_t y = 0; y < h; ++y ) {
                    for ( uint32_t x = 0; x < w; ++x ) {
                        const double d = std::hypot( x - cx, y - cy );
                        if ( d <= outer && d >= inner )
                            set( x, y, 1 );
                    }
                }
            }
            break;
        case 7:
            kind = "lines";
            for ( uint32_t k = r.u( 1, 5 ); k > 0; --k ) {
                int64_t x = r.u( 0, w - 1 ), y = r.u( 0, h - 1 );
                const int dx = r.i( -1, 1 ), dy = r.i( -1, 1 );
                for ( uint32_t n = r.u( 1, 60 ); n > 0; --n, x += dx, y += dy )
                    set( x, y, 1 );
            }
            break;
        case 8:
            kind = "rectangles";
            for ( uint32_t k = r.u( 1, 6 ); k > 0; --k ) {
                const uint32_t x0 = r.u( 0, w - 1 ), y0 = r.u( 0, h - 1 ), ww = r.u( 1, w ), hh = r.u( 1, h );
                const char v = r.chance( 75 );
                for ( uint32_t y = 0; y < hh; ++y )
                    for ( uint32_t x = 0; x < ww; ++x )
                        set( x0 + x, y0 + y, v );
            }
            break;
        case 9:
            kind = "nested";
            for ( uint32_t y = 0; y < h; ++y ) {
                for ( uint32_t x = 0; x < w; ++x ) {
                    const uint32_t d = std::min( std::min( x, w - 1 - x ), std::min( y, h - 1 - y ) );
                    set( x, y, d % 4 < 2 );
                }
            }
            break;
        default:
            kind = "empty";
            for ( uint32_t k = r.u( 0, 2 ); k > 0; --k )
                set( r.u( 0, w - 1 ), r.u( 0, h - 1 ), 1 );
        }
        return m;
    }

    struct Scene
    {
        Image image;
        Region reg;
        uint8_t threshold;
        std::string kind;
        std::vector<char> mask;
        bool pass( int64_t x, int64_t y ) const // in coordinates of the image
        {
            x -= reg.x;
            y -= reg.y;
            return x >= 0 && y >= 0 && x < reg.w && y < reg.h && mask[static_cast<size_t>( y ) * reg.w + x];
        }
    };
    void draw( Rng & r, Scene & s, uint32_t w, uint32_t h )
    {
        s.image = around( r, w, h, s.reg );
        s.mask = drawMask( r, w, h, s.kind );
        s.threshold = r.chance( 40 ) ? 1 : ( r.chance( 10 ) ? r.pick<uint8_t>( { 0, 255 } ) : static_cast<uint8_t>( r.u( 1, 255 ) ) );
        if ( s.threshold == 0 ) // everything passes
            std::fill( s.mask.begin(), s.mask.end(), 1 );
        const bool extremes = r.chance( 30 );
        for ( uint32_t y = 0; y < h; ++y ) {
            for ( uint32_t x = 0; x < w; ++x ) {
                uint8_t v;
                if ( s.mask[static_cast<size_t>( y ) * w + x] )
                    v = extremes ? s.threshold : static_cast<uint8_t>( r.u( s.threshold, 255 ) );
                else
                    v = extremes ? s.threshold - 1 : static_cast<uint8_t>( r.u( 0, s.threshold - 1u ) );
                px( s.image, s.reg.x + x, s.reg.y + y ) = v;
            }
        }
    }
    struct Component
    {
        Points points, edge, contour; // sorted by y and x
    };
    Points sorted( const std::vector<uint32_t> & x, const std::vector<uint32_t> & y )
    {
        Points p;
        for ( size_t k = 0; k < x.size() && k < y.size(); ++k )
            p.emplace_back( y[k], x[k] );
        std::sort( p.begin(), p.end() );
        return p;
    }
    // independent labelling: union of neighbours
    std::vector<Component> components( const Scene & s )
    {
        const uint32_t w = s.reg.w, h = s.reg.h;
        const size_t n = static_cast<size_t>( w ) * h;
        std::vector<size_t> root( n );
        std::iota( root.begin(), root.end(), 0 );
        auto find = [&]( size_t k ) {
            while ( root[k] != k )
                k = root[k] = root[root[k]];
            return k;
        };
        for ( uint32_t y = 0; y < h; ++y ) {
            for ( uint32_t x = 0; x < w; ++x ) {
                const size_t k = static_cast<size_t>( y ) * w + x;
                if ( !s.mask[k] )
                    continue;
                if ( x + 1 < w && s.mask[k + 1] )
                    root[find( k )] = find( k + 1 );
                if ( y + 1 < h ) {
                    for ( int d = -1; d <= 1; ++d ) {
                        if ( static_cast<int64_t>( x ) + d < 0 || x + d >= w )
                            continue;
                        if ( s.mask[k + w + d] )
                            root[find( k )] = find( k + w + d );
                    }
                }
            }
        }
        std::map<size_t, size_t> ids;
        std::vector<Component> res;
        std::vector<char> isEdge( n, 0 );
        for ( uint32_t y = 0; y < h; ++y ) {
            for ( uint32_t x = 0; x < w; ++x ) {
                const size_t k = static_cast<size_t>( y ) * w + x;
                if ( !s.mask[k] )
                    continue;
                const size_t f = find( k );
                auto it = ids.find( f );
                if ( it == ids.end() ) {
                    it = ids.insert( std::make_pair( f, res.size() ) ).first;
                    res.emplace_back();
                }
                Component & c = res[it->second];
                c.points.emplace_back( s.reg.y + y, s.reg.x + x );
                int neighbours = 0;
                for ( int dy = -1; dy <= 1; ++dy )
                    for ( int dx = -1; dx <= 1; ++dx )
                        neighbours += s.pass( static_cast<int64_t>( s.reg.x ) + x + dx, static_cast<int64_t>( s.reg.y ) + y + dy );
                if ( neighbours != 9 ) {
                    isEdge[k] = 1;
                    c.edge.emplace_back( s.reg.y + y, s.reg.x + x );
                }
            }
        }
        // the contour: edge points reachable over edge points from the first one
        for ( Component & c : res ) {
            std::vector<std::pair<uint32_t, uint32_t>> stack( 1, c.points.front() );
            std::set<std::pair<uint32_t, uint32_t>> seen( stack.begin(), stack.end() );
            while ( !stack.empty() ) {
                const auto p = stack.back();
                stack.pop_back();
                for ( int dy = -1; dy <= 1; ++dy ) {
                    for ( int dx = -1; dx <= 1; ++dx ) {
                        const int64_t x = static_cast<int64_t>( p.second ) + dx - s.reg.x, y = static_cast<int64_t>( p.first ) + dy - s.reg.y;
                        if ( x < 0 || y < 0 || x >= w || y >= h || !isEdge[static_cast<size_t>( y ) * w + x] )
                            continue;
                        const std::pair<uint32_t, uint32_t> q( static_cast<uint32_t>( y + s.reg.y ), static_cast<uint32_t>( x + s.reg.x ) );
                        if ( seen.insert( q ).second )
                            stack.push_back( q );
                    }
                }
            }
            c.contour.assign( seen.begin(), seen.end() );
        }
        return res;
    }
    std::string describe( const Scene & s )
    {
        return fmt( "%s, region %ux%u at %u,%u of an image of %ux%u (row of %u bytes), threshold %u", s.kind.c_str(), s.reg.w, s.reg.h, s.reg.x, s.reg.y,
                    s.image.width(), s.image.height(), s.image.rowSize(), s.threshold );
    }
    void size( Rng & r, uint64_t idx, uint32_t & w, uint32_t & h )
    {
        const uint32_t t = r.u( 0, 99 );
        if ( t < 75 ) {
            w = r.u( 1, 14 );
            h = r.u( 1, 14 );
        }
        else if ( t < 97 ) {
            w = r.u( 1, 40 );
            h = r.u( 1, 40 );
        }
        else {
            w = r.u( 1, 120 );
            h = r.u( 1, 120 );
        }
        (void)idx;
    }

    void partition( vf::Ctx & ctx )
    {
        ctx.loop( "B01", [&]( uint64_t idx, Rng & r ) {
            BlobDetection detection;
            const uint32_t rounds = r.u( 1, 2 ); // the same object again
            for ( uint32_t round = 0; round < rounds; ++round ) {
                uint32_t w, h;
                size( r, idx, w, h );
                Scene s;
                draw( r, s, w, h );
                const std::string what = describe( s );
                ctx.begin( idx, "BlobDetection::find " + what );
                const std::vector<uint8_t> before = bytes( s.image );
                const bool whole = s.reg.w == s.image.width() && s.reg.h == s.image.height();
                if ( whole && r.chance( 60 ) )
                    detection.find( s.image, BlobParameters(), s.threshold );
                else
                    detection.find( s.image, s.reg.x, s.reg.y, s.reg.w, s.reg.h, BlobParameters(), s.threshold );
                ++ctx.evaluations;
                ctx.hit( "scene/" + s.kind );
                if ( bytes( s.image ) != before )
                    ctx.fail( "blob/image-changed", what );
                std::vector<Component> expected = components( s );
                std::map<Points, size_t> byPoints;
                for ( size_t k = 0; k < expected.size(); ++k )
                    byPoints[expected[k].points] = k;
                if ( !expected.empty() )
                    ctx.distinct.insert( vf::mix( vf::hashStr( s.kind ), vf::mix( w * 1000 + h, expected.size() * 256 + expected[0].contour.size() ) ) );
                ctx.hit( "blobs", expected.size() );
                const BlobDetection & cd = detection;
                if ( cd.get().size() != expected.size() )
                    ctx.fail( "blob/count", fmt( "%zu blobs instead of %zu: ", cd.get().size(), expected.size() ) + what );
                std::set<size_t> found;
                for ( const BlobInfo & b : cd.get() ) {
                    const Points p = sorted( b.pointX(), b.pointY() );
                    if ( b.pointX().size() != b.pointY().size() || b.edgeX().size() != b.edgeY().size() || b.contourX().size() != b.contourY().size()
                         || b.size() != p.size() ) {
                        ctx.fail( "blob/lists", "lists of coordinates of different lengths: " + what );
                        continue;
                    }
                    auto it = byPoints.find( p );
                    if ( it == byPoints.end() ) {
                        ctx.fail( "blob/component", fmt( "a blob of %zu points is not a connected component: ", p.size() ) + what );
                        continue;
                    }
                    if ( !found.insert( it->second ).second )
                        ctx.fail( "blob/twice", "a component is reported twice: " + what );
                    const Component & c = expected[it->second];
                    if ( sorted( b.edgeX(), b.edgeY() ) != c.edge )
                        ctx.fail( "blob/edge", fmt( "edge points of a blob of %zu points: %zu instead of %zu or other ones: ", p.size(), b.edgeX().size(), c.edge.size() ) + what );
                    if ( sorted( b.contourX(), b.contourY() ) != c.contour )
                        ctx.fail( "blob/contour",
                                  fmt( "contour points of a blob of %zu points: %zu instead of %zu or other ones: ", p.size(), b.contourX().size(), c.contour.size() ) + what );
                    if ( b.isSolid() != ( c.edge.size() == c.contour.size() ) )
                        ctx.fail( "blob/solid", "isSolid() is wrong: " + what );
                    if ( !b.isSolid() )
                        ctx.hit( "hollow" );
                }
                // refused searches change nothing
                if ( r.chance( 10 ) ) {
                    const size_t n = cd.get().size();
                    const Points first = n ? sorted( cd.get()[0].pointX(), cd.get()[0].pointY() ) : Points();
                    bool ok = false;
                    const uint32_t t = r.u( 0, 3 );
                    ctx.begin( idx, "BlobDetection::find refused " + what );
                    ok = refused( [&] {
                        BlobParameters p;
                        if ( t == 0 )
                            detection.find( s.image, s.image.width(), 0, 1, 1 );
                        else if ( t == 1 )
                            detection.find( s.image, 0, 0, 0, 1 );
                        else if ( t == 2 ) {
                            const Image rgb = makeImage( r, 5, 5, 3 );
                            detection.find( rgb );
                        }
                        else {
                            p.width.set( 5, 4 );
                            detection.find( s.image, p );
                        }
                    } );
                    ++ctx.evaluations;
                    if ( !ok )
                        ctx.fail( "blob/accepted", fmt( "invalid search %u was accepted", t ) );
                    if ( cd.get().size() != n || ( n && sorted( cd.get()[0].pointX(), cd.get()[0].pointY() ) != first ) )
                        ctx.fail( "blob/refused-changed", "a refused search changed the blobs found before" );
                }
                if ( idx < 3 )
                    ctx.sample( what + fmt( ": %zu blobs", expected.size() ) );
            }
        } );
    }

    struct Measures
    {
        uint32_t left, right, top, bottom;
        double cx, cy, circularity, length;
        std::vector<double> elongation; // one value for every pair of points with the longest distance
    };
    Measures measure( const Points & points, const Points & contour )
    {
        Measures m;
        m.left = m.top = UINT32_MAX;
        m.right = m.bottom = 0;
        long double sx = 0, sy = 0;
        for ( const auto & p : points ) {
            m.left = std::min( m.left, p.second );
            m.right = std::max( m.right, p.second + 1 );
            m.top = std::min( m.top, p.first );
            m.bottom = std::max( m.bottom, p.first + 1 );
            sx += p.second;
            sy += p.first;
        }
        m.cx = static_cast<double>( sx / points.size() );
        m.cy = static_cast<double>( sy / points.size() );
        const long double radius = std::sqrt( static_cast<long double>( points.size() ) / 3.14159265358979323846264338327950288L );
        long double difference = 0;
        for ( const auto & p : contour )
            difference += std::fabs( std::hypot( p.second - sx / points.size(), p.first - sy / points.size() ) - radius );
        m.circularity = static_cast<double>( 1 - difference / ( contour.size() * radius ) );
        int64_t best = 0;
        std::vector<std::pair<size_t, size_t>> pairs;
        for ( size_t i = 0; i < contour.size(); ++i ) {
            for ( size_t j = i + 1; j < contour.size(); ++j ) {
                const int64_t dx = static_cast<int64_t>( contour[i].second ) - contour[j].second, dy = static_cast<int64_t>( contour[i].first ) - contour[j].first;
                const int64_t d = dx * dx + dy * dy;
                if ( d > best ) {
                    best = d;
                    pairs.clear();
                }
                if ( d == best && pairs.size() < 64 )
                    pairs.emplace_back( i, j );
            }
        }
        m.length = std::sqrt( static_cast<double>( best ) );
        if ( contour.size() < 2 )
            m.elongation.push_back( 1 );
        for ( const auto & p : pairs ) {
            const double dx = ( static_cast<double>( contour[p.second].second ) - contour[p.first].second ) / m.length,
                         dy = ( static_cast<double>( contour[p.second].first ) - contour[p.first].first ) / m.length;
            double low = 1e300, high = -1e300;
            for ( const auto & q : contour ) { // distance from the chord
                const double v = ( static_cast<double>( q.first ) - contour[p.first].first ) * dx - ( static_cast<double>( q.second ) - contour[p.first].second ) * dy;
                low = std::min( low, v );
                high = std::max( high, v );
            }
            m.elongation.push_back( m.length / std::max( 1.0, high - low ) );
        }
        return m;
    }
    const char * const NAMES[] = { "circularity", "elongation", "height", "length", "size", "width" };
    double value( BlobInfo & b, int which )
    {
        switch ( which ) {
        case 0:
            return b.circularity();
        case 1:
            return b.elongation();
        case 2:
            return b.height();
        case 3:
            return b.length();
        case 4:
            return static_cast<double>( b.size() );
        default:
            return b.width();
        }
    }
    double value( const BlobInfo & b, int which )
    {
        switch ( which ) {
        case 0:
            return b.circularity();
        case 1:
            return b.elongation();
        case 2:
            return b.height();
        case 3:
            return b.length();
        case 4:
            return static_cast<double>( b.size() );
        default:
            return b.width();
        }
    }
    void checkMeasures( vf::Ctx & ctx, BlobInfo & b, const Measures & m, const std::string & what, bool withElongation = true )
    {
        const double e = 1e-9;
        ++ctx.evaluations;
        const Area a = b.area();
        if ( a.left != m.left || a.right != m.right || a.top != m.top || a.bottom != m.bottom )
            ctx.fail( "blob/area", fmt( "area %u-%u,%u-%u instead of %u-%u,%u-%u: ", a.left, a.right, a.top, a.bottom, m.left, m.right, m.top, m.bottom ) + what );
        if ( b.width() != m.right - m.left || b.height() != m.bottom - m.top )
            ctx.fail( "blob/box", fmt( "%u x %u instead of %u x %u: ", b.width(), b.height(), m.right - m.left, m.bottom - m.top ) + what );
        if ( !close( b.center().x, m.cx, e * 1e4 ) || !close( b.center().y, m.cy, e * 1e4 ) )
            ctx.fail( "blob/center", fmt( "center %.9g,%.9g instead of %.9g,%.9g of %zu points: ", b.center().x, b.center().y, m.cx, m.cy, b.size() ) + what );
        if ( !close( b.length(), m.length, e * 1e3 ) )
            ctx.fail( "blob/length", fmt( "length %.9g instead of %.9g: ", b.length(), m.length ) + what );
        if ( !close( b.circularity(), m.circularity, 1e-6 ) )
            ctx.fail( "blob/circularity", fmt( "circularity %.9g instead of %.9g of %zu points: ", b.circularity(), m.circularity, b.size() ) + what );
        if ( !withElongation )
            return;
        bool ok = m.elongation.size() >= 64;
        for ( double v : m.elongation )
            ok = ok || close( b.elongation(), v, 1e-6 * std::max( 1.0, v ) );
        if ( !ok )
            ctx.fail( "blob/elongation", fmt( "elongation %.9g instead of %.9g of %zu points: ", b.elongation(), m.elongation[0], b.size() ) + what );
    }
    void big( vf::Ctx & ctx, uint64_t idx, Rng & r )
    {
        const bool line = r.chance( 30 );
        const bool vertical = r.chance( 50 );
        uint32_t w, h;
        if ( line ) {
            w = r.u( 46350, 50000 );
            h = 1;
        }
        else {
            w = r.u( 1400, 2100 );
            h = r.u( 1400, 2100 );
        }
        if ( vertical )
            std::swap( w, h );
        const uint32_t pad = line ? 0 : 20;
        Image im( w + pad, h + pad, 1, 1 );
        im.fill( 0 );
        Points points, contour;
        for ( uint32_t y = 0; y < h; ++y ) {
            for ( uint32_t x = 0; x < w; ++x ) {
                px( im, x + pad, y + pad ) = 200;
                points.emplace_back( y + pad, x + pad );
                if ( x == 0 || y == 0 || x + 1 == w || y + 1 == h )
                    contour.emplace_back( y + pad, x + pad );
            }
        }
        const std::string what = fmt( "a filled rectangle of %u x %u", w, h );
        ctx.begin( idx, "blob big " + what );
        BlobDetection d;
        d.find( im );
        ctx.hit( "big" );
        ctx.distinct.insert( vf::mix( w, h ) );
        if ( d.get().size() != 1 ) {
            ctx.fail( "blob/count", what );
            return;
        }
        BlobInfo & b = d.get()[0];
        if ( line ) {
            ++ctx.evaluations;
            if ( !close( b.length(), std::max( w, h ) - 1.0, 1e-6 ) )
                ctx.fail( "blob/length", fmt( "length %.9g instead of %u: ", b.length(), std::max( w, h ) - 1 ) + what );
            return;
        }
        Points corners; // enough for all measures but circularity
        checkMeasures( ctx, b, measure( points, contour ), what );
    }
    void measures( vf::Ctx & ctx )
    {
        ctx.loop( "B02", [&]( uint64_t idx, Rng & r ) {
            if ( idx % 2048 == 5 ) {
                big( ctx, idx, r );
                return;
            }
            uint32_t w, h;
            size( r, idx, w, h );
            Scene s;
            draw( r, s, w, h );
            const std::string what = describe( s );
            ctx.begin( idx, "blob measures " + what );
            BlobDetection all;
            all.find( s.image, s.reg.x, s.reg.y, s.reg.w, s.reg.h, BlobParameters(), s.threshold );
            // nothing was requested: nothing but the size is calculated
            for ( const BlobInfo & b : static_cast<const BlobDetection &>( all ).get() ) {
                ++ctx.evaluations;
                for ( int k = 0; k < 6; ++k ) {
                    if ( k != 4 && value( b, k ) != 0 )
                        ctx.fail( std::string( "blob/arbitrary-" ) + NAMES[k], fmt( "a measure which was not requested is %g: ", value( b, k ) ) + what );
                }
                if ( b.center().x != 0 || b.center().y != 0 || b.area().right != 0 )
                    ctx.fail( "blob/arbitrary-center", what );
            }
            std::map<Points, std::vector<double>> values;
            const size_t limit = 40;
            size_t done = 0;
            for ( BlobInfo & b : all.get() ) {
                if ( done++ < limit )
                    checkMeasures( ctx, b, measure( sorted( b.pointX(), b.pointY() ), sorted( b.contourX(), b.contourY() ) ), what );
                std::vector<double> v;
                for ( int k = 0; k < 6; ++k ) {
                    v.push_back( value( b, k ) );
                    if ( value( static_cast<const BlobInfo &>( b ), k ) != v.back() )
                        ctx.fail( std::string( "blob/constant-" ) + NAMES[k], "constant and non-constant access differ: " + what );
                }
                values[sorted( b.pointX(), b.pointY() )] = v;
            }
            if ( values.empty() )
                return;
            ctx.hit( "blobs", values.size() );
            // intervals
            BlobParameters p;
            bool use[6] = {}, minimum[6] = {}, maximum[6] = {};
            double low[6], high[6];
            std::string text;
            for ( uint32_t n = r.u( 1, 3 ); n > 0; --n ) {
                const int k = r.i( 0, 5 );
                std::vector<double> candidates;
                for ( const auto & v : values )
                    candidates.push_back( v.second[k] );
                double a = r.pick( candidates ), b = r.pick( candidates );
                if ( r.chance( 30 ) )
                    a += ( k == 0 || k == 1 || k == 3 ) ? r.d( -1, 1 ) : ( a > 0 ? r.i( -1, 1 ) : 0 );
                if ( a > b )
                    std::swap( a, b );
                use[k] = true;
                const uint32_t t = r.u( 0, 2 );
                minimum[k] = t != 1;
                maximum[k] = t != 0;
                low[k] = a;
                high[k] = b;
                auto apply = [&]( auto & parameter ) {
                    typedef decltype( parameter.minimum ) T;
                    parameter.reset();
                    if ( minimum[k] && maximum[k] )
                        parameter.set( static_cast<T>( a ), static_cast<T>( b ) );
                    else if ( minimum[k] )
                        parameter.setMinimum( static_cast<T>( a ) );
                    else
                        parameter.setMaximum( static_cast<T>( b ) );
                };
                if ( k == 0 )
                    apply( p.circularity );
                else if ( k == 1 )
                    apply( p.elongation );
                else if ( k == 2 )
                    apply( p.height );
                else if ( k == 3 )
                    apply( p.length );
                else if ( k == 4 )
                    apply( p.size );
                else
                    apply( p.width );
                text += fmt( " %s %s%.9g %s%.9g", NAMES[k], minimum[k] ? "from " : "(", a, maximum[k] ? "to " : "(", b );
            }
            ctx.begin( idx, "blob intervals" + text + " " + what );
            BlobDetection some;
            const std::vector<BlobInfo> & res = some.find( s.image, s.reg.x, s.reg.y, s.reg.w, s.reg.h, p, s.threshold );
            ++ctx.evaluations;
            std::set<Points> kept;
            for ( const auto & v : values ) {
                bool in = true;
                for ( int k = 0; k < 6; ++k )
                    in = in && !( use[k] && ( ( minimum[k] && v.second[k] < low[k] ) || ( maximum[k] && v.second[k] > high[k] ) ) );
                if ( in )
                    kept.insert( v.first );
            }
            ctx.hit( "filtered", values.size() - kept.size() );
            ctx.hit( "kept", kept.size() );
            ctx.distinct.insert( vf::mix( vf::hashStr( text ), values.size() ) );
            std::set<Points> got;
            for ( const BlobInfo & b : res )
                got.insert( sorted( b.pointX(), b.pointY() ) );
            if ( got != kept || res.size() != kept.size() )
                ctx.fail( "blob/interval", fmt( "%zu blobs instead of %zu or other ones for%s: ", res.size(), kept.size(), text.c_str() ) + what );
            for ( const BlobInfo & b : res ) {
                const auto it = values.find( sorted( b.pointX(), b.pointY() ) );
                if ( it == values.end() )
                    continue;
                for ( int k = 0; k < 6; ++k ) {
                    const double v = value( b, k );
                    if ( use[k] && v != it->second[k] )
                        ctx.fail( std::string( "blob/requested-" ) + NAMES[k], fmt( "a requested measure is %.9g instead of %.9g: ", v, it->second[k] ) + what );
                    if ( !use[k] && k != 4 && v != 0 && v != it->second[k] )
                        ctx.fail( std::string( "blob/arbitrary-" ) + NAMES[k], fmt( "a measure which was not requested is %.9g: ", v ) + what );
                }
            }
            // order and extremes
            const int k = r.i( 0, 5 );
            typedef BlobDetection::BlobCriterion C;
            const C criterion[] = { C::BY_CIRCULARITY, C::BY_ELONGATION, C::BY_HEIGHT, C::BY_LENGTH, C::BY_SIZE, C::BY_WIDTH };
            ctx.begin( idx, std::string( "blob order by " ) + NAMES[k] + " " + what );
            double top = -1e300;
            for ( const auto & v : values )
                top = std::max( top, v.second[k] );
            const BlobInfo & best = static_cast<const BlobDetection &>( all ).getBestBlob( criterion[k] );
            ++ctx.evaluations;
            if ( value( best, k ) != top )
                ctx.fail( std::string( "blob/best-" ) + NAMES[k], fmt( "the best blob has %.9g, another one %.9g: ", value( best, k ), top ) + what );
            all.sort( criterion[k] );
            ++ctx.evaluations;
            std::set<Points> after;
            double last = 1e300;
            for ( const BlobInfo & b : static_cast<const BlobDetection &>( all )() ) {
                if ( value( b, k ) > last )
                    ctx.fail( std::string( "blob/order-" ) + NAMES[k], fmt( "%.9g follows %.9g: ", value( b, k ), last ) + what );
                last = value( b, k );
                const Points q = sorted( b.pointX(), b.pointY() );
                after.insert( q );
                const auto it = values.find( q );
                if ( it == values.end() )
                    continue;
                for ( int j = 0; j < 6; ++j ) {
                    if ( value( b, j ) != it->second[j] )
                        ctx.fail( std::string( "blob/sorted-" ) + NAMES[j], "sorting changed a measure: " + what );
                }
            }
            if ( after.size() != values.size() || all.get().size() != values.size() )
                ctx.fail( "blob/sort-lost", "sorting lost blobs: " + what );
            if ( idx < 2 )
                ctx.sample( what + text );
        } );
    }
}

// ------------------------------------------------------------------------------------------------ edges
namespace edge
{
    typedef EdgeParameter EP;
    const char * const DIRECTION[] = { "left-to-right", "right-to-left", "top-to-bottom", "bottom-to-top" };

    template <typename T>
    struct Line
    {
        std::vector<T> rising; // positions along the data
        bool ambiguous = false;
    };
    // rising edges of a sequence of intensities by definition
    template <typename T>
    Line<T> rising( const std::vector<int> & s, int64_t contrast, uint64_t leftOffset, uint64_t rightOffset )
    {
        Line<T> res;
        const int64_t n = static_cast<int64_t>( s.size() );
        auto d1 = [&]( int64_t k ) { return s[k + 1] - s[k]; };
        auto d2 = [&]( int64_t k ) { return s[k + 1] - 2 * s[k] + s[k - 1]; };
        std::vector<T> points;
        for ( int64_t i = 1; i + 2 < n; ++i ) {
            if ( d2( i ) < 0 || d2( i + 1 ) > 0 )
                continue; // the slope has its peak between i and i + 1
            const int peak = std::max( d1( i ), d1( i + 1 ) );
            if ( peak <= 0 )
                continue;
            const int third = std::max( 1, peak / 3 ), half = std::max( 1, peak / 2 );
            // where the slope falls below a half and a third of its peak; a higher slope ends the search
            int64_t flank[2][2] = { { -1, -1 }, { -1, -1 } }; // side, half or third
            for ( int side = 0; side < 2; ++side ) {
                for ( int64_t j = side ? i + 1 : i; side ? j <= n - 2 : j >= 0; side ? ++j : --j ) {
                    if ( flank[side][0] < 0 && d1( j ) < half )
                        flank[side][0] = j;
                    if ( d1( j ) < third ) {
                        flank[side][1] = j;
                        break;
                    }
                    if ( d1( j ) > peak )
                        break;
                }
            }
            for ( int kind = 0; kind < 2; ++kind ) {
                const int64_t a = flank[0][kind], b = flank[1][kind];
                if ( a < 0 || b < 0 )
                    continue;
                int low = s[a], high = s[a];
                for ( int64_t k = a; k <= b; ++k ) {
                    low = std::min( low, s[k] );
                    high = std::max( high, s[k] );
                }
                if ( high - low < contrast )
                    continue;
                if ( leftOffset > 0 && rightOffset > 0 ) {
                    if ( leftOffset > static_cast<uint64_t>( i ) || rightOffset >= static_cast<uint64_t>( n - i ) )
                        continue;
                    double dark = 0, bright = 0;
                    for ( int64_t k = i - static_cast<int64_t>( leftOffset ); k <= i; ++k )
                        dark += s[k];
                    for ( int64_t k = i + 1; k <= i + static_cast<int64_t>( rightOffset ); ++k )
                        bright += s[k];
                    dark /= static_cast<double>( leftOffset + 1 );
                    bright /= static_cast<double>( rightOffset );
                    if ( std::fabs( bright - dark - static_cast<double>( contrast ) ) < 1e-3 && bright - dark != static_cast<double>( contrast ) )
                        res.ambiguous = true; // depends on rounding
                    if ( bright - dark < static_cast<double>( contrast ) )
                        continue;
                }
                points.push_back( static_cast<T>( d2( i ) != d2( i + 1 ) ? static_cast<double>( i ) + static_cast<double>( d2( i ) ) / ( d2( i ) - d2( i + 1 ) )
                                                                         : static_cast<double>( i ) + 0.5 ) );
                break;
            }
        }
        for ( T v : points ) { // at least one pixel between edges
            if ( !res.rising.empty() ) {
                const double d = static_cast<double>( v ) - static_cast<double>( res.rising.back() );
                if ( std::fabs( d - 1 ) < 1e-4 && d != 1 )
                    res.ambiguous = true;
                if ( d < 1 )
                    continue;
            }
            res.rising.push_back( v );
        }
        return res;
    }
    template <typename T>
    struct Result
    {
        std::vector<std::pair<double, double>> positive, negative;
        bool ambiguous = false;
    };
    template <typename T>
    Result<T> reference( const Image & im, const Region & g, const EP & p )
    {
        Result<T> res;
        const bool horizontal = p.direction == EP::DirectionType::LEFT_TO_RIGHT || p.direction == EP::DirectionType::RIGHT_TO_LEFT;
        const bool forward = p.direction == EP::DirectionType::LEFT_TO_RIGHT || p.direction == EP::DirectionType::TOP_TO_BOTTOM;
        const uint32_t length = horizontal ? g.w : g.h, lines = horizontal ? g.h : g.w;
        if ( length < 4 )
            return res;
        for ( uint64_t line = 0; line + p.groupFactor <= lines; line += p.skipFactor ) {
            std::vector<int> s( length, 0 );
            for ( uint32_t k = 0; k < length; ++k ) {
                for ( uint32_t j = 0; j < p.groupFactor; ++j ) {
                    const uint32_t across = static_cast<uint32_t>( line ) + j;
                    s[k] += horizontal ? px( im, g.x + k, g.y + across ) : px( im, g.x + across, g.y + k );
                }
            }
            if ( !forward )
                std::reverse( s.begin(), s.end() ); // along the direction of scanning
            const int64_t contrast = static_cast<int64_t>( p.minimumContrast ) * p.groupFactor;
            Line<T> up = rising<T>( forward ? s : s, contrast, p.contrastCheckLeftSideOffset, p.contrastCheckRightSideOffset );
            std::vector<int> t( s.rbegin(), s.rend() );
            Line<T> down = rising<T>( t, contrast, p.contrastCheckLeftSideOffset, p.contrastCheckRightSideOffset );
            res.ambiguous = res.ambiguous || up.ambiguous || down.ambiguous;
            std::vector<double> rise, fall;
            for ( T v : up.rising )
                rise.push_back( static_cast<double>( v ) );
            for ( T v : down.rising )
                fall.push_back( length - 1 - static_cast<double>( v ) );
            std::reverse( fall.begin(), fall.end() );
            for ( auto * v : { &rise, &fall } ) {
                if ( v->size() > 1 && p.edge == EP::EdgeType::FIRST )
                    v->resize( 1 );
                if ( v->size() > 1 && p.edge == EP::EdgeType::LAST )
                    v->erase( v->begin(), v->end() - 1 );
            }
            const double across = ( horizontal ? g.y : g.x ) + static_cast<double>( line ) + ( p.groupFactor - 1 ) / 2.0;
            auto add = [&]( const std::vector<double> & from, std::vector<std::pair<double, double>> & to ) {
                for ( double v : from ) {
                    const double along = ( horizontal ? g.x : g.y ) + ( forward ? v : length - 1 - v );
                    to.emplace_back( horizontal ? along : across, horizontal ? across : along );
                }
            };
            if ( p.gradient != EP::GradientType::NEGATIVE )
                add( rise, res.positive );
            if ( p.gradient != EP::GradientType::POSITIVE )
                add( fall, res.negative );
        }
        return res;
    }
    template <typename T>
    std::vector<std::pair<double, double>> plain( const std::vector<PointBase2D<T>> & v )
    {
        std::vector<std::pair<double, double>> res;
        for ( const auto & p : v )
            res.emplace_back( p.x, p.y );
        return res;
    }
    bool same( std::vector<std::pair<double, double>> a, std::vector<std::pair<double, double>> b, double e, std::string & diff )
    {
        // sorted along lines first; positions of one line are at least one pixel apart
        auto key = [e]( const std::pair<double, double> & p, const std::pair<double, double> & q ) {
            if ( std::fabs( p.second - q.second ) > e )
                return p.second < q.second;
            return p.first < q.first;
        };
        auto key2 = [e]( const std::pair<double, double> & p, const std::pair<double, double> & q ) {
            if ( std::fabs( p.first - q.first ) > e )
                return p.first < q.first;
            return p.second < q.second;
        };
        if ( a.size() != b.size() ) {
            diff = fmt( "%zu points instead of %zu", a.size(), b.size() );
            return false;
        }
        for ( int k = 0; k < 2; ++k ) {
            if ( k == 0 ) {
                std::sort( a.begin(), a.end(), key );
                std::sort( b.begin(), b.end(), key );
            }
            else {
                std::sort( a.begin(), a.end(), key2 );
                std::sort( b.begin(), b.end(), key2 );
            }
            bool ok = true;
            for ( size_t i = 0; i < a.size() && ok; ++i ) {
                if ( !close( a[i].first, b[i].first, e ) || !close( a[i].second, b[i].second, e ) ) {
                    ok = false;
                    diff = fmt( "point %.9g,%.9g instead of %.9g,%.9g", a[i].first, a[i].second, b[i].first, b[i].second );
                }
            }
            if ( ok )
                return true;
        }
        return false;
    }
    void drawSignal( Rng & r, Image & im, const Region & g, bool horizontal, std::string & kind )
    {
        const uint32_t n = horizontal ? g.w : g.h, lines = horizontal ? g.h : g.w;
        std::vector<double> s( n );
        const uint32_t t = r.u( 0, 6 );
        const int noise = r.chance( 50 ) ? 0 : r.i( 0, 12 );
        double slope = 0;
        std::vector<std::pair<double, double>> steps; // position, height
        switch ( t ) {
        case 0:
            kind = "noise";
            break;
        case 1:
            kind = "constant";
            std::fill( s.begin(), s.end(), r.u( 0, 255 ) );
            break;
        case 2:
        case 3:
        case 4: {
            kind = t == 2 ? "steps" : ( t == 3 ? "ramps" : "blurred" );
            double v = r.u( 0, 255 );
            uint32_t k = 0;
            while ( k < n ) {
                const uint32_t flat = r.u( 1, std::max( 2u, n / 3 ) );
                for ( uint32_t j = 0; j < flat && k < n; ++j )
                    s[k++] = v;
                const double next = r.u( 0, 255 );
                const uint32_t width = t == 2 ? 0 : r.u( 1, 6 );
                for ( uint32_t j = 1; j <= width && k < n; ++j )
                    s[k++] = v + ( next - v ) * j / ( width + 1 );
                v = next;
            }
            if ( t == 4 ) {
                for ( int pass = 0; pass < 2; ++pass ) {
                    std::vector<double> b( s );
                    for ( uint32_t k2 = 1; k2 + 1 < n; ++k2 )
                        b[k2] = ( s[k2 - 1] + 2 * s[k2] + s[k2 + 1] ) / 4;
                    s = b;
                }
            }
            break;
        }
        case 5:
            kind = "wave";
            for ( uint32_t k = 0; k < n; ++k )
                s[k] = 127 + 120 * std::sin( k / r.d( 1.0, 1.3 ) );
            break;
        default:
            kind = "few-values";
        }
        if ( r.chance( 20 ) )
            slope = r.d( -1, 1 );
        for ( uint32_t a = 0; a < lines; ++a ) {
            for ( uint32_t k = 0; k < n; ++k ) {
                double v;
                if ( t == 0 )
                    v = r.u( 0, 255 );
                else if ( t == 6 )
                    v = r.pick( { 0, 0, 100, 109, 110, 111, 255 } );
                else {
                    int64_t q = static_cast<int64_t>( k + slope * a );
                    q = std::max<int64_t>( 0, std::min<int64_t>( n - 1, q ) );
                    v = s[q] + ( noise ? r.i( -noise, noise ) : 0 );
                }
                const uint8_t b = static_cast<uint8_t>( std::max( 0.0, std::min( 255.0, v ) ) );
                if ( horizontal )
                    px( im, g.x + k, g.y + a ) = b;
                else
                    px( im, g.x + a, g.y + k ) = b;
            }
        }
    }
    template <typename T>
    void compare( vf::Ctx & ctx, const EdgeDetectionBase<T> & d, const Result<T> & expected, const std::string & what, const char * type, const Region & g )
    {
        ++ctx.evaluations;
        std::string diff;
        const auto positive = plain( d.positiveEdge() ), negative = plain( d.negativeEdge() );
        const double e = sizeof( T ) == 4 ? 2e-3 : 1e-7;
        if ( !expected.ambiguous ) {
            if ( !same( positive, expected.positive, e, diff ) )
                ctx.fail( std::string( "edge/positive/" ) + type, diff + ": " + what );
            if ( !same( negative, expected.negative, e, diff ) )
                ctx.fail( std::string( "edge/negative/" ) + type, diff + ": " + what );
        }
        else
            ctx.hit( "ambiguous" );
        for ( const auto * v : { &positive, &negative } ) {
            for ( const auto & p : *v ) {
                if ( !( p.first >= g.x - e && p.first <= g.x + g.w - 1 + e && p.second >= g.y - e && p.second <= g.y + g.h - 1 + e ) )
                    ctx.fail( std::string( "edge/outside/" ) + type, fmt( "point %.9g,%.9g is outside of the region: ", p.first, p.second ) + what );
            }
        }
        ctx.hit( "points", positive.size() + negative.size() );
    }
    void run( vf::Ctx & ctx )
    {
        ctx.loop( "E01", [&]( uint64_t idx, Rng & r ) {
            uint32_t w = r.chance( 15 ) ? r.u( 1, 5 ) : r.u( 4, 48 ), h = r.chance( 25 ) ? r.u( 1, 5 ) : r.u( 1, 20 );
            EP p;
            p.direction = r.pick( { EP::DirectionType::LEFT_TO_RIGHT, EP::DirectionType::RIGHT_TO_LEFT, EP::DirectionType::TOP_TO_BOTTOM, EP::DirectionType::BOTTOM_TO_TOP } );
            const bool horizontal = p.direction == EP::DirectionType::LEFT_TO_RIGHT || p.direction == EP::DirectionType::RIGHT_TO_LEFT;
            if ( !horizontal )
                std::swap( w, h );
            p.gradient = r.pick( { EP::GradientType::POSITIVE, EP::GradientType::NEGATIVE, EP::GradientType::ANY, EP::GradientType::ANY } );
            p.edge = r.pick( { EP::EdgeType::FIRST, EP::EdgeType::LAST, EP::EdgeType::ALL, EP::EdgeType::ALL } );
            p.groupFactor = r.chance( 50 ) ? 1 : ( r.chance( 5 ) ? r.pick<uint32_t>( { 100, 65536, UINT32_MAX } ) : r.u( 1, 6 ) );
            p.skipFactor = r.chance( 60 ) ? 1 : ( r.chance( 5 ) ? r.pick<uint32_t>( { 1000, UINT32_MAX, UINT32_MAX - 1, 1u << 31 } ) : r.u( 1, 6 ) );
            if ( r.chance( 35 ) ) {
                p.contrastCheckLeftSideOffset = r.chance( 5 ) ? r.pick<uint32_t>( { UINT32_MAX, UINT32_MAX - 3, 1000 } ) : r.u( 0, 6 );
                p.contrastCheckRightSideOffset = r.chance( 8 ) ? r.pick<uint32_t>( { UINT32_MAX, UINT32_MAX - 3, UINT32_MAX - 1, 1000 } ) : r.u( 0, 6 );
            }
            p.minimumContrast = r.chance( 50 ) ? 10 : ( r.chance( 20 ) ? r.pick<uint8_t>( { 1, 255, 100 } ) : static_cast<uint8_t>( r.u( 1, 255 ) ) );
            Region g;
            Image im = around( r, w, h, g );
            std::string kind;
            drawSignal( r, im, g, horizontal, kind );
            const std::string what
                = fmt( "%s %s, gradient %d, edge %d, group %u, skip %u, offsets %u,%u, contrast %u, region %ux%u at %u,%u of %ux%u", kind.c_str(),
                       DIRECTION[static_cast<int>( p.direction )], static_cast<int>( p.gradient ), static_cast<int>( p.edge ), p.groupFactor, p.skipFactor,
                       p.contrastCheckLeftSideOffset, p.contrastCheckRightSideOffset, p.minimumContrast, g.w, g.h, g.x, g.y, im.width(), im.height() );
            ctx.begin( idx, "EdgeDetection::find " + what );
            const std::vector<uint8_t> before = bytes( im );
            EdgeDetectionBase<double> d;
            EdgeDetectionBase<float> f;
            if ( r.chance( 20 ) ) { // an earlier search leaves nothing behind
                const Image other = makeImage( r, 20, 9 );
                d.find( other );
                f.find( other );
            }
            const bool whole = g.w == im.width() && g.h == im.height();
            if ( whole && r.chance( 50 ) ) {
                d.find( im, p );
                f.find( im, p );
            }
            else {
                d.find( im, g.x, g.y, g.w, g.h, p );
                f.find( im, g.x, g.y, g.w, g.h, p );
            }
            if ( bytes( im ) != before )
                ctx.fail( "edge/image-changed", what );
            const Result<double> rd = reference<double>( im, g, p );
            const Result<float> rf = reference<float>( im, g, p );
            compare( ctx, d, rd, what, "double", g );
            if ( g.x + g.w < 2000 && g.y + g.h < 2000 ) // where float holds positions well enough
                compare( ctx, f, rf, what, "float", g );
            ctx.hit( "scene/" + kind );
            if ( !rd.positive.empty() || !rd.negative.empty() )
                ctx.distinct.insert( vf::hashStr( what ) );
            if ( idx < 3 )
                ctx.sample( what + fmt( ": %zu positive, %zu negative", rd.positive.size(), rd.negative.size() ) );
            const auto positive = plain( d.positiveEdge() ), negative = plain( d.negativeEdge() );
            std::string diff;
            // whatever lies outside of the region does not matter
            if ( !immense( im ) && r.chance( 30 ) ) {
                Image other = makeImage( r, im.width(), im.height() );
                for ( uint32_t y = 0; y < g.h; ++y )
                    for ( uint32_t x = 0; x < g.w; ++x )
                        px( other, g.x + x, g.y + y ) = px( static_cast<const Image &>( im ), g.x + x, g.y + y );
                EdgeDetectionBase<double> o;
                o.find( other, g.x, g.y, g.w, g.h, p );
                ++ctx.evaluations;
                if ( plain( o.positiveEdge() ) != positive || plain( o.negativeEdge() ) != negative )
                    ctx.fail( "edge/foreign", "the result depends on pixels outside of the region or on padding: " + what );
            }
            // mirrored and transposed images
            if ( r.chance( 40 ) && !rd.ambiguous ) {
                const bool transpose = r.chance( 50 );
                Image other( transpose ? g.h : g.w, transpose ? g.w : g.h );
                EP q = p;
                if ( transpose ) {
                    q.direction = horizontal ? ( p.direction == EP::DirectionType::LEFT_TO_RIGHT ? EP::DirectionType::TOP_TO_BOTTOM : EP::DirectionType::BOTTOM_TO_TOP )
                                             : ( p.direction == EP::DirectionType::TOP_TO_BOTTOM ? EP::DirectionType::LEFT_TO_RIGHT : EP::DirectionType::RIGHT_TO_LEFT );
                }
                else {
                    q.direction = horizontal ? ( p.direction == EP::DirectionType::LEFT_TO_RIGHT ? EP::DirectionType::RIGHT_TO_LEFT : EP::DirectionType::LEFT_TO_RIGHT )
                                             : ( p.direction == EP::DirectionType::TOP_TO_BOTTOM ? EP::DirectionType::BOTTOM_TO_TOP : EP::DirectionType::TOP_TO_BOTTOM );
                }
                for ( uint32_t y = 0; y < g.h; ++y ) {
                    for ( uint32_t x = 0; x < g.w; ++x ) {
                        const uint8_t v = px( static_cast<const Image &>( im ), g.x + x, g.y + y );
                        if ( transpose )
                            px( other, y, x ) = v;
                        else if ( horizontal )
                            px( other, g.w - 1 - x, y ) = v;
                        else
                            px( other, x, g.h - 1 - y ) = v;
                    }
                }
                EdgeDetectionBase<double> o;
                o.find( other, q );
                auto map = [&]( std::vector<std::pair<double, double>> v ) {
                    for ( auto & a : v ) {
                        a.first -= g.x;
                        a.second -= g.y;
                        if ( transpose )
                            std::swap( a.first, a.second );
                        else if ( horizontal )
                            a.first = g.w - 1 - a.first;
                        else
                            a.second = g.h - 1 - a.second;
                    }
                    return v;
                };
                ++ctx.evaluations;
                if ( !same( plain( o.positiveEdge() ), map( positive ), 1e-7, diff ) || !same( plain( o.negativeEdge() ), map( negative ), 1e-7, diff ) )
                    ctx.fail( transpose ? "edge/transposed" : "edge/mirrored", diff + ": " + what );
            }
            // a straight step is found where it is
            if ( r.chance( 30 ) ) {
                const uint32_t n = r.u( 5, 60 ), lines = r.u( 1, 12 ), at = r.u( 2, n - 3 );
                const int a = r.i( 0, 255 ), b = r.i( 0, 255 );
                EP q;
                q.direction = p.direction;
                q.minimumContrast = static_cast<uint8_t>( r.u( 1, 255 ) );
                Image step( horizontal ? n : lines, horizontal ? lines : n );
                for ( uint32_t y = 0; y < step.height(); ++y )
                    for ( uint32_t x = 0; x < step.width(); ++x )
                        px( step, x, y ) = static_cast<uint8_t>( ( horizontal ? x : y ) < at ? a : b );
                EdgeDetectionBase<double> o;
                o.find( step, q );
                ++ctx.evaluations;
                const bool forward = p.direction == EP::DirectionType::LEFT_TO_RIGHT || p.direction == EP::DirectionType::TOP_TO_BOTTOM;
                const int rise = forward ? b - a : a - b;
                std::vector<std::pair<double, double>> up, down;
                for ( uint32_t k = 0; k < lines; ++k ) {
                    const std::pair<double, double> v( horizontal ? at - 0.5 : k, horizontal ? k : at - 0.5 );
                    if ( rise >= q.minimumContrast )
                        up.push_back( v );
                    if ( -rise >= q.minimumContrast )
                        down.push_back( v );
                }
                if ( !same( plain( o.positiveEdge() ), up, 1e-9, diff ) || !same( plain( o.negativeEdge() ), down, 1e-9, diff ) )
                    ctx.fail( "edge/step", fmt( "step from %d to %d at %u of %u, %s, contrast %u: ", a, b, at, n, DIRECTION[static_cast<int>( p.direction )], q.minimumContrast ) + diff );
            }
            if ( r.chance( 10 ) ) { // refused searches
                EP q = p;
                q.groupFactor = 1;
                const uint32_t t = r.u( 0, 5 );
                ctx.begin( idx, fmt( "EdgeDetection::find refused %u", t ) );
                const Image rgb = makeImage( r, 9, 9, 3 );
                const bool ok = refused( [&] {
                    if ( t == 0 )
                        q.groupFactor = 0;
                    else if ( t == 1 )
                        q.skipFactor = 0;
                    else if ( t == 2 )
                        q.minimumContrast = 0;
                    if ( t < 3 )
                        d.find( im, g.x, g.y, g.w, g.h, q );
                    else if ( t == 3 )
                        d.find( rgb, q );
                    else if ( t == 4 )
                        d.find( im, im.width(), 0, 1, 1, q );
                    else
                        d.find( im, 1, 0, UINT32_MAX, im.height(), q );
                } );
                ++ctx.evaluations;
                if ( !ok )
                    ctx.fail( "edge/accepted", fmt( "invalid search %u was accepted", t ) );
            }
        } );
    }
}

// ------------------------------------------------------------------------------------------------ Fourier transform
namespace fourier
{
    typedef std::complex<double> C;
    typedef FFT::BaseComplexData<kiss_fft_cpx> Base;
    struct Field
    {
        uint32_t w, h;
        std::vector<C> v;
    };
    // transform by definition, along rows and then along columns
    Field dft( const Field & in, bool inverse )
    {
        Field t = in, o = in;
        const double pi = std::acos( -1.0 );
        auto twiddle = [&]( uint32_t n ) {
            std::vector<C> f( n );
            for ( uint32_t k = 0; k < n; ++k )
                f[k] = std::polar( 1.0, ( inverse ? 2 : -2 ) * pi * k / n );
            return f;
        };
        const std::vector<C> fx = twiddle( in.w ), fy = twiddle( in.h );
        for ( uint32_t y = 0; y < in.h; ++y ) {
            for ( uint32_t k = 0; k < in.w; ++k ) {
                C s = 0;
                for ( uint32_t x = 0; x < in.w; ++x )
                    s += in.v[y * in.w + x] * fx[( static_cast<uint64_t>( k ) * x ) % in.w];
                t.v[y * in.w + k] = s;
            }
        }
        for ( uint32_t k = 0; k < in.h; ++k ) {
            for ( uint32_t x = 0; x < in.w; ++x ) {
                C s = 0;
                for ( uint32_t y = 0; y < in.h; ++y )
                    s += t.v[y * in.w + x] * fy[( static_cast<uint64_t>( k ) * y ) % in.h];
                o.v[k * in.w + x] = s;
            }
        }
        return o;
    }
    Field of( const Base & d )
    {
        Field f;
        f.w = d.width();
        f.h = d.height();
        for ( size_t k = 0; k < static_cast<size_t>( f.w ) * f.h; ++k )
            f.v.push_back( C( d.data()[k].r, d.data()[k].i ) );
        return f;
    }
    double magnitude( const Field & f )
    {
        double s = 0;
        for ( const C & c : f.v )
            s += std::norm( c );
        return std::sqrt( s );
    }
    std::string difference( const Field & a, const Field & b, double tolerance )
    {
        if ( a.w != b.w || a.h != b.h )
            return fmt( "%ux%u instead of %ux%u", a.w, a.h, b.w, b.h );
        for ( size_t k = 0; k < a.v.size(); ++k )
            if ( !( std::abs( a.v[k] - b.v[k] ) <= tolerance ) )
                return fmt( "(%g,%g) instead of (%g,%g) at %zu,%zu, tolerance %g", a.v[k].real(), a.v[k].imag(), b.v[k].real(), b.v[k].imag(), k % a.w, k / a.w, tolerance );
        return std::string();
    }
    uint32_t length( Rng & r )
    {
        switch ( r.u( 0, 4 ) ) {
        case 0:
            return r.u( 1, 6 );
        case 1:
            return r.pick<uint32_t>( { 7, 8, 11, 13, 16, 17, 25, 32, 49, 64 } );
        default:
            return r.u( 1, 40 );
        }
    }
    // data of the given size, either an image or numbers
    void fill( Rng & r, FFT::ComplexData & d, uint32_t w, uint32_t h, Field & expected, std::string & kind )
    {
        expected.w = w;
        expected.h = h;
        expected.v.clear();
        if ( r.chance( 60 ) ) {
            kind = "image";
            Image im = makeImage( r, w, h );
            const uint32_t t = r.u( 0, 3 );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x ) {
                    if ( t == 0 )
                        px( im, x, y ) = ( x == w / 3 && y == h / 2 ) ? 200 : 0;
                    else if ( t == 1 )
                        px( im, x, y ) = static_cast<uint8_t>( ( x * 7 + y * 13 ) % 256 );
                    expected.v.push_back( C( px( im, x, y ), 0 ) );
                }
            const std::vector<uint8_t> before = bytes( im );
            if ( r.chance( 20 ) ) {
                FFT::ComplexData made( im );
                static_cast<Base &>( d ) = made;
            }
            else
                d.set( im );
            if ( bytes( im ) != before )
                expected.v[0] += C( 1e9, 0 ); // reported as a wrong value by the caller
            return;
        }
        kind = "numbers";
        std::vector<float> v;
        const double s = r.pick( { 1.0, 1000.0, 1e-3 } );
        for ( size_t k = 0; k < static_cast<size_t>( w ) * h; ++k ) {
            v.push_back( static_cast<float>( r.d( -s, s ) ) );
            expected.v.push_back( C( v.back(), 0 ) );
        }
        if ( r.chance( 20 ) ) {
            FFT::ComplexData made( v, w, h );
            static_cast<Base &>( d ) = made;
            return;
        }
        d.resize( w, h );
        d.set( v );
    }

    void run( vf::Ctx & ctx )
    {
        ctx.loop( "X01", [&]( uint64_t idx, Rng & r ) {
            uint32_t w = length( r ), h = length( r );
            const std::string size = fmt( "%ux%u", w, h );
            ctx.begin( idx, "FFT of " + size );
            ctx.distinct.insert( vf::hashStr( size ) );
            ctx.hit( w == h ? "square" : "not square" );
            ctx.hit( w % 2 || h % 2 ? "odd" : "even" );
            FFT::ComplexData a, b;
            Field fa, fb;
            std::string ka, kb;
            if ( r.chance( 30 ) ) { // contents of other sizes leave nothing behind
                Field f;
                fill( r, a, length( r ), length( r ), f, ka );
            }
            fill( r, a, w, h, fa, ka );
            fill( r, b, w, h, fb, kb );
            ++ctx.evaluations;
            std::string diff = difference( of( a ), fa, 0 );
            if ( !diff.empty() )
                ctx.fail( "fft/set-" + ka, size + " " + diff );
            if ( a.empty() || FFT::ComplexData().empty() == false )
                ctx.fail( "fft/empty", size );

            // executors are reusable for other sizes
            FFT::FFTExecutor e = FFT::FFTExecutor( r.chance( 50 ) ? w : length( r ), r.chance( 50 ) ? h : length( r ) );
            FFT::FFTExecutor late;
            FFT::FFTExecutor & x = r.chance( 50 ) ? e : late;
            if ( x.width() != w || x.height() != h )
                x.initialize( w, h );
            if ( x.width() != w || x.height() != h )
                ctx.fail( "fft/executor-size", size );

            const double n = static_cast<double>( w ) * h;
            const double scale = std::sqrt( n );
            const double rel = 4e-6;
            // direct transform, into another object or in place
            FFT::ComplexData spectrum;
            const bool inPlace = r.chance( 50 );
            if ( inPlace ) {
                static_cast<Base &>( spectrum ) = a;
                x.directTransform( spectrum );
            }
            else {
                spectrum.resize( w, h );
                x.directTransform( a, spectrum );
            }
            const Field expected = dft( fa, false );
            const double tolerance = rel * scale * magnitude( fa ) + 1e-9;
            ++ctx.evaluations;
            diff = difference( of( spectrum ), expected, tolerance );
            if ( !diff.empty() )
                ctx.fail( "fft/direct", fmt( "%s of %s%s: ", ka.c_str(), size.c_str(), inPlace ? " in place" : "" ) + diff );
            diff = difference( of( a ), fa, 0 );
            if ( !diff.empty() )
                ctx.fail( "fft/input-changed", size + " " + diff );
            if ( idx < 3 )
                ctx.sample( fmt( "%s of %s: first coefficient %g, expected %g", ka.c_str(), size.c_str(), of( spectrum ).v[0].real(), expected.v[0].real() ) );

            // the inverse restores the data times their number
            FFT::ComplexData back;
            const bool inPlace2 = r.chance( 50 );
            if ( inPlace2 ) {
                static_cast<Base &>( back ) = spectrum;
                x.inverseTransform( back );
            }
            else {
                back.resize( w, h );
                x.inverseTransform( spectrum, back );
            }
            Field scaled = fa;
            for ( C & c : scaled.v )
                c *= n;
            ++ctx.evaluations;
            diff = difference( of( back ), scaled, 2 * rel * scale * scale * magnitude( fa ) + 1e-9 );
            if ( !diff.empty() )
                ctx.fail( "fft/inverse", size + ( inPlace2 ? " in place: " : ": " ) + diff );
            const Field own = of( back );
            const Image im = back.get();
            ++ctx.evaluations;
            if ( im.width() != w || im.height() != h || im.colorCount() != 1 )
                ctx.fail( "fft/get-size", fmt( "%s gives %ux%u", size.c_str(), im.width(), im.height() ) );
            else {
                for ( uint32_t yy = 0; yy < h; ++yy )
                    for ( uint32_t xx = 0; xx < w; ++xx ) {
                        const double v = own.v[yy * w + xx].real() / n;
                        const double clamped = v < 0 ? 0 : ( v > 255 ? 255 : v );
                        const uint8_t got = px( im, ( xx + w / 2 ) % w, ( yy + h / 2 ) % h );
                        if ( std::fabs( got - clamped ) > 0.5001 ) {
                            ctx.fail( "fft/get", fmt( "%s: value %g of %u,%u is shown as %u", size.c_str(), v, xx, yy, got ) );
                            xx = w;
                            yy = h;
                        }
                    }
            }

            // convolution
            {
                FFT::ComplexData sa, sb, product;
                static_cast<Base &>( sa ) = a;
                static_cast<Base &>( sb ) = b;
                x.directTransform( sa );
                x.directTransform( sb );
                const Field va = of( sa ), vb = of( sb );
                const uint32_t alias = r.u( 0, 3 );
                FFT::ComplexData * out = alias == 0 ? &sa : ( alias == 1 ? &sb : &product );
                if ( alias > 1 )
                    product.resize( w, h );
                x.complexMultiplication( sa, sb, *out );
                Field m = va;
                double biggest = 0;
                for ( size_t k = 0; k < m.v.size(); ++k ) {
                    m.v[k] = va.v[k] * vb.v[k];
                    biggest = std::max( biggest, std::abs( m.v[k] ) );
                }
                ++ctx.evaluations;
                diff = difference( of( *out ), m, 1e-6 * biggest );
                if ( !diff.empty() )
                    ctx.fail( fmt( "fft/multiplication-%s", alias == 0 ? "into-first" : ( alias == 1 ? "into-second" : "separate" ) ), size + ": " + diff );
                else if ( n <= 600 ) {
                    x.inverseTransform( *out );
                    Field c = fa;
                    for ( uint32_t y1 = 0; y1 < h; ++y1 )
                        for ( uint32_t x1 = 0; x1 < w; ++x1 ) {
                            double s = 0;
                            for ( uint32_t y2 = 0; y2 < h; ++y2 )
                                for ( uint32_t x2 = 0; x2 < w; ++x2 )
                                    s += fa.v[y2 * w + x2].real() * fb.v[( ( y1 + h - y2 ) % h ) * w + ( x1 + w - x2 ) % w].real();
                            c.v[y1 * w + x1] = s * n;
                        }
                    ++ctx.evaluations;
                    diff = difference( of( *out ), c, 1e-5 * n * magnitude( fa ) * magnitude( fb ) + 1e-9 );
                    if ( !diff.empty() )
                        ctx.fail( "fft/convolution", size + ": " + diff );
                    ctx.hit( "convolutions" );
                }
                if ( alias == 2 && ( !difference( of( sa ), va, 0 ).empty() || !difference( of( sb ), vb, 0 ).empty() ) )
                    ctx.fail( "fft/multiplication-input-changed", size );
            }

            // copies are deep, moving leaves usable objects
            {
                FFT::ComplexData copy( static_cast<const Base &>( a ) );
                FFT::ComplexData assigned;
                if ( r.chance( 50 ) ) {
                    Field f;
                    fill( r, assigned, length( r ), length( r ), f, kb );
                }
                static_cast<Base &>( assigned ) = a;
                Base & self = assigned;
                self = static_cast<const Base &>( assigned );
                ++ctx.evaluations;
                if ( !difference( of( copy ), fa, 0 ).empty() || !difference( of( assigned ), fa, 0 ).empty() )
                    ctx.fail( "fft/copy", size );
                a.data()[0].r += 5;
                copy.data()[n > 1 ? 1 : 0].i += 7;
                if ( of( assigned ).v[0] != fa.v[0] || of( copy ).v[0].real() != fa.v[0].real() || ( n > 1 && ( of( assigned ).v[1] != fa.v[1] || of( a ).v[1] != fa.v[1] ) ) )
                    ctx.fail( "fft/shared-copy", size );
                FFT::ComplexData moved( std::move( copy ) );
                if ( moved.width() != w || moved.height() != h || !copy.empty() || copy.width() != 0 || copy.height() != 0 )
                    ctx.fail( "fft/moved", size );
                FFT::ComplexData none( static_cast<const Base &>( copy ) );
                static_cast<Base &>( assigned ) = none;
                if ( !none.empty() || !assigned.empty() || assigned.width() != 0 || assigned.height() != 0 || !assigned.get().empty() )
                    ctx.fail( "fft/copy-of-empty", size );
            }

            // refusals
            if ( r.chance( 40 ) ) {
                const uint32_t w2 = r.chance( 50 ) ? w : w + r.u( 1, 3 ), h2 = w2 == w ? h + r.u( 1, 3 ) : ( r.chance( 50 ) ? h : h + r.u( 1, 3 ) );
                FFT::ComplexData other, same;
                Field fo;
                fill( r, other, w2, h2, fo, kb );
                same.resize( w, h );
                const Field before = of( spectrum );
                const uint32_t t = r.u( 0, 12 ), zero = r.u( 0, 2 );
                const Image empty, rgb = makeImage( r, w, h, 3 );
                ctx.begin( idx, fmt( "FFT of %s refused %u", size.c_str(), t ) );
                const bool ok = refused( [&] {
                    switch ( t ) {
                    case 0:
                        x.directTransform( other );
                        break;
                    case 1:
                        x.inverseTransform( other );
                        break;
                    case 2:
                        x.directTransform( spectrum, other );
                        break;
                    case 3:
                        x.inverseTransform( other, spectrum );
                        break;
                    case 4:
                        x.complexMultiplication( spectrum, other, spectrum );
                        break;
                    case 5:
                        x.complexMultiplication( spectrum, spectrum, other );
                        break;
                    case 6:
                        x.complexMultiplication( FFT::ComplexData(), FFT::ComplexData(), other );
                        break;
                    case 7:
                        FFT::FFTExecutor().directTransform( spectrum );
                        break;
                    case 8:
                        FFT::FFTExecutor().initialize( zero == 0 ? 0 : zero == 1 ? w : 0, zero == 2 ? h : 0 );
                        break;
                    case 9:
                        spectrum.set( r.chance( 50 ) ? empty : rgb );
                        break;
                    case 10:
                        spectrum.set( std::vector<float>( static_cast<size_t>( n ) + r.pick<size_t>( { 1, 2, static_cast<size_t>( w ) } ), 1.f ) );
                        break;
                    case 11:
                        FFT::ComplexData( std::vector<float>( static_cast<size_t>( n ) + 1, 0.f ), w, h );
                        break;
                    default: {
                        FFT::FFTExecutor( zero == 2 ? 0 : w, zero == 2 ? h : 0 );
                    }
                    }
                } );
                ++ctx.evaluations;
                if ( !ok )
                    ctx.fail( fmt( "fft/accepted-%u", t ), fmt( "%s, other data %ux%u: invalid call %u was accepted", size.c_str(), w2, h2, t ) );
                if ( !difference( of( spectrum ), before, 0 ).empty() || !difference( of( other ), fo, 0 ).empty() )
                    ctx.fail( fmt( "fft/refused-changed-%u", t ), size );
            }
        } );
    }
}

// ------------------------------------------------------------------------------------------------ Haar transform
namespace haar
{
    template <typename T>
    void one( vf::Ctx & ctx, uint64_t idx, Rng & r, const char * type )
    {
        using namespace Image_Function;
        const uint32_t big = r.chance( 1 ) ? r.u( 1, 3 ) : 0;
        const size_t w = 2 * r.u( 1, big & 1 ? 700 : ( r.chance( 20 ) ? 40 : 8 ) ), h = 2 * r.u( 1, big & 2 ? 700 : ( r.chance( 20 ) ? 40 : 8 ) );
        const double magnitude = r.pick( { 1.0, 255.0, 1e-6, 1e6, 1e12 } );
        const uint32_t t = r.u( 0, 3 );
        std::vector<T> in( w * h ), other( w * h );
        for ( size_t k = 0; k < in.size(); ++k ) {
            in[k] = static_cast<T>( t == 0 ? magnitude : ( t == 1 ? r.i( -255, 255 ) : r.d( -magnitude, magnitude ) ) );
            other[k] = static_cast<T>( r.d( -magnitude, magnitude ) );
        }
        if ( t == 3 ) { // a single value
            const size_t at = r.u( 0, static_cast<uint32_t>( in.size() - 1 ) );
            for ( size_t k = 0; k < in.size(); ++k )
                in[k] = k == at ? static_cast<T>( magnitude ) : T( 0 );
        }
        double biggest = 0;
        for ( T v : in )
            biggest = std::max( biggest, std::fabs( static_cast<double>( v ) ) );
        const double eps = std::numeric_limits<T>::epsilon();
        const std::string what = fmt( "%s %zux%zu, values up to %g", type, w, h, biggest );
        ctx.begin( idx, "Haar " + what );
        ctx.distinct.insert( vf::hashStr( fmt( "%s %zux%zu %u", type, w, h, t ) ) );
        const std::vector<T> before = in;
        std::vector<T> out( w * h, static_cast<T>( r.d( -1, 1 ) ) ), back( w * h, static_cast<T>( 77 ) ), inverse( w * h, static_cast<T>( -3 ) );
        HaarDirectTransform( in, out, w, h );
        ++ctx.evaluations;
        if ( in != before || out.size() != w * h )
            ctx.fail( fmt( "haar/input-changed-%s", type ), what );
        const double tolerance = 16 * eps * biggest;
        double energyIn = 0, energyOut = 0;
        for ( size_t y = 0; y < h / 2; ++y ) {
            for ( size_t x = 0; x < w / 2; ++x ) {
                const double a = in[2 * y * w + 2 * x], b = in[2 * y * w + 2 * x + 1], c = in[( 2 * y + 1 ) * w + 2 * x], d = in[( 2 * y + 1 ) * w + 2 * x + 1];
                const double e[4] = { ( a + b + c + d ) / 2, ( b - a + d - c ) / 2, ( c + d - a - b ) / 2, ( d - c - b + a ) / 2 };
                const double g[4] = { out[y * w + x], out[y * w + x + w / 2], out[( y + h / 2 ) * w + x], out[( y + h / 2 ) * w + x + w / 2] };
                for ( int k = 0; k < 4; ++k ) {
                    energyIn += e[k] * e[k];
                    energyOut += g[k] * g[k];
                    if ( !close( g[k], e[k], tolerance ) ) {
                        ctx.fail( fmt( "haar/direct-%s", type ), what + fmt( ": coefficient %d of %zu,%zu is %.17g instead of %.17g", k, x, y, g[k], e[k] ) );
                        return;
                    }
                }
            }
        }
        if ( !close( energyIn, energyOut, 64 * eps * energyIn ) )
            ctx.fail( fmt( "haar/energy-%s", type ), what );
        HaarInverseTransform( out, back, w, h );
        ++ctx.evaluations;
        for ( size_t k = 0; k < in.size(); ++k )
            if ( !close( back[k], in[k], 4 * tolerance ) ) {
                ctx.fail( fmt( "haar/restored-%s", type ), what + fmt( ": value %zu,%zu is %.17g instead of %.17g", k % w, k / w, static_cast<double>( back[k] ), static_cast<double>( in[k] ) ) );
                return;
            }
        // the inverse of arbitrary coefficients
        double highest = 0;
        for ( T v : other )
            highest = std::max( highest, std::fabs( static_cast<double>( v ) ) );
        HaarInverseTransform( other, inverse, w, h );
        ++ctx.evaluations;
        for ( size_t y = 0; y < h; ++y ) {
            for ( size_t x = 0; x < w; ++x ) {
                const double a = other[y / 2 * w + x / 2], b = other[y / 2 * w + x / 2 + w / 2], c = other[( y / 2 + h / 2 ) * w + x / 2],
                             d = other[( y / 2 + h / 2 ) * w + x / 2 + w / 2];
                const double sx = x % 2 ? 1 : -1, sy = y % 2 ? 1 : -1;
                const double e = ( a + sx * b + sy * c + sx * sy * d ) / 2;
                if ( !close( inverse[y * w + x], e, 16 * eps * highest ) ) {
                    ctx.fail( fmt( "haar/inverse-%s", type ), what + fmt( ": value %zu,%zu is %.17g instead of %.17g", x, y, static_cast<double>( inverse[y * w + x] ), e ) );
                    return;
                }
            }
        }
        // linearity
        const T f = static_cast<T>( r.d( -3, 3 ) );
        std::vector<T> sum( w * h ), outOther( w * h ), outSum( w * h );
        for ( size_t k = 0; k < in.size(); ++k )
            sum[k] = in[k] + f * other[k];
        HaarDirectTransform( other, outOther, w, h );
        HaarDirectTransform( sum, outSum, w, h );
        ++ctx.evaluations;
        for ( size_t k = 0; k < in.size(); ++k )
            if ( !close( outSum[k], static_cast<double>( out[k] ) + static_cast<double>( f ) * outOther[k], 64 * eps * ( biggest + 3 * highest ) ) ) {
                ctx.fail( fmt( "haar/linear-%s", type ), what );
                return;
            }
        // refusals
        if ( r.chance( 50 ) ) {
            const uint32_t k = r.u( 0, 6 );
            const bool direct = r.chance( 50 );
            std::vector<T> i2 = in, o2 = out;
            size_t w2 = w, h2 = h;
            if ( k == 0 )
                w2 = w + 2;
            else if ( k == 1 )
                h2 = h > 2 ? h - 2 : h + 2;
            else if ( k == 2 )
                o2.push_back( 0 );
            else if ( k == 3 )
                i2.pop_back();
            else if ( k == 4 ) {
                i2.clear();
                o2.clear();
                w2 = h2 = 0;
            }
            else { // odd sizes
                w2 = k == 5 ? w + 1 : w;
                h2 = k == 5 ? h : h + 1;
                i2.assign( w2 * h2, 1 );
                o2.assign( w2 * h2, 2 );
            }
            ctx.begin( idx, fmt( "Haar refused %u ", k ) + what );
            const std::vector<T> keep = o2;
            ++ctx.evaluations;
            if ( !refused( [&] { direct ? HaarDirectTransform( i2, o2, w2, h2 ) : HaarInverseTransform( i2, o2, w2, h2 ); } ) )
                ctx.fail( fmt( "haar/accepted-%u-%s", k, type ), what );
            if ( o2 != keep )
                ctx.fail( fmt( "haar/refused-changed-%u-%s", k, type ), what );
        }
        if ( idx < 3 )
            ctx.sample( what + fmt( ": energy %g before and %g after", energyIn, energyOut ) );
    }
    void run( vf::Ctx & ctx )
    {
        ctx.loop( "X02", [&]( uint64_t idx, Rng & r ) {
            one<double>( ctx, idx, r, "double" );
            one<float>( ctx, idx, r, "float" );
        } );
    }
}

// ------------------------------------------------------------------------------------------------ line search
namespace hough
{
    template <typename T>
    void one( vf::Ctx & ctx, uint64_t idx, Rng & r, const char * type )
    {
        typedef PointBase2D<T> P;
        const double pi = std::acos( -1.0 );
        const bool fine = r.chance( 4 ); // very many angles
        const double extent = r.pick( { 10.0, 100.0, 2000.0 } );
        T initial = static_cast<T>( r.d( -pi, pi ) );
        if ( r.chance( 30 ) )
            initial = static_cast<T>( r.pick( { 0.0, pi / 2, -pi / 2, pi / 4, pi } ) );
        T angleTolerance = static_cast<T>( r.d( 0, pi / ( fine ? 2 : 6 ) ) ), angleStep = static_cast<T>( r.d( 0.05, 3 ) * pi / 180 );
        if ( fine ) {
            angleStep = static_cast<T>( r.d( 0.005, 0.02 ) * pi / 180 );
            angleTolerance = static_cast<T>( r.d( 0.5, 1.5 ) );
        }
        T tolerance = static_cast<T>( r.pick( { 0.0, 0.01, 0.5, 1.0, 3.0 } ) * r.d( 0.5, 2 ) );
        switch ( r.u( 0, 14 ) ) {
        case 0:
            angleTolerance = 0;
            break;
        case 1:
            tolerance = -tolerance;
            break;
        case 2:
            angleTolerance = -angleTolerance;
            break;
        case 3:
            angleTolerance = angleStep * static_cast<T>( r.d( 0, 1 ) );
            break;
        case 4:
            angleTolerance = static_cast<T>( r.d( 0, 0.01 * pi / 180 ) );
            angleStep = static_cast<T>( r.d( -1, 1e-5 ) );
            break;
        }
        // points: some along lines, some anywhere
        const uint32_t count = r.chance( 8 ) ? r.u( 0, 2 ) : r.u( 2, fine ? 12 : 60 );
        std::vector<P> in;
        const double origin = r.chance( 70 ) ? 0 : r.d( -extent, extent ) * 3;
        std::vector<std::array<double, 3>> lines;
        for ( uint32_t k = r.u( 1, 3 ); k > 0; --k )
            lines.push_back( { initial + r.d( -1, 1 ) * std::fabs( static_cast<double>( angleTolerance ) ), r.d( -extent, extent ), r.d( -extent, extent ) } );
        const uint32_t noise = r.u( 0, 3 ), foreign = r.pick<uint32_t>( { 0, 0, 20, 50, 100 } );
        for ( uint32_t k = 0; k < count; ++k ) {
            if ( r.chance( foreign ) ) {
                in.push_back( P( static_cast<T>( origin + r.d( -extent, extent ) ), static_cast<T>( r.d( -extent, extent ) ) ) );
                continue;
            }
            const auto & l = r.pick( lines );
            const double s = r.d( -extent, extent );
            const double n = noise == 0 ? 0 : ( noise == 1 ? r.d( -1, 1 ) * tolerance : ( noise == 2 ? r.d( -3, 3 ) * tolerance : r.pick( { -1.0, 1.0 } ) * tolerance ) );
            double x = origin + l[1] + s * std::cos( l[0] ) - n * std::sin( l[0] ), y = l[2] + s * std::sin( l[0] ) + n * std::cos( l[0] );
            if ( r.chance( 10 ) ) {
                x = std::floor( x );
                y = std::floor( y );
            }
            in.push_back( P( static_cast<T>( x ), static_cast<T>( y ) ) );
        }
        if ( in.size() > 1 && r.chance( 20 ) )
            for ( uint32_t k = r.u( 1, 5 ); k > 0; --k )
                in.push_back( r.pick( in ) ); // the same point repeatedly
        const std::string what = fmt( "%s, %zu points in +-%g, angle %.9g +- %.9g by %.9g, tolerance %.9g", type, in.size(), extent, static_cast<double>( initial ),
                                      static_cast<double>( angleTolerance ), static_cast<double>( angleStep ), static_cast<double>( tolerance ) );
        ctx.begin( idx, "HoughTransform " + what );
        ctx.distinct.insert( vf::hashStr( what ) );
        std::vector<P> on( r.u( 0, 3 ), P( 1, 2 ) ), off( r.u( 0, 3 ), P( 3, 4 ) );
        const std::vector<P> copy = in;
        const bool found = Image_Function::HoughTransform( in, initial, angleTolerance, angleStep, tolerance, on, off );
        ++ctx.evaluations;
        auto identical = []( const P & a, const P & b ) { return a.x == b.x && a.y == b.y; };
        if ( in.size() != copy.size() || !std::equal( in.begin(), in.end(), copy.begin(), identical ) )
            ctx.fail( fmt( "hough/input-changed-%s", type ), what );
        if ( found != ( in.size() >= 2 ) ) {
            ctx.fail( fmt( "hough/result-%s", type ), what + ( found ? ": found" : ": not found" ) );
            return;
        }
        if ( !found ) {
            ctx.hit( "too few points" );
            return;
        }
        // exact partition of the given points (as multisets)
        auto less = []( const P & a, const P & b ) { return a.x != b.x ? a.x < b.x : a.y < b.y; };
        {
            std::vector<P> all = on, given = in;
            all.insert( all.end(), off.begin(), off.end() );
            std::sort( all.begin(), all.end(), less );
            std::sort( given.begin(), given.end(), less );
            if ( all.size() != given.size() || !std::equal( all.begin(), all.end(), given.begin(), identical ) ) {
                ctx.fail( fmt( "hough/partition-%s", type ), what + fmt( ": %zu on the line and %zu off the line are not the given points", on.size(), off.size() ) );
                return;
            }
        }
        // the documented grid of angles
        const T minimumStep = static_cast<T>( 0.001f * static_cast<float>( pi ) / 180.0f );
        T step = std::max( angleStep, minimumStep ), range = std::max( std::max( angleTolerance, minimumStep ), step ), tol = std::max( tolerance, static_cast<T>( 1e-5f ) );
        const int side = static_cast<int>( ( range / step ) + 0.5 );
        double biggest = 1;
        for ( const P & p : in )
            biggest = std::max( biggest, std::max( std::fabs( static_cast<double>( p.x ) ), std::fabs( static_cast<double>( p.y ) ) ) );
        const double eps = 12 * std::numeric_limits<T>::epsilon() * biggest * ( 1 + std::fabs( static_cast<double>( initial ) ) + static_cast<double>( range ) );
        size_t most = 0;
        bool consistent = false;
        std::string reason;
        std::vector<double> dOn, dAll;
        for ( int k = -side; k <= side; ++k ) {
            const double a = static_cast<double>( initial ) + static_cast<double>( step ) * k;
            const double sa = std::sin( a ), ca = std::cos( a );
            auto distance = [&]( const P & p ) { return static_cast<double>( p.y ) * ca - static_cast<double>( p.x ) * sa; };
            dAll.clear();
            for ( const P & p : in )
                dAll.push_back( distance( p ) );
            std::sort( dAll.begin(), dAll.end() );
            for ( size_t i = 0, j = 0; i < dAll.size(); ++i ) {
                j = std::max( i, j );
                while ( j < dAll.size() && dAll[j] - dAll[i] <= 2 * tol - 4 * eps )
                    ++j;
                most = std::max( most, std::max<size_t>( j - i, 1 ) );
            }
            if ( !consistent && !on.empty() ) {
                double lo = 1e300, hi = -1e300;
                for ( const P & p : on ) {
                    lo = std::min( lo, distance( p ) );
                    hi = std::max( hi, distance( p ) );
                }
                bool fits = hi - lo <= 2 * static_cast<double>( tol ) + 4 * eps;
                for ( size_t i = 0; fits && i < off.size(); ++i )
                    fits = std::fabs( distance( off[i] ) - ( lo + hi ) / 2 ) >= static_cast<double>( tol ) - 4 * eps;
                consistent = fits;
            }
        }
        ++ctx.evaluations;
        if ( on.size() < most )
            ctx.fail( fmt( "hough/best-%s", type ), what + fmt( ": %zu points on the line, %zu are possible", on.size(), most ) );
        else if ( !consistent )
            ctx.fail( fmt( "hough/line-%s", type ), what + fmt( ": no line of the searched angles separates the %zu points found from the %zu others", on.size(), off.size() ) );
        if ( off.empty() )
            ctx.hit( "all points found" );
        if ( fine )
            ctx.hit( "fine grids" );
        if ( idx < 3 )
            ctx.sample( what + fmt( ": %zu on the line, %zu off, best of the grid %zu", on.size(), off.size(), most ) );
    }
    void run( vf::Ctx & ctx )
    {
        ctx.loop( "X03", [&]( uint64_t idx, Rng & r ) {
            one<double>( ctx, idx, r, "double" );
            one<float>( ctx, idx, r, "float" );
        } );
    }
}

// ------------------------------------------------------------------------------------------------ geometry and equations
namespace geometry
{
    template <typename T>
    struct Checks
    {
        typedef PointBase2D<T> P;
        typedef PointBase3D<T> P3;
        typedef LineBase2D<T> L;
        vf::Ctx & ctx;
        Rng & r;
        const char * type;
        double pi = std::acos( -1.0 );
        double eps = std::numeric_limits<T>::epsilon();
        double size = sizeof( T ) == 4 ? 10 : 1000;
        double equal = sizeof( T ) == 4 ? 1e-5 : 1e-9;

        T value()
        {
            switch ( r.u( 0, 3 ) ) {
            case 0:
                return static_cast<T>( r.i( -9, 9 ) );
            case 1:
                return 0;
            default:
                return static_cast<T>( r.d( -size, size ) );
            }
        }
        P point()
        {
            return P( value(), value() );
        }
        // a direction, often along an axis or a diagonal
        double angle()
        {
            return r.chance( 50 ) ? r.i( -8, 8 ) * pi / 8 : r.d( -pi, pi );
        }
        void fail( const char * what, const std::string & text )
        {
            ctx.fail( fmt( "geometry/%s-%s", what, type ), text );
        }
        static std::string str( const P & p )
        {
            return fmt( "(%.9g,%.9g)", static_cast<double>( p.x ), static_cast<double>( p.y ) );
        }
        bool near( const P & a, double x, double y, double tolerance )
        {
            return close( a.x, x, tolerance ) && close( a.y, y, tolerance );
        }

        void lines()
        {
            const P a = point();
            const double da = angle(), len = r.pick( { 0.01, 0.1, 1.0, 5.0 } ) * r.d( 1, 2 );
            P b = r.chance( 50 ) ? P( static_cast<T>( a.x + len * std::cos( da ) ), static_cast<T>( a.y + len * std::sin( da ) ) ) : point();
            if ( r.chance( 20 ) )
                ( r.chance( 50 ) ? b.x = a.x : b.y = a.y );
            const double dx = static_cast<double>( b.x ) - a.x, dy = static_cast<double>( b.y ) - a.y, length = std::hypot( dx, dy );
            const std::string what = str( a ) + " - " + str( b );
            ctx.note( "line " + what );
            ctx.distinct.insert( vf::hashStr( type + what ) );
            if ( length < 0.005 ) { // the same point twice
                const L same( a, a );
                ++ctx.evaluations;
                if ( same.distance( a ) != 0 || !close( same.angle(), 0, 1e-9 ) || !( same.position() == a ) )
                    fail( "point", what );
                return;
            }
            const L l( a, b ), m( b, a );
            // precision of a direction and of positions far along the line
            const double tDir = 8 * eps, reach = 4 * size, tPos = 16 * eps * reach * ( 1 + 0 * length );
            ++ctx.evaluations;
            if ( !close( l.distance( a ), 0, tPos ) || !close( l.distance( b ), 0, tPos ) || !near( l.position(), a.x, a.y, 0 ) )
                fail( "contains", what + fmt( ": distances %g %g", static_cast<double>( l.distance( a ) ), static_cast<double>( l.distance( b ) ) ) );
            double turn = std::remainder( static_cast<double>( l.angle() ) - std::atan2( dy, dx ), 2 * pi );
            if ( !close( turn, 0, tDir ) )
                fail( "angle", what + fmt( ": %g instead of %g", static_cast<double>( l.angle() ), std::atan2( dy, dx ) ) );
            if ( !( l == m ) || !( m == l ) || !( l == l ) || !l.isParallel( m ) || l.isIntersect( m ) )
                fail( "opposite-construction", what );
            const double ux = dx / length, uy = dy / length;
            // distance, projection and reflection of a point
            const P p = point();
            const double along = ( p.x - static_cast<double>( a.x ) ) * ux + ( p.y - static_cast<double>( a.y ) ) * uy;
            const double across = ( p.x - static_cast<double>( a.x ) ) * uy - ( p.y - static_cast<double>( a.y ) ) * ux;
            ++ctx.evaluations;
            if ( !close( l.distance( p ), std::fabs( across ), tPos ) || !close( m.distance( p ), std::fabs( across ), tPos ) )
                fail( "distance", what + " to " + str( p ) + fmt( ": %.9g instead of %.9g", static_cast<double>( l.distance( p ) ), std::fabs( across ) ) );
            const P q = l.projection( p ), o = l.opposite( p );
            if ( !near( q, a.x + along * ux, a.y + along * uy, tPos ) )
                fail( "projection", what + " of " + str( p ) + " is " + str( q ) );
            if ( !near( o, 2 * ( a.x + along * ux ) - p.x, 2 * ( a.y + along * uy ) - p.y, 3 * tPos ) )
                fail( "opposite", what + " of " + str( p ) + " is " + str( o ) );
            // moved line
            const P s = point();
            const L moved = l + s;
            L moved2 = l;
            moved2 += s;
            const double shifted = std::fabs( across - ( static_cast<double>( s.x ) * uy - static_cast<double>( s.y ) * ux ) );
            ++ctx.evaluations;
            if ( !close( moved.distance( p ), shifted, 3 * tPos ) || !close( moved2.distance( p ), shifted, 3 * tPos ) || !moved.isParallel( l ) || !moved2.isParallel( l ) )
                fail( "moved", what + " by " + str( s ) );
            // lines by position and angle
            const double ga = angle();
            const L g( p, static_cast<T>( ga ) );
            turn = std::remainder( static_cast<double>( g.angle() ) - static_cast<double>( static_cast<T>( ga ) ), 2 * pi );
            ++ctx.evaluations;
            if ( !close( turn, 0, 8 * tDir ) || !near( g.position(), p.x, p.y, 0 ) )
                fail( "angle-construction", fmt( "%.9g gives %.9g", ga, static_cast<double>( g.angle() ) ) );
            // crossing
            const double gx = std::cos( static_cast<double>( g.angle() ) ), gy = std::sin( static_cast<double>( g.angle() ) );
            const double sine = std::fabs( uy * gx - ux * gy );
            P c( static_cast<T>( 12345 ), static_cast<T>( 54321 ) );
            const bool crossing = l.intersection( g, c );
            ++ctx.evaluations;
            if ( crossing != l.isIntersect( g ) || crossing == l.isParallel( g ) || l.isParallel( g ) != g.isParallel( l ) )
                fail( "parallel-contradiction", what + " and " + str( p ) + fmt( " at %.9g", ga ) );
            if ( ( sine > 30 * equal && !crossing ) || ( sine < 3 * equal && crossing ) )
                fail( "parallel", what + " and " + str( p ) + fmt( " at %.9g, sine of the angle %g: %s", ga, sine, crossing ? "crossing" : "parallel" ) );
            if ( crossing && sine > 0.01 ) {
                const double t = tPos * 8 / sine * ( 1 + std::hypot( c.x - p.x, c.y - p.y ) / size + std::hypot( c.x - a.x, c.y - a.y ) / size );
                if ( !close( l.distance( c ), 0, t ) || !close( g.distance( c ), 0, t ) )
                    fail( "intersection", what + " and " + str( p ) + fmt( " at %.9g: ", ga ) + str( c ) );
                ctx.hit( "crossings" );
            }
            // a line of the same direction somewhere else
            const L par( p, l.angle() );
            const bool same = close( l.distance( p ), 0, equal / 4 ), apart = std::fabs( across ) > 4 * equal + 4 * tPos;
            ++ctx.evaluations;
            if ( !par.isParallel( l ) || par.intersection( l, c ) )
                fail( "same-direction", what + " at " + str( p ) );
            if ( ( same && sizeof( T ) == 8 && !( par == l ) ) || ( apart && ( par == l ) ) )
                fail( "equality", what + " at " + str( p ) + fmt( ", distance %g", std::fabs( across ) ) );
            if ( sine > 30 * equal && ( l == g ) )
                fail( "equality-crossing", what + " and " + str( p ) + fmt( " at %.9g", ga ) );
        }

        void fitting()
        {
            const uint32_t n = r.u( 0, 30 );
            std::vector<P> pts;
            const double a = angle(), x0 = r.d( -size, size ) / 4, y0 = r.d( -size, size ) / 4, spread = r.d( 0.2, 1 ) * size / 2;
            const double noise = r.chance( 50 ) ? 0 : r.d( 0, 0.2 ) * spread;
            for ( uint32_t k = 0; k < n; ++k ) {
                const double s = ( k == 0 ? -1 : ( k == 1 ? 1 : r.d( -1, 1 ) ) ) * spread;
                pts.push_back( P( static_cast<T>( x0 + s * std::cos( a ) + r.d( -noise, noise ) ), static_cast<T>( y0 + s * std::sin( a ) + r.d( -noise, noise ) ) ) );
            }
            const std::string what = fmt( "%u points along %.9g, noise %g, around %g,%g", n, a, noise, x0, y0 );
            ctx.note( "bestFittingLine " + what );
            const L l = L::bestFittingLine( pts );
            ++ctx.evaluations;
            if ( n < 2 )
                return;
            long double sx = 0, sy = 0, xx = 0, yy = 0, xy = 0;
            for ( const P & p : pts ) {
                sx += p.x;
                sy += p.y;
            }
            sx /= n;
            sy /= n;
            for ( const P & p : pts ) {
                xx += ( p.x - sx ) * ( p.x - sx );
                yy += ( p.y - sy ) * ( p.y - sy );
                xy += ( p.x - sx ) * ( p.y - sy );
            }
            // least squares in the direction of the smaller extent
            const double variance = static_cast<double>( std::max( xx, yy ) / n ), t = 64 * eps * ( size * size / variance + 1 );
            if ( !near( l.position(), static_cast<double>( sx ), static_cast<double>( sy ), 64 * eps * size ) )
                fail( "fitting-centre", what );
            if ( std::fabs( static_cast<double>( xx - yy ) ) / n < 256 * eps * size * size + 1e-3 * variance )
                return;
            const double expected = xx > yy ? std::atan2( static_cast<double>( xy ), static_cast<double>( xx ) ) : std::atan2( static_cast<double>( yy ), static_cast<double>( xy ) );
            const double turn = std::remainder( static_cast<double>( l.angle() ) - expected, pi );
            if ( !close( turn, 0, t ) )
                fail( "fitting", what + fmt( ": angle %.12g instead of %.12g", static_cast<double>( l.angle() ), expected ) );
            if ( noise == 0 )
                for ( const P & p : pts )
                    if ( !close( l.distance( p ), 0, t * 4 * size ) ) {
                        fail( "fitting-collinear", what + fmt( ": distance %g of ", static_cast<double>( l.distance( p ) ) ) + str( p ) );
                        break;
                    }
            ctx.hit( "fitted lines" );
        }

        void points()
        {
            const P a = point(), b = point();
            const T f = value();
            P s = a, d = a;
            s += b;
            d -= b;
            auto is = [&]( const P & p, T x, T y ) { return p.x == x && p.y == y; };
            ++ctx.evaluations;
            if ( !is( a + b, a.x + b.x, a.y + b.y ) || !is( a - b, a.x - b.x, a.y - b.y ) || !is( s, a.x + b.x, a.y + b.y ) || !is( d, a.x - b.x, a.y - b.y )
                 || !is( a * f, a.x * f, a.y * f ) || !is( f * a, a.x * f, a.y * f ) || !is( P(), 0, 0 ) )
                fail( "points", str( a ) + " and " + str( b ) );
            const P3 a3( a.x, a.y, value() ), b3( b.x, b.y, value() );
            P3 s3 = a3, d3 = a3;
            s3 += b3;
            d3 -= b3;
            auto is3 = [&]( const P3 & p, T x, T y, T z ) { return p.x == x && p.y == y && p.z == z; };
            if ( !is3( a3 + b3, a.x + b.x, a.y + b.y, a3.z + b3.z ) || !is3( a3 - b3, a.x - b.x, a.y - b.y, a3.z - b3.z ) || !is3( s3, a.x + b.x, a.y + b.y, a3.z + b3.z )
                 || !is3( d3, a.x - b.x, a.y - b.y, a3.z - b3.z ) || !is3( P3(), 0, 0, 0 ) )
                fail( "points3", str( a ) + " and " + str( b ) );
            // equality: tolerant, in every coordinate
            const double k = r.pick( { 0.0, 0.1, 100.0, 1e4 } );
            const uint32_t axis = r.u( 0, 2 );
            P3 c3 = a3;
            ( axis == 0 ? c3.x : ( axis == 1 ? c3.y : c3.z ) ) += static_cast<T>( ( r.chance( 50 ) ? 1 : -1 ) * k * equal );
            const P c( c3.x, c3.y );
            const bool same = k < 1, clear = sizeof( T ) == 8 || k != 0.1;
            ++ctx.evaluations;
            if ( clear && ( ( a3 == c3 ) != same || ( a3 != c3 ) == same || ( c3 == a3 ) != same ) )
                fail( "equality3", fmt( "axis %u differs by %g", axis, k * equal ) );
            const bool same2 = same || axis == 2;
            if ( clear && ( ( a == c ) != same2 || ( a != c ) == same2 ) )
                fail( "equality2", fmt( "axis %u differs by %g", axis, k * equal ) );
            const T v = value(), w = static_cast<T>( v + k * equal );
            if ( clear && ( pvmath::isEqual( v, w ) != same || pvmath::isEqual( w, v ) != same || pvmath::isEqual<T>( v, w, 1000 ) != ( k < 1000 ) || pvmath::isEqual<T>( w, v, 1000 ) != ( k < 1000 ) ) )
                fail( "is-equal", fmt( "%.12g and %.12g", static_cast<double>( v ), static_cast<double>( w ) ) );
            const int32_t i = r.i( -1000, 1000 ), j = r.chance( 50 ) ? i : r.i( -1000, 1000 );
            if ( pvmath::isEqual( i, j ) != ( i == j ) || ( PointBase2D<int32_t>( i, 3 ) == PointBase2D<int32_t>( j, 3 ) ) != ( i == j ) )
                fail( "is-equal-integer", fmt( "%d and %d", i, j ) );
        }
    };

    void roots( vf::Ctx & ctx, Rng & r )
    {
        const size_t n = r.u( 2, r.chance( 20 ) ? 16 : 6 );
        const uint32_t kind = r.u( 0, 5 );
        std::vector<double> m( n * n ), x( n ), b( n, 0 );
        std::vector<size_t> order( n );
        std::iota( order.begin(), order.end(), 0 );
        for ( size_t k = n - 1; k > 0; --k )
            std::swap( order[k], order[r.u( 0, static_cast<uint32_t>( k ) )] );
        for ( size_t row = 0; row < n; ++row ) {
            for ( size_t col = 0; col < n; ++col ) {
                double v = kind % 2 ? r.d( -1, 1 ) : r.i( -9, 9 );
                if ( kind < 2 ) // dominated by one entry of every row and column, in any order
                    v = order[row] == col ? r.pick( { -1.0, 1.0 } ) * ( 10.0 * n + r.u( 0, 50 ) ) : v;
                else if ( kind == 2 ) // a permutation
                    v = order[row] == col ? r.pick( { -1.0, 1.0, 0.5, 7.0, 100.0 } ) : 0;
                else if ( kind == 3 ) // triangular, rows and columns exchanged
                    v = order[row] == col ? r.pick( { -1.0, 2.0, 1.5 } ) : ( order[row] > col ? r.d( -0.5, 0.5 ) : 0 );
                m[row * n + col] = v;
            }
            x[row] = r.chance( 20 ) ? 0 : r.d( -100, 100 );
        }
        bool singular = false;
        std::string name = kind < 2 ? "dominated" : ( kind == 2 ? "permutation" : ( kind == 3 ? "triangular" : "singular" ) );
        if ( kind >= 4 ) { // not solvable: a row or a column depends on the others
            singular = true;
            const bool rows = r.chance( 50 );
            const uint32_t t = r.u( 0, 2 );
            const size_t p = r.u( 0, static_cast<uint32_t>( n - 1 ) ), q = ( p + r.u( 1, static_cast<uint32_t>( n - 1 ) ) ) % n;
            for ( size_t k = 0; k < n; ++k ) {
                auto at = [&]( size_t line ) -> double & { return rows ? m[line * n + k] : m[k * n + line]; };
                at( p ) = t == 0 ? 0 : ( t == 1 ? at( q ) : 2 * at( q ) );
            }
        }
        for ( size_t row = 0; row < n; ++row )
            for ( size_t col = 0; col < n; ++col )
                b[row] += m[row * n + col] * x[col];
        ctx.note( fmt( "getMatrixRoots %s %zu", name.c_str(), n ) );
        ctx.distinct.insert( vf::hashBytes( m.data(), m.size() * sizeof( double ) ) );
        ctx.hit( "equations/" + name );
        std::vector<double> got( r.u( 0, 20 ), 5 );
        const std::vector<double> keep = got, m2 = m, b2 = b;
        const bool no = refused( [&] { pvmath::getMatrixRoots( m, b, got ); } );
        ++ctx.evaluations;
        if ( m != m2 || b != b2 )
            ctx.fail( "equations/input-changed", name );
        if ( singular ) {
            if ( !no )
                ctx.fail( "equations/singular-accepted", fmt( "%zux%zu", n, n ) );
            else if ( got != keep )
                ctx.fail( "equations/refused-changed", fmt( "%zux%zu", n, n ) );
        }
        else {
            if ( no || got.size() != n )
                ctx.fail( "equations/refused", fmt( "%s %zux%zu", name.c_str(), n, n ) );
            else
                for ( size_t k = 0; k < n; ++k )
                    if ( !close( got[k], x[k], 1e-8 * 100 ) ) {
                        ctx.fail( "equations/roots", fmt( "%s %zux%zu: root %zu is %.12g instead of %.12g", name.c_str(), n, n, k, got[k], x[k] ) );
                        break;
                    }
        }
        const uint32_t t = r.u( 0, 4 );
        if ( r.chance( 30 ) ) {
            std::vector<double> mm = m2, bb = b2, rr = keep;
            if ( t == 0 )
                mm.pop_back();
            else if ( t == 1 )
                bb.push_back( 1 );
            else if ( t == 2 )
                mm.clear();
            else if ( t == 3 )
                bb.clear();
            else {
                mm.assign( 1, 2.0 );
                bb.assign( 1, 2.0 );
            }
            ++ctx.evaluations;
            if ( !refused( [&] { pvmath::getMatrixRoots( mm, bb, rr ); } ) || rr != keep )
                ctx.fail( "equations/accepted", fmt( "invalid sizes %zu and %zu", mm.size(), bb.size() ) );
        }
    }

    void run( vf::Ctx & ctx )
    {
        ctx.loop( "X04", [&]( uint64_t idx, Rng & r ) {
            ctx.begin( idx, "geometry" );
            Checks<double> d{ ctx, r, "double" };
            Checks<float> f{ ctx, r, "float" };
            d.lines();
            f.lines();
            d.fitting();
            f.fitting();
            d.points();
            f.points();
            roots( ctx, r );
            const double a = r.d( -1000, 1000 );
            ++ctx.evaluations;
            if ( !close( pvmath::toRadians( a ), a * std::acos( -1.0 ) / 180, 1e-12 * std::fabs( a ) ) || !close( pvmath::toDegrees( pvmath::toRadians( a ) ), a, 1e-12 * std::fabs( a ) ) )
                ctx.fail( "geometry/angles", fmt( "%.12g", a ) );
        } );
    }
}

// ------------------------------------------------------------------------------------------------ light correction
namespace light
{
    void run( vf::Ctx & ctx )
    {
        ctx.loop( "L01", [&]( uint64_t idx, Rng & r ) {
            const uint32_t w = r.u( 1, r.chance( 10 ) ? 200 : 30 ), h = r.u( 1, r.chance( 10 ) ? 200 : 30 );
            Image field = makeImage( r, w, h );
            const uint32_t t = r.u( 0, 5 );
            const uint32_t lo = r.u( 0, 255 ), hi = r.u( lo, 255 );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x ) {
                    uint8_t & v = px( field, x, y );
                    if ( t < 3 )
                        v = static_cast<uint8_t>( r.u( lo, hi ) );
                    else if ( t == 3 )
                        v = static_cast<uint8_t>( 1 + ( x * 5 + y * 3 ) % 254 );
                    else if ( t == 4 )
                        v = static_cast<uint8_t>( r.chance( 50 ) ? lo : 255 );
                }
            uint32_t least = 255, most = 0;
            Points incorrect;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x ) {
                    const uint8_t v = px( field, x, y );
                    if ( v == 0 || v == 255 )
                        incorrect.push_back( { x, y } );
                    else {
                        least = std::min<uint32_t>( least, v );
                        most = std::max<uint32_t>( most, v );
                    }
                }
            const std::string what = fmt( "field %ux%u of %u..%u", w, h, least, most );
            ctx.begin( idx, "LightCorrection " + what );
            ctx.distinct.insert( vf::hashStr( what ) );
            LightCorrection c;
            // a tool which was not calibrated refuses
            if ( r.chance( 20 ) ) {
                Image im = makeImage( r, w, h );
                const std::vector<uint8_t> before = bytes( im );
                ++ctx.evaluations;
                if ( !refused( [&] { r.chance( 50 ) ? c.correct( im ) : c.correct( im, 0, 0, w, h ); } ) || bytes( im ) != before )
                    ctx.fail( "light/uncalibrated", what );
            }
            bool recalibrated = false;
            if ( r.chance( 30 ) ) { // an earlier calibration of another size is replaced
                Image im = makeImage( r, r.u( 2, 20 ), r.u( 2, 20 ) );
                for ( size_t k = 0; k < static_cast<size_t>( im.rowSize() ) * im.height(); ++k )
                    im.data()[k] = static_cast<uint8_t>( 1 + k % 200 );
                c.analyze( im );
                recalibrated = true;
            }
            const std::vector<uint8_t> fieldBytes = bytes( field );
            const bool no = refused( [&] { c.analyze( field ); } );
            ++ctx.evaluations;
            if ( no != ( least >= most ) )
                ctx.fail( no ? "light/calibration-refused" : "light/calibration-accepted", what );
            if ( bytes( field ) != fieldBytes )
                ctx.fail( "light/calibration-changed", what );
            // pixels without information
            const std::vector<PointBase2D<uint32_t>> pts = c.findIncorrectPixels( field );
            Points got;
            for ( const auto & p : pts )
                got.push_back( { p.x, p.y } );
            std::sort( got.begin(), got.end() );
            std::sort( incorrect.begin(), incorrect.end() );
            ++ctx.evaluations;
            if ( got != incorrect )
                ctx.fail( "light/incorrect-pixels", what + fmt( ": %zu instead of %zu", got.size(), incorrect.size() ) );
            if ( no ) {
                if ( !recalibrated ) {
                    Image im = makeImage( r, w, h );
                    const std::vector<uint8_t> before = bytes( im );
                    if ( !refused( [&] { c.correct( im ); } ) || bytes( im ) != before )
                        ctx.fail( "light/uncalibrated-after-refusal", what );
                }
                ctx.hit( "refused calibrations" );
                return;
            }
            auto factor = [&]( uint32_t x, uint32_t y ) {
                const uint8_t v = px( static_cast<const Image &>( field ), x, y );
                return ( v == 0 || v == 255 ) ? 1.0 : static_cast<double>( most ) / v;
            };
            for ( int k = 0; k < 3; ++k ) {
                // the calibration image itself and others, whole and in parts, also larger and smaller ones
                Image im;
                Region g{ 0, 0, w, h };
                const uint32_t form = k == 0 ? 0 : r.u( 0, 3 );
                if ( form == 0 )
                    im = field;
                else if ( form == 1 )
                    im = makeImage( r, w, h );
                else
                    im = makeImage( r, r.u( 1, w + 5 ), r.u( 1, h + 5 ) );
                const bool whole = form < 2 && r.chance( 50 );
                if ( !whole ) {
                    const uint32_t cw = std::min( w, im.width() ), ch = std::min( h, im.height() );
                    g.x = r.u( 0, cw - 1 );
                    g.y = r.u( 0, ch - 1 );
                    g.w = r.u( 1, cw - g.x );
                    g.h = r.u( 1, ch - g.y );
                }
                const Image before = im;
                ctx.begin( idx, "LightCorrection::correct " + what + fmt( " region %ux%u at %u,%u of %ux%u", g.w, g.h, g.x, g.y, im.width(), im.height() ) );
                if ( whole )
                    c.correct( im );
                else
                    c.correct( im, g.x, g.y, g.w, g.h );
                ++ctx.evaluations;
                std::string wrong;
                for ( uint32_t y = 0; y < im.height() && wrong.empty(); ++y )
                    for ( uint32_t x = 0; x < im.rowSize() && wrong.empty(); ++x ) {
                        const uint8_t a = px( before, x, y ), b = px( static_cast<const Image &>( im ), x, y );
                        if ( x < g.x || y < g.y || x >= g.x + g.w || y >= g.y + g.h ) {
                            if ( a != b )
                                wrong = fmt( "outside of the region: %u,%u changed from %u to %u", x, y, a, b );
                        }
                        else {
                            const double e = std::min( 255.0, a * factor( x, y ) );
                            if ( std::fabs( b - e ) > 0.52 )
                                wrong = fmt( "%u,%u: %u became %u instead of %g", x, y, a, b, e );
                            if ( form == 0 && a != 0 && a != 255 && b != most )
                                wrong = fmt( "%u,%u of the calibration image became %u instead of %u", x, y, b, most );
                        }
                    }
                if ( !wrong.empty() )
                    ctx.fail( form == 0 ? "light/own" : "light/other", what + fmt( " region %ux%u at %u,%u of %ux%u: ", g.w, g.h, g.x, g.y, im.width(), im.height() ) + wrong );
                if ( idx < 2 )
                    ctx.sample( what + fmt( ": region %ux%u at %u,%u corrected", g.w, g.h, g.x, g.y ) );
            }
            // refusals
            {
                const uint32_t k = r.u( 0, 9 );
                Image im;
                Region g{ 0, 0, w, h };
                bool analyse = false, whole = false;
                switch ( k ) {
                case 0: // beyond the image
                    im = makeImage( r, w, h );
                    g.x = r.u( 1, w );
                    break;
                case 1:
                    im = makeImage( r, w, h );
                    g.y = r.pick( { 1u, h, h + 1, UINT32_MAX } );
                    break;
                case 2: // beyond the calibrated size
                    im = makeImage( r, w + r.u( 1, 4 ), h );
                    whole = r.chance( 50 );
                    g.w = im.width();
                    break;
                case 3:
                    im = makeImage( r, w, h + r.u( 1, 4 ) );
                    whole = r.chance( 50 );
                    g.h = im.height();
                    break;
                case 4:
                    im = makeImage( r, w + 3, h + 3 );
                    g = Region{ r.u( 1, 3 ), r.u( 0, 3 ), w, h };
                    break;
                case 5:
                    im = makeImage( r, w, h, r.pick<uint8_t>( { 2, 3, 4 } ) );
                    whole = r.chance( 50 );
                    break;
                case 6:
                    whole = r.chance( 50 );
                    break;
                case 7:
                    im = makeImage( r, w, h );
                    ( r.chance( 50 ) ? g.w : g.h ) = 0;
                    break;
                case 8:
                    analyse = true;
                    im = makeImage( r, w, h, 3 );
                    break;
                default:
                    analyse = true;
                }
                const Image before = im;
                ctx.begin( idx, fmt( "LightCorrection refused %u ", k ) + what );
                ++ctx.evaluations;
                const bool ok = refused( [&] {
                    if ( analyse )
                        c.analyze( im );
                    else if ( whole )
                        c.correct( im );
                    else
                        c.correct( im, g.x, g.y, g.w, g.h );
                } );
                if ( !ok )
                    ctx.fail( fmt( "light/accepted-%u", k ), what );
                if ( !before.empty() && bytes( before ) != bytes( im ) )
                    ctx.fail( fmt( "light/refused-changed-%u", k ), what );
                // the calibration is still the same
                Image again = field;
                c.correct( again );
                for ( uint32_t y = 0; y < h; ++y )
                    for ( uint32_t x = 0; x < w; ++x ) {
                        const uint8_t a = px( static_cast<const Image &>( field ), x, y );
                        if ( px( again, x, y ) != ( a == 0 || a == 255 ? a : most ) ) {
                            ctx.fail( fmt( "light/refused-calibration-%u", k ), what );
                            return;
                        }
                    }
            }
        } );
    }
}

// ------------------------------------------------------------------------------------------------ kernel of the Gaussian filter
namespace kernel
{
    void run( vf::Ctx & ctx )
    {
        ctx.loop( "kernel", [&]( uint64_t idx, Rng & r ) {
            const uint32_t w = r.u( 0, 40 ), h = r.u( 0, 40 );
            const uint32_t limit = w < 3 || h < 3 ? 0 : std::min( w - 1, h - 1 ) / 2;
            const uint32_t k = r.chance( 70 ) && limit > 0 ? r.u( 1, limit ) : r.pick<uint32_t>( { 0, limit + 1, limit + 5, UINT32_MAX, UINT32_MAX / 2, UINT32_MAX / 2 + 1, 1u << 31 } );
            const float sigma = r.chance( 80 ) ? static_cast<float>( r.pick( { 0.1, 1.0, 10.0, 100.0 } ) * r.d( 0.5, 5 ) ) : r.pick<float>( { 0.f, -1.f, -0.f, std::numeric_limits<float>::quiet_NaN(), 1e-3f } );
            const bool valid = w > 2 && h > 2 && k > 0 && k <= limit && sigma > 0;
            const std::string what = fmt( "%ux%u, kernel %u, sigma %g", w, h, k, static_cast<double>( sigma ) );
            ctx.begin( idx, "GetGaussianKernel " + what );
            ctx.distinct.insert( vf::hashStr( what ) );
            std::vector<float> f( r.u( 0, 50 ), -4.f );
            const std::vector<float> before = f;
            const bool no = refused( [&] { Image_Function::GetGaussianKernel( f, w, h, k, sigma ); } );
            ++ctx.evaluations;
            if ( no == valid ) {
                ctx.fail( no ? "kernel/refused" : "kernel/accepted", what );
                return;
            }
            if ( no ) {
                if ( f != before )
                    ctx.fail( "kernel/refused-changed", what );
                return;
            }
            if ( f.size() != static_cast<size_t>( w ) * h ) {
                ctx.fail( "kernel/size", what );
                return;
            }
            double sum = 0;
            for ( int64_t y = -static_cast<int64_t>( k ); y <= k; ++y )
                for ( int64_t x = -static_cast<int64_t>( k ); x <= k; ++x )
                    sum += std::exp( -static_cast<double>( x * x + y * y ) / ( 2.0 * sigma ) );
            double total = 0;
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t x = 0; x < w; ++x ) {
                    const int64_t dx = static_cast<int64_t>( x ) - w / 2, dy = static_cast<int64_t>( y ) - h / 2;
                    const bool inside = std::abs( dx ) <= k && std::abs( dy ) <= k;
                    const double e = inside ? std::exp( -static_cast<double>( dx * dx + dy * dy ) / ( 2.0 * sigma ) ) / sum : 0;
                    total += f[y * w + x];
                    if ( !close( f[y * w + x], e, 1e-4 * e + ( inside ? 1e-7 : 0 ) ) ) {
                        ctx.fail( "kernel/value", what + fmt( ": %g instead of %g at %u,%u", static_cast<double>( f[y * w + x] ), e, x, y ) );
                        return;
                    }
                }
            if ( !close( total, 1, 1e-4 ) )
                ctx.fail( "kernel/sum", what );
            ctx.hit( "kernels" );
            if ( idx < 3 )
                ctx.sample( what + fmt( ": sum %g", total ) );
        } );
    }
}

int main( int argc, char ** argv )
{
    vf::Ctx ctx;
    ctx.parse( argc, argv );
    if ( ctx.mode == "B01" )
        blob::partition( ctx );
    else if ( ctx.mode == "B02" )
        blob::measures( ctx );
    else if ( ctx.mode == "E01" )
        edge::run( ctx );
    else if ( ctx.mode == "X01" )
        fourier::run( ctx );
    else if ( ctx.mode == "X02" )
        haar::run( ctx );
    else if ( ctx.mode == "X03" )
        hough::run( ctx );
    else if ( ctx.mode == "X04" )
        geometry::run( ctx );
    else if ( ctx.mode == "L01" )
        light::run( ctx );
    else if ( ctx.mode == "kernel" )
        kernel::run( ctx );
    else
        return 3;
    return ctx.finish();
}
