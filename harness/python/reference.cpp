// The functions of the C++ library, called directly. Built as a library of its own, apart from the Python module.
#include "file/bmp_image.h"
#include "image_function.h"
#include <cstring>
#include <string>

using penguinV::Image;

struct Desc
{
    uint8_t * data;
    uint32_t width, height, rowSize;
    uint32_t colors, alignment;
};

namespace
{
    Image make( const Desc & d )
    {
        Image im( 0, 0, static_cast<uint8_t>( d.colors ), static_cast<uint8_t>( d.alignment ) );
        if ( d.width && d.height ) {
            im.resize( d.width, d.height );
            memcpy( im.data(), d.data, static_cast<size_t>( im.rowSize() ) * im.height() );
        }
        return im;
    }
    // shape and contents back; the buffer has room for 'room' bytes
    int give( Desc & d, const Image & im, uint64_t room )
    {
        d.width = im.width();
        d.height = im.height();
        d.rowSize = im.rowSize();
        d.colors = im.colorCount();
        d.alignment = im.alignment();
        const uint64_t n = static_cast<uint64_t>( im.rowSize() ) * im.height();
        if ( n > room )
            return 3;
        if ( n )
            memcpy( d.data, im.data(), n );
        return 0;
    }
}

// 0: done, 1: refused by the library's exception, 2: another exception, 3: error of the monitor
extern "C" int ref_call( int op, int form, const Desc * in, Desc * out, uint64_t room, const uint32_t * r, uint32_t value, uint32_t * values, uint32_t * count, const char * path )
{
    using namespace Image_Function;
    try {
        Image a = in ? make( *in ) : Image();
        Image b = out && form % 2 == 0 ? make( *out ) : Image();
        const uint8_t v = static_cast<uint8_t>( value );
        std::vector<uint32_t> h( values, values + ( values ? *count : 0 ) );
        switch ( op * 10 + form ) {
        case 11: return give( *out, ConvertToGrayScale( a ), room );
        case 12: ConvertToGrayScale( a, b ); return give( *out, b, room );
        case 13: return give( *out, ConvertToGrayScale( a, r[0], r[1], r[4], r[5] ), room );
        case 14: ConvertToGrayScale( a, r[0], r[1], b, r[2], r[3], r[4], r[5] ); return give( *out, b, room );
        case 21: return give( *out, Threshold( a, v ), room );
        case 22: Threshold( a, b, v ); return give( *out, b, room );
        case 23: return give( *out, Threshold( a, r[0], r[1], r[4], r[5], v ), room );
        case 24: Threshold( a, r[0], r[1], b, r[2], r[3], r[4], r[5], v ); return give( *out, b, room );
        case 31: h = Histogram( a ); break;
        case 32: Histogram( a, h ); break;
        case 33: h = Histogram( a, r[0], r[1], r[4], r[5] ); break;
        case 34: Histogram( a, r[0], r[1], r[4], r[5], h ); break;
        case 41: {
            const uint8_t t = GetThreshold( h );
            h.assign( 1, t );
            break;
        }
        case 51: return give( *out, Bitmap_Operation::Load( path ), room );
        case 52: Bitmap_Operation::Load( path, b ); return give( *out, b, room );
        case 61: Bitmap_Operation::Save( path, a ); return 0;
        case 63: Bitmap_Operation::Save( path, a, r[0], r[1], r[4], r[5] ); return 0;
        default: return 3;
        }
        if ( h.size() > 2048 )
            return 3;
        *count = static_cast<uint32_t>( h.size() );
        memcpy( values, h.data(), h.size() * sizeof( uint32_t ) );
        return 0;
    }
    catch ( const penguinVException & ) {
        return 1;
    }
    catch ( const std::exception & ) {
        return 2;
    }
}
