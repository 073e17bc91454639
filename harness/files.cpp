// Monitors of saving and loading of images. Modes: F01 (round trips and files made by others), F02 (hostile files).
#include "common.h"
#include "file/bmp_image.h"
#include "file/file_image.h"
#include "file/jpeg_image.h"
#include "file/png_image.h"
#include "file/raw_image.h"
#include "image_buffer.h"
#include "penguinv_exception.h"
#include <algorithm>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <dirent.h>
#include <jpeglib.h>
#include <new>
#include <png.h>
#include <sys/resource.h>
#include <sys/stat.h>

using penguinV::Image;
using vf::fmt;
using vf::Rng;
typedef std::vector<uint8_t> Bytes;

// memory is handed out filled with a pattern: whatever is read before being written differs between two loads
namespace heap
{
    std::atomic<size_t> limit{ SIZE_MAX };
    std::atomic<uint8_t> pattern{ 0xA5 };
    std::atomic<uint64_t> refusedRequests{ 0 };
    void * get( size_t n )
    {
        if ( n > limit ) {
            ++refusedRequests;
            throw std::bad_alloc();
        }
        void * p = malloc( n ? n : 1 );
        if ( p == nullptr )
            throw std::bad_alloc();
        memset( p, pattern, n < ( 256u << 20 ) ? n : 64 ); // immense images are mostly never touched
        return p;
    }
}
void * operator new( size_t n )
{
    return heap::get( n );
}
void * operator new[]( size_t n )
{
    return heap::get( n );
}
void operator delete( void * p ) noexcept
{
    free( p );
}
void operator delete[]( void * p ) noexcept
{
    free( p );
}
void operator delete( void * p, size_t ) noexcept
{
    free( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    free( p );
}

namespace
{
    int openFiles()
    {
        DIR * d = opendir( "/proc/self/fd" );
        if ( d == nullptr )
            return -1;
        int n = 0;
        while ( readdir( d ) != nullptr )
            ++n;
        closedir( d );
        return n;
    }
    Bytes readFile( const std::string & path )
    {
        Bytes b;
        FILE * f = fopen( path.c_str(), "rb" );
        if ( f == nullptr )
            return b;
        uint8_t part[65536];
        size_t n;
        while ( ( n = fread( part, 1, sizeof part, f ) ) > 0 )
            b.insert( b.end(), part, part + n );
        fclose( f );
        return b;
    }
    void writeFile( const std::string & path, const Bytes & b )
    {
        FILE * f = fopen( path.c_str(), "wb" );
        if ( f == nullptr || ( !b.empty() && fwrite( b.data(), 1, b.size(), f ) != b.size() ) ) {
            fprintf( stderr, "cannot write %s\n", path.c_str() );
            exit( 3 );
        }
        fclose( f );
    }
    std::string name( const std::string & extension )
    {
        return fmt( "vf%d.", static_cast<int>( getpid() ) ) + extension;
    }
    template <typename F>
    bool refused( F f )
    {
        try {
            f();
        }
        catch ( const penguinVException & ) {
            return true;
        }
        return false;
    }
    template <typename T>
    std::vector<T> raw( const penguinV::ImageTemplate<T> & im )
    {
        if ( static_cast<uint64_t>( im.rowSize() ) * im.height() > ( 256u << 20 ) )
            return std::vector<T>();
        return std::vector<T>( im.data(), im.data() + static_cast<size_t>( im.rowSize() ) * im.height() );
    }
    // the pixels of an image, without padding
    struct Picture
    {
        uint32_t w = 0, h = 0;
        uint32_t c = 0;
        std::vector<uint32_t> v;
        bool operator==( const Picture & p ) const
        {
            return w == p.w && h == p.h && c == p.c && v == p.v;
        }
    };
    template <typename T>
    Picture picture( const penguinV::ImageTemplate<T> & im, uint32_t x0, uint32_t y0, uint32_t w, uint32_t h )
    {
        Picture p;
        p.w = w;
        p.h = h;
        p.c = im.colorCount();
        for ( uint32_t y = y0; y < y0 + h; ++y )
            for ( uint32_t x = x0 * p.c; x < ( x0 + w ) * p.c; ++x )
                p.v.push_back( im.data()[static_cast<size_t>( y ) * im.rowSize() + x] );
        return p;
    }
    template <typename T>
    Picture picture( const penguinV::ImageTemplate<T> & im )
    {
        return picture( im, 0, 0, im.width(), im.height() );
    }
    Picture withoutAlpha( const Picture & p )
    {
        if ( p.c != 4 )
            return p;
        Picture q;
        q.w = p.w;
        q.h = p.h;
        q.c = 3;
        for ( size_t k = 0; k < p.v.size(); ++k )
            if ( k % 4 != 3 )
                q.v.push_back( p.v[k] );
        return q;
    }
    std::string difference( const Picture & got, const Picture & expected, double tolerance = 0, double mean = 1e9 )
    {
        if ( got.w != expected.w || got.h != expected.h || got.c != expected.c )
            return fmt( "%ux%u with %u channels instead of %ux%u with %u", got.w, got.h, got.c, expected.w, expected.h, expected.c );
        double sum = 0;
        for ( size_t k = 0; k < got.v.size(); ++k ) {
            const double d = std::fabs( static_cast<double>( got.v[k] ) - expected.v[k] );
            sum += d;
            if ( d > tolerance )
                return fmt( "%u instead of %u at %zu,%zu channel %zu", got.v[k], expected.v[k], k / got.c % got.w, k / got.c / got.w, k % got.c );
        }
        if ( sum > mean * static_cast<double>( got.v.size() ) )
            return fmt( "values differ by %g on average", sum / static_cast<double>( got.v.size() ) );
        return std::string();
    }

    template <typename T>
    penguinV::ImageTemplate<T> makeImage( Rng & r, uint32_t w, uint32_t h, uint8_t c, bool smooth, std::string & kind )
    {
        penguinV::ImageTemplate<T> im( w, h, c, r.pick<uint8_t>( { 1, 1, 2, 4, 8, 16, 3, 5, 32, 64 } ) );
        const uint32_t t = smooth ? 3 : r.u( 0, 4 );
        kind = t == 0 ? "constant" : ( t == 1 ? "few values" : ( t == 3 ? "smooth" : "random" ) );
        const uint8_t v0 = static_cast<uint8_t>( r.next() );
        double base[8], dx[8], dy[8];
        for ( int k = 0; k < 8; ++k ) {
            base[k] = r.d( 40, 215 );
            dx[k] = r.d( -1.5, 1.5 );
            dy[k] = r.d( -1.5, 1.5 );
        }
        for ( uint32_t y = 0; y < h; ++y ) {
            T * row = im.data() + static_cast<size_t>( y ) * im.rowSize();
            for ( uint32_t x = 0; x < im.rowSize(); ++x ) {
                if ( x >= w * c )
                    row[x] = static_cast<T>( r.next() ); // padding
                else if ( t == 0 )
                    row[x] = static_cast<T>( v0 );
                else if ( t == 1 )
                    row[x] = r.pick<T>( { 0, 255, static_cast<T>( v0 ) } );
                else if ( t == 3 )
                    row[x] = static_cast<T>( std::min( 255.0, std::max( 0.0, base[x % c % 8] + dx[x % c % 8] * ( x / c ) + dy[x % c % 8] * y ) ) );
                else
                    row[x] = static_cast<T>( r.next() );
            }
        }
        return im;
    }
    // an image to be loaded into
    Image target( Rng & r, Image & keep )
    {
        std::string k;
        Image im;
        if ( r.chance( 80 ) )
            im = makeImage<uint8_t>( r, r.u( 1, 20 ), r.u( 1, 20 ), r.pick<uint8_t>( { 1, 3, 4, 2 } ), false, k );
        keep = im;
        return im;
    }
    void put( Bytes & b, uint64_t v, int n )
    {
        for ( int k = 0; k < n; ++k )
            b.push_back( static_cast<uint8_t>( v >> ( 8 * k ) ) );
    }
    uint64_t get( const Bytes & b, size_t at, int n )
    {
        uint64_t v = 0;
        for ( int k = 0; k < n && at + static_cast<size_t>( k ) < b.size(); ++k )
            v |= static_cast<uint64_t>( b[at + static_cast<size_t>( k )] ) << ( 8 * k );
        return v;
    }

    // ---- readers which do not use the library
    std::string parseBitmap( const Bytes & b, Picture & p )
    {
        if ( b.size() < 54 || b[0] != 'B' || b[1] != 'M' )
            return "no bitmap header";
        if ( get( b, 2, 4 ) != b.size() )
            return fmt( "file size %llu in the header, %zu in fact", static_cast<unsigned long long>( get( b, 2, 4 ) ), b.size() );
        const size_t offset = get( b, 10, 4 );
        const int32_t w = static_cast<int32_t>( get( b, 18, 4 ) ), h = static_cast<int32_t>( get( b, 22, 4 ) );
        const uint32_t bits = static_cast<uint32_t>( get( b, 28, 2 ) );
        if ( get( b, 14, 4 ) != 40 || get( b, 26, 2 ) != 1 || get( b, 30, 4 ) != 0 || w <= 0 || h == 0 || ( bits != 8 && bits != 24 && bits != 32 ) )
            return "unusual bitmap header";
        const size_t c = bits / 8, line = ( static_cast<size_t>( w ) * c + 3 ) / 4 * 4, lines = static_cast<size_t>( h < 0 ? -h : h );
        if ( offset < 54 + ( c == 1 ? 1024u : 0u ) || b.size() != offset + line * lines )
            return fmt( "%zu bytes, data of %zu lines of %zu bytes at %zu", b.size(), lines, line, offset );
        p.w = static_cast<uint32_t>( w );
        p.h = static_cast<uint32_t>( lines );
        p.c = static_cast<uint32_t>( c );
        p.v.clear();
        for ( size_t y = 0; y < lines; ++y )
            for ( size_t x = 0; x < static_cast<size_t>( w ) * c; ++x ) {
                uint32_t v = b[offset + line * ( h < 0 ? y : lines - 1 - y ) + x];
                if ( c == 1 ) {
                    const size_t entry = offset - 1024 + 4 * v;
                    if ( b[entry] != b[entry + 1] || b[entry] != b[entry + 2] )
                        return "the palette is not gray";
                    v = b[entry];
                }
                p.v.push_back( v );
            }
        return std::string();
    }
    std::string parsePng( const std::string & path, bool gray, Picture & p )
    {
        png_image im;
        memset( &im, 0, sizeof im );
        im.version = PNG_IMAGE_VERSION;
        if ( !png_image_begin_read_from_file( &im, path.c_str() ) )
            return std::string( "libpng refuses it: " ) + im.message;
        if ( ( ( im.format & PNG_FORMAT_FLAG_COLOR ) == 0 ) != gray ) {
            png_image_free( &im );
            return "colour instead of gray-scale or the opposite";
        }
        im.format = gray ? PNG_FORMAT_GRAY : PNG_FORMAT_BGR;
        Bytes b( PNG_IMAGE_SIZE( im ) );
        if ( !png_image_finish_read( &im, nullptr, b.data(), 0, nullptr ) )
            return std::string( "libpng cannot read it: " ) + im.message;
        p.w = im.width;
        p.h = im.height;
        p.c = gray ? 1 : 3;
        p.v.assign( b.begin(), b.end() );
        return std::string();
    }
    struct JumpError
    {
        jpeg_error_mgr base;
        jmp_buf jump;
    };
    void jumpOut( j_common_ptr i )
    {
        longjmp( reinterpret_cast<JumpError *>( i->err )->jump, 1 );
    }
    void silent( j_common_ptr ) {}
    std::string parseJpeg( const Bytes & b, Picture & p, int & firstQuantum )
    {
        jpeg_decompress_struct d;
        JumpError e;
        d.err = jpeg_std_error( &e.base );
        e.base.error_exit = jumpOut;
        e.base.output_message = silent;
        if ( setjmp( e.jump ) ) {
            jpeg_destroy_decompress( &d );
            return "libjpeg refuses it";
        }
        jpeg_create_decompress( &d );
        jpeg_mem_src( &d, b.data(), b.size() );
        jpeg_read_header( &d, TRUE );
        firstQuantum = d.quant_tbl_ptrs[0] ? d.quant_tbl_ptrs[0]->quantval[1] : -1;
        jpeg_start_decompress( &d );
        p.w = d.output_width;
        p.h = d.output_height;
        p.c = static_cast<uint32_t>( d.output_components );
        p.v.clear();
        Bytes line( static_cast<size_t>( p.w ) * p.c );
        while ( d.output_scanline < d.output_height ) {
            JSAMPROW row = line.data();
            jpeg_read_scanlines( &d, &row, 1 );
            if ( p.c == 3 )
                for ( size_t k = 0; k < line.size(); k += 3 )
                    std::swap( line[k], line[k + 2] );
            p.v.insert( p.v.end(), line.begin(), line.end() );
        }
        jpeg_finish_decompress( &d );
        jpeg_destroy_decompress( &d );
        return std::string();
    }

    // ---- writers which do not use the library
    struct BitmapOptions
    {
        bool core = false, topDown = false, sizeGiven = true;
        uint32_t bytes = 3;
        int palette = 0; // 0: none, 1: gray, 2: colours
        uint32_t gap = 0; // bytes before the data, not a palette
    };
    Bytes bitmap( Rng & r, uint32_t w, uint32_t h, const BitmapOptions & o, Picture & expected )
    {
        Bytes palette;
        std::vector<uint8_t> colours( 1024, 0 );
        if ( o.bytes == 1 && o.palette ) {
            for ( uint32_t k = 0; k < 256; ++k ) {
                for ( uint32_t j = 0; j < 3; ++j )
                    colours[4 * k + j] = o.palette == 1 ? static_cast<uint8_t>( k ) : static_cast<uint8_t>( r.next() );
            }
            palette = colours;
        }
        palette.resize( palette.size() + o.gap, 0 );
        const uint32_t header = 14 + ( o.core ? 12 : 40 ), line = ( w * o.bytes + 3 ) / 4 * 4;
        Bytes b;
        b.push_back( 'B' );
        b.push_back( 'M' );
        put( b, r.chance( 80 ) ? header + palette.size() + static_cast<size_t>( line ) * h : 0, 4 );
        put( b, 0, 4 );
        put( b, header + palette.size(), 4 );
        if ( o.core ) {
            put( b, 12, 4 );
            put( b, w, 2 );
            put( b, h, 2 );
            put( b, 1, 2 );
            put( b, o.bytes * 8, 2 );
        }
        else {
            put( b, 40, 4 );
            put( b, w, 4 );
            put( b, o.topDown ? static_cast<uint32_t>( -static_cast<int32_t>( h ) ) : h, 4 );
            put( b, 1, 2 );
            put( b, o.bytes * 8, 2 );
            put( b, 0, 4 );
            put( b, o.sizeGiven ? line * h : 0, 4 );
            put( b, r.u( 0, 5000 ), 4 );
            put( b, r.u( 0, 5000 ), 4 );
            put( b, 0, 4 );
            put( b, 0, 4 );
        }
        b.insert( b.end(), palette.begin(), palette.end() );
        const size_t offset = b.size();
        for ( size_t k = 0; k < static_cast<size_t>( line ) * h; ++k )
            b.push_back( static_cast<uint8_t>( r.next() ) );
        const bool colour = o.bytes == 1 && o.palette == 2 && o.gap == 0;
        expected = Picture();
        expected.w = w;
        expected.h = h;
        expected.c = colour ? 3 : o.bytes;
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w * o.bytes; ++x ) {
                const uint8_t v = b[offset + static_cast<size_t>( o.topDown && !o.core ? y : h - 1 - y ) * line + x];
                if ( colour )
                    for ( uint32_t j = 0; j < 3; ++j )
                        expected.v.push_back( colours[4u * v + j] );
                else
                    expected.v.push_back( v );
            }
        return b;
    }
    void append( png_structp png, png_bytep data, size_t n )
    {
        Bytes * b = static_cast<Bytes *>( png_get_io_ptr( png ) );
        b->insert( b->end(), data, data + n );
    }
    void nothing( png_structp ) {}
    Bytes pngFile( Rng & r, uint32_t w, uint32_t h, int type, int depth, bool interlaced, bool transparency, Picture & expected, bool alsoText = false )
    {
        Bytes out;
        png_structp png = png_create_write_struct( PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr );
        png_infop info = png_create_info_struct( png );
        png_set_write_fn( png, &out, append, nothing );
        png_set_IHDR( png, info, w, h, depth, type, interlaced ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT );
        png_color palette[256];
        png_byte alpha[256];
        const uint32_t colours = type == PNG_COLOR_TYPE_PALETTE ? ( r.chance( 50 ) ? 1u << depth : r.u( 1, 1u << depth ) ) : 0;
        for ( uint32_t k = 0; k < 256; ++k ) {
            palette[k].red = static_cast<png_byte>( r.next() );
            palette[k].green = static_cast<png_byte>( r.next() );
            palette[k].blue = static_cast<png_byte>( r.next() );
            alpha[k] = static_cast<png_byte>( r.next() );
        }
        if ( colours )
            png_set_PLTE( png, info, palette, static_cast<int>( colours ) );
        if ( transparency && type != PNG_COLOR_TYPE_RGBA && type != PNG_COLOR_TYPE_GRAY_ALPHA ) {
            png_color_16 c;
            memset( &c, 0, sizeof c );
            c.red = c.green = c.blue = c.gray = static_cast<png_uint_16>( r.u( 0, ( 1u << depth ) - 1 ) );
            png_set_tRNS( png, info, alpha, static_cast<int>( colours ? r.u( 1, colours ) : 1 ), &c );
        }
        if ( alsoText ) {
            png_text t;
            memset( &t, 0, sizeof t );
            char key[] = "Comment", text[] = "made for a test";
            t.key = key;
            t.text = text;
            t.compression = PNG_TEXT_COMPRESSION_NONE;
            png_set_text( png, info, &t, 1 );
            png_set_gAMA( png, info, 0.45455 );
        }
        const int passes = interlaced ? 7 : 1;
        png_write_info( png, info );
        if ( interlaced )
            png_set_interlace_handling( png );
        const size_t rowBytes = png_get_rowbytes( png, info );
        std::vector<Bytes> rows( h, Bytes( rowBytes ) );
        const uint32_t channels = type == PNG_COLOR_TYPE_RGB ? 3 : ( type == PNG_COLOR_TYPE_RGBA ? 4 : ( type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1 ) );
        expected = Picture();
        expected.w = w;
        expected.h = h;
        expected.c = ( type & PNG_COLOR_MASK_COLOR ) ? 3 : 1;
        for ( uint32_t y = 0; y < h; ++y ) {
            for ( uint32_t x = 0; x < w; ++x ) {
                uint32_t s[4] = { 0, 0, 0, 0 };
                for ( uint32_t c = 0; c < channels; ++c ) {
                    s[c] = colours ? r.u( 0, colours - 1 ) : r.u( 0, ( 1u << depth ) - 1 );
                    const size_t bit = ( static_cast<size_t>( x ) * channels + c ) * static_cast<size_t>( depth );
                    if ( depth == 16 ) {
                        rows[y][bit / 8] = static_cast<uint8_t>( s[c] >> 8 );
                        rows[y][bit / 8 + 1] = static_cast<uint8_t>( s[c] );
                    }
                    else
                        rows[y][bit / 8] = static_cast<uint8_t>( rows[y][bit / 8] | ( s[c] << ( 8 - depth - static_cast<int>( bit % 8 ) ) ) );
                    if ( depth == 16 )
                        s[c] >>= 8;
                    else if ( !colours )
                        s[c] = s[c] * 255 / ( ( 1u << depth ) - 1 );
                }
                if ( colours ) {
                    expected.v.push_back( palette[s[0]].blue );
                    expected.v.push_back( palette[s[0]].green );
                    expected.v.push_back( palette[s[0]].red );
                }
                else if ( expected.c == 3 ) {
                    expected.v.push_back( s[2] );
                    expected.v.push_back( s[1] );
                    expected.v.push_back( s[0] );
                }
                else
                    expected.v.push_back( s[0] );
            }
        }
        for ( int p = 0; p < passes; ++p )
            for ( uint32_t y = 0; y < h; ++y )
                png_write_row( png, rows[y].data() );
        png_write_end( png, info );
        png_destroy_write_struct( &png, &info );
        return out;
    }
    Bytes jpegFile( Rng & r, uint32_t w, uint32_t h, int channels, bool progressive, int quality )
    {
        jpeg_compress_struct c;
        jpeg_error_mgr e;
        c.err = jpeg_std_error( &e );
        jpeg_create_compress( &c );
        unsigned char * out = nullptr;
        unsigned long n = 0;
        jpeg_mem_dest( &c, &out, &n );
        c.image_width = w;
        c.image_height = h;
        c.input_components = channels;
        c.in_color_space = channels == 1 ? JCS_GRAYSCALE : ( channels == 3 ? JCS_RGB : JCS_CMYK );
        jpeg_set_defaults( &c );
        jpeg_set_quality( &c, quality, TRUE );
        if ( progressive )
            jpeg_simple_progression( &c );
        if ( r.chance( 20 ) )
            c.restart_interval = r.u( 1, 5 );
        if ( r.chance( 20 ) )
            c.arith_code = FALSE, c.optimize_coding = TRUE;
        jpeg_start_compress( &c, TRUE );
        Bytes line( static_cast<size_t>( w ) * static_cast<size_t>( channels ) );
        const uint32_t t = r.u( 0, 2 );
        uint32_t y = 0;
        while ( c.next_scanline < h ) {
            for ( size_t k = 0; k < line.size(); ++k )
                line[k] = t == 0 ? static_cast<uint8_t>( r.next() ) : static_cast<uint8_t>( ( k + y * 3 ) % 256 );
            JSAMPROW row = line.data();
            jpeg_write_scanlines( &c, &row, 1 );
            ++y;
        }
        jpeg_finish_compress( &c );
        Bytes b( out, out + n );
        jpeg_destroy_compress( &c );
        free( out );
        return b;
    }

    // a file of any supported kind and what it contains; extension tells the format
    Bytes anyFile( Rng & r, std::string & extension, std::string & kind, Picture & expected, bool & known, uint32_t perThousandLarge = 0 )
    {
        uint32_t w = r.u( 1, 24 ), h = r.u( 1, 24 );
        known = true;
        switch ( r.u( 0, 2 ) ) {
        case 0: {
            BitmapOptions o;
            o.core = r.chance( 35 );
            o.topDown = !o.core && r.chance( 40 );
            o.sizeGiven = r.chance( 70 );
            o.bytes = r.pick<uint32_t>( { 1, 1, 3, 4 } );
            o.palette = r.pick( { 0, 1, 2, 2 } );
            if ( o.bytes != 1 && r.chance( 30 ) ) // a block of the size of a palette is no palette here, and some are longer than a block of reading
                o.gap = r.chance( 2 ) ? 4 * 1024 * 1024 + r.u( 1, 70 ) : r.pick<uint32_t>( { 1024u, r.u( 1, 70 ) } );
            if ( r.u( 0, 999 ) < perThousandLarge ) { // more than a block of reading, not a multiple of it
                h = r.u( 900, 1700 );
                w = ( 4 * 1024 * 1024 + r.u( 1, 2000000 ) ) / ( h * o.bytes ) + 1;
            }
            extension = r.pick<std::string>( { "bmp", "bmp", "BMP", "dat" } );
            kind = fmt( "bitmap %ux%u%s%s, %u bytes per pixel, palette %d, gap %u", w, h, o.core ? " core" : "", o.topDown ? " top-down" : "", o.bytes, o.bytes == 1 ? o.palette : 0, o.gap );
            return bitmap( r, w, h, o, expected );
        }
        case 1: {
            const int type = r.pick( { PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGBA, PNG_COLOR_TYPE_PALETTE } );
            const int depth = type == PNG_COLOR_TYPE_GRAY ? r.pick( { 1, 2, 4, 8, 16 } ) : ( type == PNG_COLOR_TYPE_PALETTE ? r.pick( { 1, 2, 4, 8 } ) : r.pick( { 8, 16 } ) );
            const bool interlaced = r.chance( 30 ), transparency = r.chance( 30 );
            extension = "png";
            kind = fmt( "png %ux%u type %d depth %d%s%s", w, h, type, depth, interlaced ? " interlaced" : "", transparency ? " transparent" : "" );
            return pngFile( r, w, h, type, depth, interlaced, transparency, expected, r.chance( 20 ) );
        }
        default: {
            const int channels = r.pick( { 1, 3, 3, 4 } );
            const bool progressive = r.chance( 40 );
            extension = r.pick<std::string>( { "jpg", "jpeg" } );
            kind = fmt( "jpeg %ux%u channels %d%s", w, h, channels, progressive ? " progressive" : "" );
            const Bytes b = jpegFile( r, w, h, channels, progressive, r.pick( { 30, 75, 100 } ) );
            int q;
            known = parseJpeg( b, expected, q ).empty();
            return b;
        }
        }
    }
    enum class Format
    {
        BMP,
        PNG,
        JPEG
    };
    Image loadModule( Format f, const std::string & path )
    {
        return f == Format::BMP ? Bitmap_Operation::Load( path ) : ( f == Format::PNG ? Png_Operation::Load( path ) : Jpeg_Operation::Load( path ) );
    }
    void loadModule( Format f, const std::string & path, Image & im )
    {
        f == Format::BMP ? Bitmap_Operation::Load( path, im ) : ( f == Format::PNG ? Png_Operation::Load( path, im ) : Jpeg_Operation::Load( path, im ) );
    }
    void saveModule( Format f, const std::string & path, const Image & im )
    {
        f == Format::BMP ? Bitmap_Operation::Save( path, im ) : ( f == Format::PNG ? Png_Operation::Save( path, im ) : Jpeg_Operation::Save( path, im ) );
    }
    void saveModule( Format f, const std::string & path, const Image & im, uint32_t x, uint32_t y, uint32_t w, uint32_t h )
    {
        f == Format::BMP ? Bitmap_Operation::Save( path, im, x, y, w, h )
                         : ( f == Format::PNG ? Png_Operation::Save( path, im, x, y, w, h ) : Jpeg_Operation::Save( path, im, x, y, w, h ) );
    }
    const char * FORMAT[] = { "bitmap", "png", "jpeg" };

    // a value written cannot be larger than this file size; writing beyond fails
    struct FileLimit
    {
        rlimit before;
        explicit FileLimit( size_t n )
        {
            getrlimit( RLIMIT_FSIZE, &before );
            rlimit l = before;
            l.rlim_cur = n;
            setrlimit( RLIMIT_FSIZE, &l );
        }
        ~FileLimit()
        {
            setrlimit( RLIMIT_FSIZE, &before );
        }
    };

    void roundTrip( vf::Ctx & ctx, uint64_t idx, Rng & r )
    {
        const Format f = r.pick( { Format::BMP, Format::BMP, Format::PNG, Format::JPEG } );
        const char * fn = FORMAT[static_cast<int>( f )];
        uint32_t w = r.chance( 5 ) ? r.u( 1, 700 ) : r.u( 1, 40 ), h = r.chance( 5 ) ? r.u( 1, 300 ) : r.u( 1, 30 );
        const uint8_t c = r.pick<uint8_t>( { 1, 3, 4 } );
        std::string content;
        Image im = makeImage<uint8_t>( r, w, h, c, f == Format::JPEG && ( c != 1 || r.chance( 50 ) ), content );
        uint32_t x = 0, y = 0;
        const bool region = r.chance( 50 );
        if ( region ) {
            x = r.u( 0, w - 1 );
            y = r.u( 0, h - 1 );
            w = r.u( 1, w - x );
            h = r.u( 1, h - y );
            if ( r.u( 0, 99 ) == 0 ) { // the same in an image of up to 4 GiB, most of which is never touched
                const uint32_t W = w + ( r.chance( 50 ) ? r.u( 0, 300 ) : r.u( 1000, 200000 ) );
                const uint8_t al = r.pick<uint8_t>( { 1, 2, 4, 32 } );
                const uint32_t H = std::max( h + 1, ( r.chance( 80 ) ? 4294000000u : 2147000000u ) / ( ( W * c + al - 1 ) / al * al ) );
                try {
                    Image large( W, H, c, al );
                    const uint32_t X = r.chance( 50 ) ? W - w : r.u( 0, W - w ), Y = r.chance( 60 ) ? H - h : r.u( 0, H - h );
                    for ( uint32_t k = 0; k < h; ++k )
                        memcpy( large.data() + static_cast<size_t>( Y + k ) * large.rowSize() + static_cast<size_t>( X ) * c,
                                im.data() + static_cast<size_t>( y + k ) * im.rowSize() + static_cast<size_t>( x ) * c, static_cast<size_t>( w ) * c );
                    im.swap( large );
                    x = X;
                    y = Y;
                    ctx.hit( "regions of images of gigabytes" );
                }
                catch ( const std::bad_alloc & ) { // then a usual one
                }
            }
        }
        const bool dispatch = r.chance( 50 );
        std::string extension = f == Format::BMP ? "bmp" : ( f == Format::PNG ? "png" : ( r.chance( 50 ) ? "jpg" : "jpeg" ) );
        if ( f == Format::BMP && r.chance( 20 ) )
            extension = r.pick<std::string>( { "BMP", "xyz", "png.bmp", "jpg1" } );
        if ( !dispatch && r.chance( 20 ) )
            extension = "any";
        const std::string path = name( extension );
        const std::string what = fmt( "%s%s, %s image of %ux%u, %u channels, rows of %u, region %ux%u at %u,%u", fn, dispatch ? " by extension" : "", content.c_str(), im.width(),
                                      im.height(), c, im.rowSize(), w, h, x, y );
        ctx.begin( idx, "Save " + what );
        ctx.distinct.insert( vf::hashStr( what ) );
        int quality = 100;
        if ( f == Format::JPEG ) {
            if ( r.chance( 40 ) )
                quality = r.i( 1, 100 );
            Jpeg_Operation::SetImageQuality( quality );
            ++ctx.evaluations;
            const int bad = r.pick( { 0, 101, -5, 1000 } );
            if ( Jpeg_Operation::GetImageQuality() != quality || !refused( [&] { Jpeg_Operation::SetImageQuality( bad ); } ) || Jpeg_Operation::GetImageQuality() != quality )
                ctx.fail( "files/quality", fmt( "quality %d after %d", Jpeg_Operation::GetImageQuality(), bad ) );
        }
        if ( r.chance( 30 ) ) // the previous file is replaced
            writeFile( path, Bytes( r.u( 0, 100000 ), 0x55 ) );
        else
            unlink( path.c_str() );
        const Bytes before = raw( im );
        const int files = openFiles();
        auto save = [&] {
            if ( dispatch )
                region ? File_Operation::Save( path, im, x, y, w, h ) : File_Operation::Save( path, im );
            else
                region ? saveModule( f, path, im, x, y, w, h ) : saveModule( f, path, im );
        };
        save();
        if ( raw( im ) != before )
            ctx.fail( std::string( "files/source-changed-" ) + fn, what );
        const Picture source = picture( im, x, y, w, h );
        const Picture expected = f == Format::BMP ? source : withoutAlpha( source );
        // how far values may be from the original
        double each = 0, mean = 0;
        if ( f == Format::JPEG ) {
            each = quality == 100 ? ( c == 1 ? 6 : 14 ) : 256;
            mean = quality == 100 ? ( c == 1 ? 1.5 : 4 ) : ( content == "smooth" ? 6 + ( 100 - quality ) * 0.25 : 256 );
        }
        // the file itself, read without the library
        const Bytes file = readFile( path );
        Picture p;
        int quantum = 0;
        std::string diff = f == Format::BMP ? parseBitmap( file, p ) : ( f == Format::PNG ? parsePng( path, c == 1, p ) : parseJpeg( file, p, quantum ) );
        ++ctx.evaluations;
        if ( diff.empty() )
            diff = difference( p, expected, each, mean );
        if ( !diff.empty() )
            ctx.fail( std::string( "files/saved-" ) + fn, what + ": " + diff );
        if ( f == Format::JPEG && diff.empty() ) { // the quality is the one which was asked for
            const int q = quality < 50 ? 5000 / quality : 200 - 2 * quality;
            const int e = std::min( 255, std::max( 1, ( 11 * q + 50 ) / 100 ) );
            ++ctx.evaluations;
            if ( quantum != e )
                ctx.fail( "files/saved-quality", what + fmt( ", quality %d: quantum %d instead of %d", quality, quantum, e ) );
        }
        // the file read by the library
        ctx.begin( idx, "Load " + what );
        const Image got = dispatch ? File_Operation::Load( path ) : loadModule( f, path );
        const Picture loaded = picture( got );
        ++ctx.evaluations;
        diff = f == Format::JPEG ? difference( loaded, p, 0 ) : difference( loaded, expected, 0 );
        if ( !diff.empty() )
            ctx.fail( std::string( "files/loaded-" ) + fn, what + ": " + diff );
        Image old;
        Image into = target( r, old );
        const Bytes oldBytes = old.empty() ? Bytes() : raw( old );
        heap::pattern = static_cast<uint8_t>( r.next() );
        if ( dispatch )
            File_Operation::Load( path, into );
        else
            loadModule( f, path, into );
        ++ctx.evaluations;
        if ( !( picture( into ) == loaded ) )
            ctx.fail( std::string( "files/loaded-into-" ) + fn, what + fmt( " into an image of %ux%u, %u channels: ", old.width(), old.height(), old.colorCount() ) + difference( picture( into ), loaded ) );
        if ( !old.empty() && raw( old ) != oldBytes )
            ctx.fail( std::string( "files/other-image-changed-" ) + fn, what );
        if ( readFile( path ) != file )
            ctx.fail( std::string( "files/file-changed-by-loading-" ) + fn, what );
        if ( openFiles() != files )
            ctx.fail( std::string( "files/open-files-" ) + fn, what + fmt( ": %d instead of %d", openFiles(), files ) );
        ctx.hit( std::string( "round trips/" ) + fn );
        if ( idx < 4 )
            ctx.sample( what + fmt( ": %zu bytes", file.size() ) );
        // a file which cannot be written completely is not reported as saved
        if ( r.chance( 15 ) && file.size() > 1 ) {
            ctx.begin( idx, "Save without space " + what );
            bool ok, complete;
            {
                FileLimit limit( r.u( 0, static_cast<uint32_t>( file.size() - 1 ) ) );
                ok = refused( save );
            }
            complete = readFile( path ).size() == file.size();
            ++ctx.evaluations;
            if ( !ok && !complete )
                ctx.fail( std::string( "files/incomplete-" ) + fn, what + fmt( ": %zu of %zu bytes were written, no exception", readFile( path ).size(), file.size() ) );
            if ( raw( im ) != before || openFiles() != files )
                ctx.fail( std::string( "files/incomplete-state-" ) + fn, what );
            ctx.hit( "incomplete files" );
        }
        unlink( path.c_str() );
    }

    template <typename T>
    void rawTrip( vf::Ctx & ctx, uint64_t idx, Rng & r )
    {
        const uint32_t w = r.u( 1, r.chance( 5 ) ? 400 : 30 ), h = r.u( 1, r.chance( 5 ) ? 400 : 30 );
        const uint8_t c = r.pick<uint8_t>( { 1, 3, 4 } );
        std::string content;
        penguinV::ImageTemplate<T> im = makeImage<T>( r, w, h, c, false, content );
        const std::string path = name( "raw" ), what = fmt( "raw %zu bytes per value, %s %ux%u, %u channels, rows of %u", sizeof( T ), content.c_str(), w, h, c, im.rowSize() );
        ctx.begin( idx, "Save " + what );
        ctx.distinct.insert( vf::hashStr( what ) );
        const std::vector<T> before = raw( im );
        const int files = openFiles();
        if ( r.chance( 30 ) )
            writeFile( path, Bytes( r.u( 0, 10000 ), 1 ) );
        Raw_Operation::Save( path, im );
        const Picture expected = picture( im );
        const Bytes file = readFile( path );
        ++ctx.evaluations;
        if ( raw( im ) != before )
            ctx.fail( "files/source-changed-raw", what );
        // values one after another
        bool same = file.size() == expected.v.size() * sizeof( T );
        for ( size_t k = 0; same && k < expected.v.size(); ++k )
            same = get( file, k * sizeof( T ), sizeof( T ) ) == expected.v[k];
        if ( !same )
            ctx.fail( "files/saved-raw", what );
        const penguinV::ImageTemplate<T> got = Raw_Operation::Load<T>( path, w, h, c );
        ++ctx.evaluations;
        const std::string diff = difference( picture( got ), expected );
        if ( !diff.empty() )
            ctx.fail( "files/loaded-raw", what + ": " + diff );
        // other sizes do not fit
        const uint32_t t = r.u( 0, 5 );
        if ( t < 3 ) {
            const uint32_t w2 = t == 0 ? w + 1 : w, h2 = t == 1 ? h + 1 : h;
            const uint8_t c2 = t == 2 ? static_cast<uint8_t>( c == 1 ? 2 : c - 1 ) : c;
            ++ctx.evaluations;
            if ( !Raw_Operation::Load<T>( path, w2, h2, c2 ).empty() )
                ctx.fail( "files/raw-other-size", what + fmt( " loaded as %ux%u, %u channels", w2, h2, c2 ) );
        }
        else if ( t == 3 ) {
            ++ctx.evaluations;
            const uint32_t z = r.u( 0, 3 );
            const penguinV::ImageTemplate<T> other = makeImage<T>( r, w, h, r.pick<uint8_t>( { 2, 5, 255 } ), false, content );
            if ( !refused( [&] { Raw_Operation::Save( path, r.chance( 50 ) ? other : penguinV::ImageTemplate<T>() ); } ) || readFile( path ) != file )
                ctx.fail( "files/raw-channels", what );
            if ( !refused( [&] { Raw_Operation::Load<T>( z == 0 ? "" : path, z == 1 ? 0 : w, z == 2 ? 0 : h, z == 3 ? 0 : c ); } ) )
                ctx.fail( "files/raw-accepted", fmt( "invalid parameter %u", z ) );
        }
        // order of bytes
        penguinV::ImageTemplate<T> swapped = im;
        Raw_Operation::LittleEndianToBigEndian( swapped );
        const Picture s = picture( swapped );
        ++ctx.evaluations;
        bool ok = s.v.size() == expected.v.size();
        for ( size_t k = 0; ok && k < s.v.size(); ++k ) {
            uint32_t e = 0;
            for ( size_t j = 0; j < sizeof( T ); ++j )
                e |= ( ( expected.v[k] >> ( 8 * j ) ) & 255 ) << ( 8 * ( sizeof( T ) - 1 - j ) );
            ok = s.v[k] == e;
        }
        if ( !ok || raw( im ) != before )
            ctx.fail( "files/raw-byte-order", what );
        if ( openFiles() != files )
            ctx.fail( "files/open-files-raw", what );
        if ( r.chance( 15 ) && file.size() > 1 ) {
            bool no;
            {
                FileLimit limit( r.u( 0, static_cast<uint32_t>( file.size() - 1 ) ) );
                no = refused( [&] { Raw_Operation::Save( path, im ); } );
            }
            ++ctx.evaluations;
            if ( !no )
                ctx.fail( "files/incomplete-raw", what );
        }
        ctx.hit( "round trips/raw" );
        unlink( path.c_str() );
    }

    void foreign( vf::Ctx & ctx, uint64_t idx, Rng & r )
    {
        std::string extension, kind;
        Picture expected;
        bool known;
        const Bytes b = anyFile( r, extension, kind, expected, known, 3 );
        const Format f = kind[0] == 'b' ? Format::BMP : ( kind[0] == 'p' ? Format::PNG : Format::JPEG );
        const std::string path = name( extension );
        writeFile( path, b );
        ctx.begin( idx, "Load foreign " + kind );
        ctx.distinct.insert( vf::hashStr( kind ) );
        const int files = openFiles();
        Image got;
        if ( r.chance( 50 ) )
            got = r.chance( 50 ) ? File_Operation::Load( path ) : loadModule( f, path );
        else {
            Image old;
            got = target( r, old );
            r.chance( 50 ) ? File_Operation::Load( path, got ) : loadModule( f, path, got );
        }
        ++ctx.evaluations;
        const std::string diff = known ? difference( picture( got ), expected ) : "could not be made";
        if ( !diff.empty() )
            ctx.fail( std::string( "files/foreign-" ) + FORMAT[static_cast<int>( f )], kind + ": " + diff );
        if ( openFiles() != files )
            ctx.fail( "files/open-files-foreign", kind );
        ctx.hit( std::string( "foreign/" ) + FORMAT[static_cast<int>( f )] );
        unlink( path.c_str() );
    }

    void invalid( vf::Ctx & ctx, uint64_t idx, Rng & r )
    {
        const Format f = r.pick( { Format::BMP, Format::PNG, Format::JPEG } );
        const char * fn = FORMAT[static_cast<int>( f )];
        const std::string extension = f == Format::BMP ? "bmp" : ( f == Format::PNG ? "png" : "jpg" );
        const uint32_t t = r.u( 0, 9 );
        std::string path = name( extension ), k;
        unlink( path.c_str() );
        const uint32_t w = r.u( 1, 20 ), h = r.u( 1, 20 );
        Image im = makeImage<uint8_t>( r, w, h, r.pick<uint8_t>( { 1, 3, 4 } ), false, k );
        const bool dispatch = r.chance( 50 );
        const int files = openFiles();
        ctx.begin( idx, fmt( "invalid %s %u", fn, t ) );
        ctx.hit( fmt( "invalid calls/%s", fn ) );
        auto save = [&]( const Image & i ) { dispatch ? File_Operation::Save( path, i ) : saveModule( f, path, i ); };
        auto savePart = [&]( uint32_t x, uint32_t y, uint32_t ww, uint32_t hh ) { dispatch ? File_Operation::Save( path, im, x, y, ww, hh ) : saveModule( f, path, im, x, y, ww, hh ); };
        bool ok = true;
        const Bytes before = raw( im );
        bool file = false;
        switch ( t ) {
        case 0:
            ok = refused( [&] { save( Image() ); } );
            break;
        case 1:
            ok = refused( [&] { savePart( w, 0, 1, 1 ); } );
            break;
        case 2:
            ok = refused( [&] { savePart( 0, r.pick( { h, h + 1, UINT32_MAX } ), 1, 1 ); } );
            break;
        case 3:
            ok = refused( [&] { savePart( 1, 0, w, h ); } ) && refused( [&] { savePart( 1, 1, UINT32_MAX, UINT32_MAX ); } );
            break;
        case 4:
            ok = refused( [&] { savePart( 0, 0, r.chance( 50 ) ? 0 : w, 0 ); } );
            break;
        case 5: {
            const Image other = makeImage<uint8_t>( r, w, h, r.pick<uint8_t>( { 2, 5, 6, 200, 255 } ), false, k );
            ok = refused( [&] { save( other ); } );
            break;
        }
        case 6:
            path = "there/is/no/such." + extension;
            ok = refused( [&] { save( im ); } );
            break;
        case 7: // nothing to load
            if ( r.chance( 50 ) )
                path = "there/is/no/such." + extension;
            try {
                ok = ( dispatch ? File_Operation::Load( path ) : loadModule( f, path ) ).empty();
            }
            catch ( const penguinVException & ) {
            }
            break;
        case 8:
            if ( f == Format::BMP || f == Format::JPEG || !dispatch )
                ok = refused( [&] { loadModule( f, "" ); } );
            break;
        default:
            if ( f == Format::JPEG ) { // more than the format can describe
                const Image wide = makeImage<uint8_t>( r, 65536 + r.u( 0, 3 ), 1, 1, false, k );
                ok = refused( [&] { save( wide ); } );
                file = true;
            }
        }
        ++ctx.evaluations;
        if ( !ok )
            ctx.fail( fmt( "files/accepted-%u-%s", t, fn ), fmt( "image of %ux%u", w, h ) );
        if ( raw( im ) != before )
            ctx.fail( fmt( "files/refused-changed-%u-%s", t, fn ), fmt( "image of %ux%u", w, h ) );
        if ( openFiles() != files )
            ctx.fail( fmt( "files/open-files-refused-%u-%s", t, fn ), fmt( "%d instead of %d", openFiles(), files ) );
        (void)file;
        unlink( path.c_str() );
    }

    void runF01( vf::Ctx & ctx )
    {
        ctx.loop( "F01", [&]( uint64_t idx, Rng & r ) {
            heap::pattern = static_cast<uint8_t>( r.next() );
            switch ( r.u( 0, 9 ) ) {
            case 0:
            case 1: {
                const uint32_t t = r.u( 0, 2 );
                if ( t == 0 )
                    rawTrip<uint8_t>( ctx, idx, r );
                else if ( t == 1 )
                    rawTrip<uint16_t>( ctx, idx, r );
                else
                    rawTrip<uint32_t>( ctx, idx, r );
                break;
            }
            case 2:
            case 3:
            case 4:
                foreign( ctx, idx, r );
                break;
            case 5:
                invalid( ctx, idx, r );
                break;
            default:
                roundTrip( ctx, idx, r );
            }
        } );
    }

    // ------------------------------------------------------------------------------------------------ hostile files
    uint32_t crc( const uint8_t * p, size_t n )
    {
        uint32_t c = 0xFFFFFFFFu;
        for ( size_t k = 0; k < n; ++k ) {
            c ^= p[k];
            for ( int j = 0; j < 8; ++j )
                c = ( c >> 1 ) ^ ( ( c & 1 ) ? 0xEDB88320u : 0 );
        }
        return ~c;
    }
    uint32_t big( const Bytes & b, size_t at )
    {
        return static_cast<uint32_t>( b[at] ) << 24 | static_cast<uint32_t>( b[at + 1] ) << 16 | static_cast<uint32_t>( b[at + 2] ) << 8 | b[at + 3];
    }
    // makes check sums of all chunks right
    void repairPng( Bytes & b )
    {
        size_t at = 8;
        while ( at + 12 <= b.size() ) {
            const uint64_t n = big( b, at );
            if ( at + 12 + n > b.size() )
                break;
            const uint32_t c = crc( b.data() + at + 4, static_cast<size_t>( n ) + 4 );
            for ( size_t k = 0; k < 4; ++k )
                b[at + 8 + static_cast<size_t>( n ) + k] = static_cast<uint8_t>( c >> ( 24 - 8 * k ) );
            at += 12 + static_cast<size_t>( n );
        }
    }
    void store( Bytes & b, size_t at, uint64_t v, int n, bool bigEndian )
    {
        for ( int k = 0; k < n; ++k )
            if ( at + static_cast<size_t>( k ) < b.size() )
                b[at + static_cast<size_t>( k )] = static_cast<uint8_t>( v >> ( 8 * ( bigEndian ? n - 1 - k : k ) ) );
    }
    uint64_t extreme( Rng & r )
    {
        const uint64_t v = r.pick<uint64_t>( { 0, 1, 2, 3, 4, 7, 8, 16, 24, 32, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000u, 0x80000001u, 0xFFFFFFFFu, 0xFFFFFFFEu, 0x40000000, 0x55555556, 0x3FFFFFFF } );
        return r.chance( 25 ) ? v + r.u( 0, 4 ) : v;
    }
    void mutate( Rng & r, Bytes & b, Format f, std::string & how )
    {
        if ( b.empty() )
            return;
        const uint32_t n = static_cast<uint32_t>( b.size() );
        switch ( r.u( 0, 9 ) ) {
        case 0:
            b.resize( r.u( 0, n - 1 ) );
            how += fmt( " cut to %zu", b.size() );
            break;
        case 1: {
            const uint32_t at = r.u( 0, n - 1 ), bit = r.u( 0, 7 );
            b[at] = static_cast<uint8_t>( b[at] ^ ( 1u << bit ) );
            how += fmt( " bit %u of %u", bit, at );
            break;
        }
        case 2: {
            const uint32_t at = r.u( 0, std::min( n - 1, 80u ) );
            b[at] = r.pick<uint8_t>( { 0, 1, 2, 127, 128, 254, 255, static_cast<uint8_t>( r.next() ) } );
            how += fmt( " byte %u", at );
            break;
        }
        case 3:
        case 4: { // fields of headers
            static const uint32_t bmp[] = { 2, 10, 14, 18, 20, 22, 24, 26, 28, 30, 34, 46 }, png[] = { 8, 16, 20, 24, 25, 26, 27, 28, 33 };
            uint32_t at;
            if ( f == Format::BMP )
                at = bmp[r.u( 0, 11 )];
            else if ( f == Format::PNG )
                at = png[r.u( 0, 8 )];
            else {
                at = r.u( 0, n - 1 );
                for ( uint32_t k = at; k + 1 < n; ++k ) { // after a marker
                    if ( b[k] == 0xFF && b[k + 1] >= 0xC0 && b[k + 1] != 0xFF ) {
                        at = k + r.u( 1, 10 );
                        break;
                    }
                }
            }
            store( b, at, extreme( r ), r.pick( { 1, 2, 4 } ), f != Format::BMP );
            how += fmt( " field at %u", at );
            break;
        }
        case 5: {
            const uint32_t at = r.u( 0, n - 1 ), len = r.u( 1, std::min( n - at, 64u ) );
            b.erase( b.begin() + at, b.begin() + at + len );
            how += fmt( " without %u bytes at %u", len, at );
            break;
        }
        case 6: {
            const uint32_t at = r.u( 0, n - 1 ), len = r.u( 1, std::min( n - at, 64u ) ), to = r.u( 0, n );
            const Bytes part( b.begin() + at, b.begin() + at + len );
            b.insert( b.begin() + to, part.begin(), part.end() );
            how += fmt( " repeated %u bytes at %u", len, to );
            break;
        }
        case 7: {
            const uint32_t at = r.u( 0, n ), len = r.u( 1, 40 );
            Bytes part( len );
            for ( uint8_t & v : part )
                v = static_cast<uint8_t>( r.next() );
            b.insert( b.begin() + at, part.begin(), part.end() );
            how += fmt( " %u more bytes at %u", len, at );
            break;
        }
        case 8: {
            const uint32_t at = r.u( 0, n - 1 ), len = r.u( 1, std::min( n - at, 30u ) );
            for ( uint32_t k = at; k < at + len; ++k )
                b[k] = static_cast<uint8_t>( r.next() );
            how += fmt( " noise at %u", at );
            break;
        }
        default:
            b.insert( b.end(), r.u( 1, 5000 ), static_cast<uint8_t>( r.next() ) );
            how += " longer";
        }
    }
    // a bitmap whose header is consistent with an extreme size
    Bytes hostileBitmap( Rng & r, std::string & how )
    {
        Picture p;
        BitmapOptions o;
        o.core = r.chance( 20 );
        o.bytes = r.pick<uint32_t>( { 1, 3, 4 } );
        o.topDown = r.chance( 30 );
        o.palette = r.pick( { 0, 1, 2 } );
        const uint32_t w0 = r.u( 1, 12 ), h0 = r.u( 1, 12 );
        Bytes b = bitmap( r, w0, h0, o, p );
        if ( r.chance( 20 ) ) { // pixels which begin within the headers
            const uint32_t line = ( w0 * o.bytes + 3 ) / 4 * 4, offset = r.u( 0, o.core ? 26 : 54 );
            store( b, 10, offset, 4, false );
            b.resize( static_cast<size_t>( offset ) + line * h0, 0x11 );
            how = fmt( "bitmap of %u x %u with pixels at %u", w0, h0, offset );
            return b;
        }
        const uint64_t w = extreme( r ), h = extreme( r );
        if ( !o.core ) {
            store( b, 18, w, 4, false );
            store( b, 22, h, 4, false );
            const uint64_t line = ( ( w & 0xFFFFFFFF ) * o.bytes + 3 ) / 4 * 4;
            if ( r.chance( 60 ) )
                store( b, 34, line * h, 4, false );
        }
        if ( r.chance( 30 ) )
            store( b, 10, r.chance( 50 ) ? static_cast<uint64_t>( b.size() ) - r.u( 0, 8 ) : extreme( r ), 4, false );
        how = fmt( "bitmap of %llu x %llu", static_cast<unsigned long long>( w ), static_cast<unsigned long long>( h ) );
        return b;
    }

    // the outcome of a load: exception, nothing or an image
    struct Outcome
    {
        int kind = 0; // 0: nothing, 1: image, 2: refused, 3: out of memory, 4: something else
        Picture p;
    };
    template <typename F>
    Outcome attempt( F load, std::string & wrong )
    {
        Outcome o;
        heap::limit = 48u << 20;
        try {
            const Image im = load();
            heap::limit = SIZE_MAX;
            if ( !im.empty() ) {
                o.kind = 1;
                if ( im.width() == 0 || im.height() == 0 || im.colorCount() == 0 || im.data() == nullptr || im.alignment() == 0 || im.rowSize() % im.alignment() != 0
                     || im.rowSize() < im.width() * im.colorCount() )
                    wrong = fmt( "an image of %ux%u, %u channels, rows of %u, alignment %u", im.width(), im.height(), im.colorCount(), im.rowSize(), im.alignment() );
                else
                    o.p = picture( im );
            }
            else if ( im.width() != 0 || im.height() != 0 )
                wrong = fmt( "an image without data of %ux%u", im.width(), im.height() );
        }
        catch ( const penguinVException & ) {
            o.kind = 2;
        }
        catch ( const std::bad_alloc & ) {
            o.kind = 3;
        }
        catch ( const std::exception & e ) {
            o.kind = 4;
            wrong = std::string( "exception " ) + e.what();
        }
        heap::limit = SIZE_MAX;
        return o;
    }

    void runF02( vf::Ctx & ctx )
    {
        static const char * OUTCOME[] = { "nothing", "image", "refused", "out of memory", "other exception" };
        stderr = fopen( "/dev/null", "w" ); // messages of libpng and libjpeg; reports of sanitizers do not use it
        ctx.loop( "F02", [&]( uint64_t idx, Rng & r ) {
            std::string extension, kind;
            Picture expected;
            bool known;
            Bytes b = anyFile( r, extension, kind, expected, known );
            Format f = kind[0] == 'b' ? Format::BMP : ( kind[0] == 'p' ? Format::PNG : Format::JPEG );
            std::string how;
            const uint32_t t = r.u( 0, 19 );
            if ( t == 0 ) {
                b.resize( r.u( 0, 200 ) );
                for ( uint8_t & v : b )
                    v = static_cast<uint8_t>( r.next() );
                if ( r.chance( 50 ) ) { // with a valid beginning
                    static const uint8_t PNG[8] = { 137, 80, 78, 71, 13, 10, 26, 10 };
                    for ( size_t k = 0; k < b.size() && k < ( f == Format::PNG ? 8u : 2u ); ++k )
                        b[k] = f == Format::PNG ? PNG[k] : ( f == Format::BMP ? ( k ? 'M' : 'B' ) : ( k ? 0xD8 : 0xFF ) );
                }
                how = "random bytes";
            }
            else if ( t == 1 ) { // the content of another format
                f = r.pick( { Format::BMP, Format::PNG, Format::JPEG } );
                extension = f == Format::BMP ? "bmp" : ( f == Format::PNG ? "png" : "jpg" );
                how = "another format";
            }
            else if ( t <= 4 && f == Format::BMP ) {
                b = hostileBitmap( r, how );
                kind.clear();
            }
            else {
                for ( uint32_t k = r.chance( 60 ) ? 1 : r.u( 1, 6 ); k > 0; --k )
                    mutate( r, b, f, how );
                if ( f == Format::PNG && r.chance( 60 ) )
                    repairPng( b );
            }
            const std::string path = name( extension ), what = kind + how;
            writeFile( path, b );
            ctx.begin( idx, std::string( "Load hostile " ) + FORMAT[static_cast<int>( f )] + ": " + what );
            ctx.distinct.insert( vf::hashBytes( b.data(), b.size() ) );
            const int files = openFiles();
            const uint8_t pattern = static_cast<uint8_t>( r.next() );
            const bool dispatch = r.chance( 50 );
            std::string wrong;
            heap::pattern = pattern;
            const Outcome first = attempt( [&] { return dispatch ? File_Operation::Load( path ) : loadModule( f, path ); }, wrong );
            heap::pattern = static_cast<uint8_t>( ~pattern );
            Image old;
            Image into = target( r, old );
            const Bytes oldBytes = old.empty() ? Bytes() : raw( old );
            const Outcome second = attempt(
                [&] {
                    dispatch ? File_Operation::Load( path, into ) : loadModule( f, path, into );
                    return into;
                },
                wrong );
            ctx.evaluations += 2;
            ctx.hit( fmt( "%s/%s", FORMAT[static_cast<int>( f )], OUTCOME[first.kind] ) );
            if ( !wrong.empty() )
                ctx.fail( std::string( "files/result-" ) + FORMAT[static_cast<int>( f )], what + ": " + wrong );
            // the same file gives the same result, whatever memory contained before
            if ( ( first.kind == 1 ) != ( second.kind == 1 ) || ( first.kind == 1 && !( first.p == second.p ) ) )
                ctx.fail( std::string( "files/repeated-" ) + FORMAT[static_cast<int>( f )],
                          what + fmt( ": %s, then %s into an image of %ux%u: ", OUTCOME[first.kind], OUTCOME[second.kind], old.width(), old.height() ) + difference( second.p, first.p ) );
            if ( !old.empty() && raw( old ) != oldBytes )
                ctx.fail( std::string( "files/other-image-changed-" ) + FORMAT[static_cast<int>( f )], what );
            const int now = openFiles();
            if ( now != files )
                ctx.fail( std::string( "files/open-files-" ) + FORMAT[static_cast<int>( f )], what + fmt( ": %d instead of %d open files", now, files ) );
            // a bitmap contains all its pixels: what a small one describes always fits
            if ( f == Format::BMP && ( first.kind == 3 || second.kind == 3 ) )
                ctx.fail( "files/memory-bitmap", what + fmt( ": a file of %zu bytes requires all the memory", b.size() ) );
            // the image is still usable
            if ( r.chance( 30 ) ) {
                into.setColorCount( 3 );
                into.resize( 5, 4 );
                into.fill( 7 );
                ++ctx.evaluations;
                if ( into.width() != 5 || into.height() != 4 || into.rowSize() < 15 || into.data()[0] != 7 )
                    ctx.fail( std::string( "files/unusable-" ) + FORMAT[static_cast<int>( f )], what );
            }
            // and further loads work
            if ( r.chance( 20 ) ) {
                std::string e2, k2;
                Picture p2;
                bool known2;
                const Bytes good = anyFile( r, e2, k2, p2, known2 );
                const std::string path2 = name( "good." + e2 );
                writeFile( path2, good );
                ctx.begin( idx, "Load after a hostile file: " + k2 );
                ++ctx.evaluations;
                File_Operation::Load( path2, into );
                if ( known2 && !( picture( into ) == p2 ) )
                    ctx.fail( "files/after-hostile", what + ", then " + k2 );
                unlink( path2.c_str() );
            }
            // raw files of any length
            if ( r.chance( 20 ) ) {
                const uint32_t w = r.chance( 50 ) ? static_cast<uint32_t>( extreme( r ) ) : r.u( 1, 40 ), h = r.chance( 50 ) ? static_cast<uint32_t>( extreme( r ) ) : r.u( 1, 40 );
                const uint8_t c = r.pick<uint8_t>( { 1, 2, 3, 4, 16, 128, 255 } );
                ctx.begin( idx, fmt( "Load of %zu bytes as raw %ux%u, %u channels", b.size(), w, h, c ) );
                const bool wide = r.chance( 50 );
                const Outcome o = wide ? attempt(
                                      [&] {
                                          const penguinV::ImageTemplate<uint16_t> i = Raw_Operation::Load<uint16_t>( path, w, h, c );
                                          return i.empty() ? Image() : Image( i.width(), i.height(), 1 );
                                      },
                                      wrong )
                                       : attempt( [&] { return Raw_Operation::Load<uint8_t>( path, w, h, c ); }, wrong );
                ++ctx.evaluations;
                const bool fits = w && h && static_cast<unsigned __int128>( w ) * h * c * ( wide ? 2 : 1 ) == b.size();
                if ( ( o.kind == 1 ) != fits || o.kind > 3 )
                    ctx.fail( "files/raw-size", fmt( "%zu bytes as %ux%u, %u channels of %d bytes: %s", b.size(), w, h, c, wide ? 2 : 1, OUTCOME[o.kind] ) );
                ctx.hit( fmt( "raw/%s", OUTCOME[o.kind] ) );
            }
            if ( idx < 4 )
                ctx.sample( std::string( FORMAT[static_cast<int>( f )] ) + " " + what + ": " + OUTCOME[first.kind] );
            unlink( path.c_str() );
        } );
        ctx.hit( "memory requests refused", heap::refusedRequests );
    }
}

int main( int argc, char ** argv )
{
    signal( SIGXFSZ, SIG_IGN );
    vf::Ctx ctx;
    ctx.parse( argc, argv );
    if ( ctx.mode == "F01" )
        runF01( ctx );
    else if ( ctx.mode == "F02" )
        runF02( ctx );
    else
        return 3;
    return ctx.finish();
}
