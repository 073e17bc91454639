// part of ops.h, inside namespace ops

inline std::vector<uint32_t> tableOf( const std::function<uint32_t( uint32_t )> & f )
{
    std::vector<uint32_t> t( 256 );
    for ( uint32_t i = 0; i < 256; ++i )
        t[i] = f( i );
    return t;
}

inline std::vector<Op> buildTable()
{
    const int fspv = 15, fpv = 13, fs = 3, fv = 9, f = 1;
    const std::vector<int> any = { 1, 3, 4 }, gray = { 1 }, rgb = { 3 }, rgba = { 4 };
    auto cst = []( int v ) { return [v]( int, int ) { return v; }; };
    std::vector<Op> t;
    auto add = [&t]( const char * name, const char * family, int ns, const std::vector<int> & ccs ) -> Op & {
        t.push_back( Op() );
        t.back().name = name;
        t.back().family = family;
        t.back().nsMask = ns;
        t.back().ccs = ccs;
        return t.back();
    };
    auto bin = [&]( const char * name, uint32_t ( *fn )( uint32_t, uint32_t ), std::function<void( Case &, Result & )> call ) {
        Op & o = add( name, "I01", fspv, any );
        o.nin = 2;
        o.pointwise = true;
        o.call = call;
        o.expect = [fn]( const Case & c ) {
            return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return fn( c.val( 0, x, y, k ), c.val( 1, x, y, k ) ); }, c.w, c.h, c.cc );
        };
    };
#define B_CALL( FN ) CALL( NS_F( M_BIN, FN ) NS_G( M_BIN, FN ) NS_S( M_BIN, FN ) NS_P( M_BIN, FN ) NS_V( M_BIN, FN ) )
    bin( "AbsoluteDifference", []( uint32_t a, uint32_t b ) { return a > b ? a - b : b - a; }, B_CALL( AbsoluteDifference ) );
    bin( "BitwiseAnd", []( uint32_t a, uint32_t b ) { return a & b; }, B_CALL( BitwiseAnd ) );
    bin( "BitwiseOr", []( uint32_t a, uint32_t b ) { return a | b; }, B_CALL( BitwiseOr ) );
    bin( "BitwiseXor", []( uint32_t a, uint32_t b ) { return a ^ b; }, B_CALL( BitwiseXor ) );
    bin( "Maximum", []( uint32_t a, uint32_t b ) { return a > b ? a : b; }, B_CALL( Maximum ) );
    bin( "Minimum", []( uint32_t a, uint32_t b ) { return a < b ? a : b; }, B_CALL( Minimum ) );
    bin( "Subtract", []( uint32_t a, uint32_t b ) { return a > b ? a - b : 0u; }, B_CALL( Subtract ) );
    {
        Op & o = add( "Invert", "I01", fspv, any );
        o.pointwise = true;
        o.call = CALL( NS_G( M_UN, Invert ) NS_F( M_UN, Invert ) NS_S( M_UN, Invert ) NS_P( M_UN, Invert ) NS_V( M_UN, Invert ) );
        o.expect = []( const Case & c ) {
            const auto l = tableOf( []( uint32_t v ) { return 255 - v; } );
            return perTable( c, l, l );
        };
    }
    {
        Op & o = add( "GammaCorrection", "I01", fpv, any );
        o.pointwise = true;
        o.params = []( Case & c, Rng & r ) {
            c.p.d[0] = r.chance( 30 ) ? r.pick( { 1.0, 2.0, 0.5, 0.0, 1e-3, 10.0, 255.0, 1e6 } ) : r.d( 0, 3 );
            c.p.d[1] = r.chance( 30 ) ? r.pick( { 1.0, 2.0, 0.5, 0.0, 1e-3, 10.0, 200.0 } ) : r.d( 0, 4 );
        };
        o.call = CALL( NS_G( M_GAMMA, GammaCorrection ) NS_F( M_GAMMA, GammaCorrection ) NS_P( M_GAMMA, GammaCorrection ) NS_V( M_GAMMA, GammaCorrection ) );
        o.expect = []( const Case & c ) {
            std::vector<uint32_t> lo( 256 ), hi( 256 );
            for ( uint32_t i = 0; i < 256; ++i ) {
                const double v = c.p.d[0] * std::pow( i / 255.0, c.p.d[1] ) * 255;
                const double e = 1e-9 * ( 1 + v );
                lo[i] = v + 0.5 - e >= 256 ? 255 : v + 0.5 - e < 0 ? 0 : static_cast<uint32_t>( v + 0.5 - e );
                hi[i] = v + 0.5 + e >= 256 ? 255 : static_cast<uint32_t>( v + 0.5 + e );
            }
            return perTable( c, lo, hi );
        };
    }
    {
        Op & o = add( "LookupTable", "I01", fpv, any );
        o.pointwise = true;
        o.params = []( Case & c, Rng & r ) {
            c.p.table.resize( 256 );
            randomBytes( c.p.table.data(), 256, r );
        };
        o.call = CALL( NS_G( M_TABLE, LookupTable ) NS_F( M_TABLE, LookupTable ) NS_P( M_TABLE, LookupTable ) NS_V( M_TABLE, LookupTable ) );
        o.expect = []( const Case & c ) {
            const auto l = tableOf( [&]( uint32_t v ) { return static_cast<uint32_t>( c.p.table[v] ); } );
            return perTable( c, l, l );
        };
    }
    {
        Op & o = add( "Normalize", "I01", fpv, any );
        o.pointwise = true;
        o.params = []( Case & c, Rng & r ) { // often a narrow range of values, with single extreme values anywhere
            if ( r.chance( 60 ) ) {
                const uint32_t lo = r.u( 0, 255 ), hi = r.chance( 20 ) ? lo : r.u( lo, 255 );
                for ( uint32_t y = 0; y < c.h; ++y )
                    for ( uint32_t x = 0; x < c.w * c.cc; ++x )
                        c.in[0].data()[static_cast<size_t>( c.ip[0].y + y ) * c.in[0].rowSize() + c.ip[0].x * c.cc + x] = static_cast<uint8_t>( r.u( lo, hi ) );
                if ( r.chance( 50 ) )
                    c.in[0].data()[static_cast<size_t>( c.ip[0].y + r.u( 0, c.h - 1 ) ) * c.in[0].rowSize() + c.ip[0].x * c.cc + r.u( 0, c.w * c.cc - 1 )]
                        = static_cast<uint8_t>( r.next() );
            }
        };
        o.call = CALL( NS_GN( M_UN, Normalize ) NS_F( M_UN, Normalize ) NS_P( M_UN, Normalize ) NS_V( M_UN, Normalize ) );
        o.expect = []( const Case & c ) {
            uint32_t mn = 255, mx = 0;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < c.cc; ++k ) {
                        mn = std::min( mn, c.val( 0, x, y, k ) );
                        mx = std::max( mx, c.val( 0, x, y, k ) );
                    }
            std::vector<uint32_t> lo( 256 ), hi( 256 );
            for ( uint32_t i = 0; i < 256; ++i ) {
                const double v = mx > mn ? ( static_cast<double>( i ) - mn ) * 255.0 / ( mx - mn ) : i;
                lo[i] = clip8( v + 0.5 - 1e-9 );
                hi[i] = clip8( v + 0.5 + 1e-9 );
            }
            return perTable( c, lo, hi );
        };
    }
    {
        Op & o = add( "Threshold", "I01", fspv, gray );
        o.pointwise = true;
        o.params = []( Case & c, Rng & r ) { c.p.v1 = r.chance( 25 ) ? r.pick( { uint8_t( 0 ), uint8_t( 255 ), uint8_t( 1 ), uint8_t( 128 ), uint8_t( 127 ) } ) : static_cast<uint8_t>( r.next() ); };
        o.call = CALL( NS_G( M_U8, Threshold ) NS_F( M_U8, Threshold ) NS_S( M_U8, Threshold ) NS_P( M_U8, Threshold ) NS_V( M_U8, Threshold ) );
        o.expect = []( const Case & c ) {
            const auto l = tableOf( [&]( uint32_t v ) { return v < c.p.v1 ? 0u : 255u; } );
            return perTable( c, l, l );
        };
    }
    {
        Op & o = add( "Threshold2", "I01", fspv, gray );
        o.pointwise = true;
        o.params = []( Case & c, Rng & r ) {
            c.p.v1 = r.chance( 25 ) ? r.pick( { uint8_t( 0 ), uint8_t( 255 ), uint8_t( 1 ), uint8_t( 128 ), uint8_t( 127 ) } ) : static_cast<uint8_t>( r.next() );
            c.p.v2 = r.chance( 20 ) ? r.pick( { c.p.v1, uint8_t( 255 ) } ) : static_cast<uint8_t>( r.next() );
            if ( c.p.v1 > c.p.v2 )
                std::swap( c.p.v1, c.p.v2 );
        };
        o.call = CALL( NS_G( M_U8U8, Threshold ) NS_F( M_U8U8, Threshold ) NS_S( M_U8U8, Threshold ) NS_P( M_U8U8, Threshold ) NS_V( M_U8U8, Threshold ) );
        o.expect = []( const Case & c ) {
            const auto l = tableOf( [&]( uint32_t v ) { return v < c.p.v1 || v > c.p.v2 ? 0u : 255u; } );
            return perTable( c, l, l );
        };
    }
    // ---- I02
    {
        Op & o = add( "ConvertToGrayScale", "I02", fpv, any );
        o.outCC = cst( 1 );
        o.call = CALL( NS_G( M_UN, ConvertToGrayScale ) NS_F( M_UN, ConvertToGrayScale ) NS_P( M_UN, ConvertToGrayScale ) NS_V( M_UN, ConvertToGrayScale ) );
        o.expect = []( const Case & c ) {
            return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t ) { return c.cc == 1 ? c.val( 0, x, y, 0 ) : ( c.val( 0, x, y, 0 ) + c.val( 0, x, y, 1 ) + c.val( 0, x, y, 2 ) ) / 3; }, c.w, c.h, 1 );
        };
    }
    {
        Op & o = add( "ConvertToRgb", "I02", fspv, any );
        o.outCC = cst( 3 );
        o.call = CALL( NS_G( M_UN, ConvertToRgb ) NS_F( M_UN, ConvertToRgb ) NS_S( M_UN, ConvertToRgb ) NS_P( M_UN, ConvertToRgb ) NS_V( M_UN, ConvertToRgb ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return c.val( 0, x, y, c.cc == 1 ? 0 : k ); }, c.w, c.h, 3 ); };
    }
    {
        Op & o = add( "RgbToBgr", "I02", fspv, rgb );
        o.call = CALL( NS_F( M_UN, RgbToBgr ) NS_S( M_UN, RgbToBgr ) NS_P( M_UN, RgbToBgr ) NS_V( M_UN, RgbToBgr ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return c.val( 0, x, y, 2 - k ); }, c.w, c.h, 3 ); };
    }
    {
        Op & o = add( "RgbToRgba", "I02", f, rgb );
        o.outCC = cst( 4 );
        o.call = CALL( NS_F( M_UN, RgbToRgba ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return k < 3 ? c.val( 0, x, y, k ) : 255u; }, c.w, c.h, 4 ); };
    }
    {
        Op & o = add( "RgbaToRgb", "I02", f, rgba );
        o.outCC = cst( 3 );
        o.call = CALL( NS_F( M_UN, RgbaToRgb ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return c.val( 0, x, y, k ); }, c.w, c.h, 3 ); };
    }
    {
        Op & o = add( "ExtractChannel", "I02", fpv, any );
        o.outCC = cst( 1 );
        o.params = []( Case & c, Rng & r ) { c.p.v1 = static_cast<uint8_t>( r.u( 0, c.cc - 1u ) ); };
        o.call = CALL( NS_G( M_U8, ExtractChannel ) NS_F( M_U8, ExtractChannel ) NS_P( M_U8, ExtractChannel ) NS_V( M_U8, ExtractChannel ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t ) { return c.val( 0, x, y, c.p.v1 ); }, c.w, c.h, 1 ); };
    }
    {
        Op & o = add( "ReplaceChannel", "I02", f, gray );
        o.forms = 10;
        o.outCC = cst( 3 );
        o.params = []( Case & c, Rng & r ) {
            c.p.v1 = static_cast<uint8_t>( r.u( 0, 2 ) );
            // the other two channels must stay: remember them
            c.p.table.clear();
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w * 3; ++x )
                    c.p.table.push_back( c.out[0].data()[static_cast<size_t>( c.op_[0].y + y ) * c.out[0].rowSize() + c.op_[0].x * 3 + x] );
        };
        o.call = CALL( NS_F( M_REPL, ReplaceChannel ) );
        o.expect = []( const Case & c ) {
            return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return k == c.p.v1 ? c.val( 0, x, y, 0 ) : c.p.table[( static_cast<size_t>( y ) * c.w + x ) * 3 + k]; }, c.w, c.h, 3 );
        };
    }
    {
        Op & o = add( "Merge", "I02", fpv, gray );
        o.nin = 3;
        o.outCC = cst( 3 );
        o.call = CALL( NS_F( M_MERGE, Merge ) NS_P( M_MERGE, Merge ) NS_V( M_MERGE, Merge ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return c.val( k, x, y, 0 ); }, c.w, c.h, 3 ); };
    }
    {
        Op & o = add( "Split", "I02", fpv, rgb );
        o.forms = 10;
        o.nout = 3;
        o.outCC = cst( 1 );
        o.call = CALL( NS_F( M_SPLIT, Split ) NS_P( M_SPLIT, Split ) NS_V( M_SPLIT, Split ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r;
            for ( uint32_t k = 0; k < 3; ++k )
                r.push_back( perValue( c, [&]( uint32_t x, uint32_t y, uint32_t ) { return c.val( 0, x, y, k ); }, c.w, c.h, 1 )[0] );
            return r;
        };
    }
    {
        Op & o = add( "ConvertTo16Bit", "I02", fs, any );
        o.kind = IMG16;
        o.call = CALL( NS_F( M_TO16, ConvertTo16Bit ) NS_S( M_TO16, ConvertTo16Bit ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return c.val( 0, x, y, k ) * 256; }, c.w, c.h, c.cc ); };
    }
    {
        Op & o = add( "ConvertTo8Bit", "I02", fs, any );
        o.in16 = true;
        o.call = CALL( NS_F( M_TO8, ConvertTo8Bit ) NS_S( M_TO8, ConvertTo8Bit ) );
        o.expect = []( const Case & c ) {
            const Image16Bit & im = c.in16[0];
            return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return im.data()[static_cast<size_t>( c.ip[0].y + y ) * im.rowSize() + ( c.ip[0].x + x ) * c.cc + k] / 256u; }, c.w, c.h, c.cc );
        };
    }
    {
        Op & o = add( "Copy", "I02", fv, any );
        o.forms = 14;
        o.wholeWritesPadding = true;
        o.call = CALL( NS_G( M_COPY, Copy ) NS_F( M_COPY, Copy ) NS_V( M_COPY, Copy ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return c.val( 0, x, y, k ); }, c.w, c.h, c.cc ); };
    }
    // ---- I03
    {
        Op & o = add( "Flip", "I03", fspv, gray );
        o.params = []( Case & c, Rng & r ) {
            c.p.b1 = r.chance( 65 );
            c.p.b2 = r.chance( 50 );
        };
        o.call = CALL( NS_G( M_BB, Flip ) NS_F( M_BB, Flip ) NS_S( M_BB, Flip ) NS_P( M_BB, Flip ) NS_V( M_BB, Flip ) );
        o.expect = []( const Case & c ) {
            return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t ) { return c.val( 0, c.p.b1 ? c.w - 1 - x : x, c.p.b2 ? c.h - 1 - y : y, 0 ); }, c.w, c.h, 1 );
        };
    }
    {
        Op & o = add( "Transpose", "I03", fpv, gray );
        o.call = CALL( NS_F( M_UN, Transpose ) NS_P( M_UN, Transpose ) NS_V( M_UN, Transpose ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t ) { return c.val( 0, y, x, 0 ); }, c.wo, c.ho, 1 ); };
    }
    {
        Op & o = add( "Resize", "I03", fpv, any );
        o.call = CALL( NS_F( M_RESIZE, Resize ) NS_P( M_RESIZE, Resize ) NS_V( M_RESIZE, Resize ) );
        o.expect = []( const Case & c ) {
            return perValue( c,
                             [&]( uint32_t x, uint32_t y, uint32_t k ) {
                                 return c.val( 0, static_cast<uint32_t>( static_cast<uint64_t>( x ) * c.w / c.wo ), static_cast<uint32_t>( static_cast<uint64_t>( y ) * c.h / c.ho ), k );
                             },
                             c.wo, c.ho, c.cc );
        };
    }
    {
        Op & o = add( "Shift", "I03", f, gray );
        o.usesOutside = true;
        o.params = []( Case & c, Rng & r ) {
            for ( int k = 0; k < 2; ++k ) {
                const double m = ( k == 0 ? c.w : c.h ) - 1.0;
                double s = r.d( -m, m );
                if ( r.chance( 30 ) )
                    s = r.d( -std::min( m, 3.0 ), std::min( m, 3.0 ) );
                switch ( r.u( 0, 5 ) ) {
                case 0: s = 0; break;
                case 1:
                case 2: s = std::floor( s + 0.5 ); break;
                case 3: s = std::floor( s * 4 + 0.5 ) / 4; break;
                default: break;
                }
                if ( r.chance( 6 ) )
                    s = r.chance( 50 ) ? m : -m;
                c.p.d[k] = s > m ? m : s < -m ? -m : s;
            }
        };
        o.call = CALL( NS_F( M_DD, Shift ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r( 1 );
            const Image & im = c.in[0];
            const double W = im.width(), H = im.height();
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    const double sx = c.ip[0].x + static_cast<double>( x ) - c.p.d[0], sy = c.ip[0].y + static_cast<double>( y ) - c.p.d[1];
                    const double x0 = std::floor( sx ), y0 = std::floor( sy ), fx = sx - x0, fy = sy - y0;
                    double v = 0;
                    bool missing = false, tiny = false;
                    for ( int b = 0; b < 2; ++b )
                        for ( int a = 0; a < 2; ++a ) {
                            const double wt = ( a ? fx : 1 - fx ) * ( b ? fy : 1 - fy );
                            const double wx = a ? fx : 1 - fx, wy = b ? fy : 1 - fy;
                            if ( wx == 0 || wy == 0 )
                                continue;
                            const double px = x0 + a, py = y0 + b;
                            if ( px < 0 || py < 0 || px > W - 1 || py > H - 1 ) {
                                if ( std::min( wx, wy ) < 1e-4 )
                                    tiny = true;
                                else
                                    missing = true;
                            }
                            else
                                v += wt * im.data()[static_cast<size_t>( py ) * im.rowSize() + static_cast<size_t>( px )];
                        }
                    if ( missing )
                        r[0].put( 0 );
                    else {
                        const double e = fx == 0 && fy == 0 ? 1e-9 : 0.07;
                        r[0].put( tiny ? 0 : clip8( v + 0.5 - e < 0 ? 0 : v + 0.5 - e ), clip8( v + 0.5 + e ) );
                    }
                }
            return r;
        };
    }
    {
        Op & o = add( "Rotate", "I03", f, gray );
        o.usesOutside = false;
        o.params = []( Case & c, Rng & r ) {
            const bool plain = r.chance( 30 );
            c.p.d[0] = c.ip[0].x + ( plain ? std::floor( c.w / 2.0 ) : r.d( -3, c.w + 3 ) );
            c.p.d[1] = c.ip[0].y + ( plain ? std::floor( c.h / 2.0 ) : r.d( -3, c.h + 3 ) );
            c.p.d[2] = r.chance( 50 ) ? c.p.d[0] - c.ip[0].x : r.d( -3, c.w + 3 );
            c.p.d[3] = r.chance( 50 ) ? c.p.d[1] - c.ip[0].y : r.d( -3, c.h + 3 );
            const double pi = 3.14159265358979323846;
            c.p.d[4] = r.chance( 25 ) ? r.pick( { 0.0, pi, pi / 2, -pi / 2, pi / 4, -pi, 2 * pi } ) : r.d( -7, 7 );
            if ( c.form == 1 || c.form == 3 ) {
                c.p.d[2] = c.p.d[0];
                c.p.d[3] = c.p.d[1];
            }
        };
        o.call = CALL( NS_F( M_ROT, Rotate ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r( 1 );
            const Image & im = c.in[0];
            const double co = std::cos( c.p.d[4] ), si = std::sin( c.p.d[4] ), eps = 1e-6;
            const double minX = c.ip[0].x, minY = c.ip[0].y, maxX = minX + c.w - 1, maxY = minY + c.h - 1;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    const double dx = x - c.p.d[2], dy = y - c.p.d[3];
                    const double px = c.p.d[0] + co * dx + si * dy, py = c.p.d[1] - si * dx + co * dy;
                    if ( px < minX - eps || py < minY - eps || px > maxX + eps || py > maxY + eps ) {
                        r[0].put( 0 );
                        continue;
                    }
                    const double qx = std::min( std::max( px, minX ), maxX ), qy = std::min( std::max( py, minY ), maxY );
                    const uint32_t x0 = static_cast<uint32_t>( qx ), y0 = static_cast<uint32_t>( qy );
                    const uint32_t x1 = std::min( x0 + 1, static_cast<uint32_t>( maxX ) ), y1 = std::min( y0 + 1, static_cast<uint32_t>( maxY ) );
                    const double fx = qx - x0, fy = qy - y0;
                    auto g = [&]( uint32_t a, uint32_t b ) { return static_cast<double>( im.data()[static_cast<size_t>( b ) * im.rowSize() + a] ); };
                    const double v = g( x0, y0 ) * ( 1 - fx ) * ( 1 - fy ) + g( x1, y0 ) * fx * ( 1 - fy ) + g( x0, y1 ) * ( 1 - fx ) * fy + g( x1, y1 ) * fx * fy;
                    const bool edge = px < minX + eps || py < minY + eps || px > maxX - eps || py > maxY - eps;
                    r[0].put( edge ? 0 : clip8( std::max( 0.0, v + 0.5 - 1e-3 ) ), clip8( v + 0.5 + 1e-3 ) );
                }
            return r;
        };
    }
    // ---- I04
    {
        Op & o = add( "Accumulate", "I04", 11, any );
        o.kind = VEC;
        o.forms = 10;
        o.params = []( Case & c, Rng & r ) {
            c.vec.resize( static_cast<size_t>( c.w ) * c.h * c.cc );
            const bool small = r.chance( 50 );
            for ( auto & v : c.vec )
                v = small ? r.u( 0, 100000 ) : static_cast<uint32_t>( r.next() );
            c.p.X = c.vec;
        };
        o.call = CALL( NS_F( M_ACC, Accumulate ) NS_S( M_ACC, Accumulate ) NS_V( M_ACC, Accumulate ) );
        o.expect = []( const Case & c ) {
            size_t i = 0;
            return perValue( c, [&]( uint32_t x, uint32_t y, uint32_t k ) { return c.p.X[i++] + c.val( 0, x, y, k ); }, c.w, c.h, c.cc );
        };
    }
    {
        Op & o = add( "Histogram", "I04", fpv, any );
        o.kind = VEC;
        o.call = CALL( NS_G( M_HIST, Histogram ) NS_F( M_HIST, Histogram ) NS_P( M_HIST, Histogram ) NS_V( M_HIST, Histogram ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r( 1 );
            r[0].lo.assign( 256u * c.cc, 0 );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < c.cc; ++k )
                        ++r[0].lo[c.val( 0, x, y, k ) * c.cc + k];
            r[0].hi = r[0].lo;
            return r;
        };
    }
    {
        Op & o = add( "HistogramMask", "I04", f, any );
        o.kind = VEC;
        o.nin = 2;
        o.inCC = []( int k, int cc ) { return k == 0 ? cc : 1; };
        o.params = []( Case & c, Rng & r ) {
            if ( r.chance( 50 ) ) {
                Image & m = c.in[1];
                for ( uint32_t y = 0; y < c.h; ++y )
                    for ( uint32_t x = 0; x < c.w; ++x )
                        m.data()[static_cast<size_t>( c.ip[1].y + y ) * m.rowSize() + c.ip[1].x + x] = r.chance( 50 ) ? 0 : static_cast<uint8_t>( r.u( 1, 255 ) );
            }
        };
        o.call = CALL( NS_F( M_MHIST, Histogram ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r( 1 );
            r[0].lo.assign( 256u * c.cc, 0 );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < c.cc; ++k )
                        if ( c.val( 1, x, y, 0 ) > 0 )
                            ++r[0].lo[c.val( 0, x, y, k ) * c.cc + k];
            r[0].hi = r[0].lo;
            return r;
        };
    }
    {
        Op & o = add( "ProjectionProfile", "I04", fspv, any );
        o.kind = VEC;
        o.params = []( Case & c, Rng & r ) { c.p.b1 = r.chance( 50 ); };
        o.call = CALL( NS_G( M_PROJ, ProjectionProfile ) NS_F( M_PROJ, ProjectionProfile ) NS_S( M_PROJ, ProjectionProfile ) NS_P( M_PROJ, ProjectionProfile ) NS_V( M_PROJ, ProjectionProfile ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r( 1 );
            r[0].lo.assign( c.p.b1 ? static_cast<size_t>( c.w ) * c.cc : c.h, 0 );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < c.cc; ++k )
                        r[0].lo[c.p.b1 ? x * c.cc + k : y] += c.val( 0, x, y, k );
            r[0].hi = r[0].lo;
            return r;
        };
    }
    {
        Op & o = add( "Sum", "I04", fspv, gray );
        o.kind = SCALAR;
        o.forms = 5;
        o.call = CALL( NS_F( M_SC, Sum ) NS_S( M_SC, Sum ) NS_P( M_SC, Sum ) NS_V( M_SC, Sum ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r( 1 );
            uint32_t s = 0;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    s += c.val( 0, x, y, 0 );
            r[0].put( s );
            return r;
        };
    }
    {
        Op & o = add( "IsEqual", "I04", fpv, any );
        o.kind = SCALAR;
        o.nin = 2;
        o.forms = 5;
        o.params = []( Case & c, Rng & r ) {
            if ( r.chance( 85 ) ) {
                auto at = [&]( int k, uint32_t y, uint32_t x ) -> uint8_t & {
                    return c.in[k].data()[static_cast<size_t>( c.ip[k].y + y ) * c.in[k].rowSize() + c.ip[k].x * c.cc + x];
                };
                for ( uint32_t y = 0; y < c.h; ++y )
                    for ( uint32_t x = 0; x < c.w * c.cc; ++x )
                        at( 1, y, x ) = at( 0, y, x );
                if ( r.chance( 55 ) ) { // a single difference, at a corner or anywhere
                    const uint32_t x = r.pick( { 0u, c.w * c.cc - 1, r.u( 0, c.w * c.cc - 1 ), r.u( 0, c.w * c.cc - 1 ) } );
                    const uint32_t y = r.pick( { 0u, c.h - 1, r.u( 0, c.h - 1 ), r.u( 0, c.h - 1 ) } );
                    at( 1, y, x ) = static_cast<uint8_t>( at( 1, y, x ) + ( r.chance( 50 ) ? 1 : r.u( 1, 255 ) ) );
                }
            }
        };
        o.call = CALL( NS_G( M_EQ, IsEqual ) NS_F( M_EQ, IsEqual ) NS_P( M_EQ, IsEqual ) NS_V( M_EQ, IsEqual ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r( 1 );
            uint32_t eq = 1;
            for ( uint32_t y = 0; y < c.h && eq; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < c.cc; ++k )
                        if ( c.val( 0, x, y, k ) != c.val( 1, x, y, k ) )
                            eq = 0;
            r[0].put( eq );
            return r;
        };
    }
    {
        Op & o = add( "IsBinary", "I04", f, gray );
        o.kind = SCALAR;
        o.forms = 5;
        o.params = []( Case & c, Rng & r ) {
            if ( r.chance( 80 ) ) {
                const uint8_t a = static_cast<uint8_t>( r.next() ), b = static_cast<uint8_t>( r.next() );
                for ( uint32_t y = 0; y < c.h; ++y )
                    for ( uint32_t x = 0; x < c.w; ++x )
                        c.in[0].data()[static_cast<size_t>( c.ip[0].y + y ) * c.in[0].rowSize() + c.ip[0].x + x] = r.chance( 50 ) ? a : b;
                if ( r.chance( 40 ) )
                    c.in[0].data()[static_cast<size_t>( c.ip[0].y + r.u( 0, c.h - 1 ) ) * c.in[0].rowSize() + c.ip[0].x + r.u( 0, c.w - 1 )] = static_cast<uint8_t>( r.next() );
            }
        };
        o.call = CALL( NS_F( M_SC, IsBinary ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r( 1 );
            std::set<uint32_t> v;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    v.insert( c.val( 0, x, y, 0 ) );
            r[0].put( v.size() < 3 ? 1 : 0 );
            return r;
        };
    }
    {
        Op & o = add( "GetPixel", "I04", fv, gray );
        o.kind = SCALAR;
        o.forms = 4;
        o.call = CALL( NS_F( M_GETP, GetPixel ) NS_V( M_GETP, GetPixel ) );
        o.expect = []( const Case & c ) {
            std::vector<Range> r( 1 );
            r[0].put( c.val( 0, 0, 0, 0 ) );
            return r;
        };
    }
    auto pixels = []( const Case & c ) {
        std::vector<Range> r( 1 );
        collectImage( c.in[0], Pos(), c.in[0].width(), c.in[0].height(), r[0].lo );
        if ( c.op->name == "SetPixel" )
            r[0].lo[static_cast<size_t>( c.ip[0].y ) * c.in[0].width() + c.ip[0].x] = c.p.v1;
        else
            for ( size_t i = 0; i < c.p.X.size(); ++i )
                r[0].lo[static_cast<size_t>( c.p.Y[i] ) * c.in[0].width() + c.p.X[i]] = c.p.v1;
        r[0].hi = r[0].lo;
        return r;
    };
    {
        Op & o = add( "SetPixel", "I04", fv, gray );
        o.kind = INOUT;
        o.forms = 8;
        o.nout = 0;
        o.wholeOnlyInput = true;
        o.params = []( Case & c, Rng & r ) { c.p.v1 = static_cast<uint8_t>( r.next() ); };
        o.call = CALL( NS_G( M_SETP, SetPixel ) NS_F( M_SETP, SetPixel ) NS_V( M_SETP, SetPixel ) );
        o.expect = pixels;
    }
    {
        Op & o = add( "SetPixels", "I04", fv, gray );
        o.kind = INOUT;
        o.forms = 8;
        o.nout = 0;
        o.wholeOnlyInput = true;
        o.params = []( Case & c, Rng & r ) {
            c.p.v1 = static_cast<uint8_t>( r.next() );
            const uint32_t n = r.u( 1, 40 );
            for ( uint32_t i = 0; i < n; ++i ) {
                c.p.X.push_back( r.u( 0, c.in[0].width() - 1 ) );
                c.p.Y.push_back( r.u( 0, c.in[0].height() - 1 ) );
            }
        };
        o.call = CALL( NS_G( M_SETPL, SetPixel ) NS_F( M_SETPL, SetPixel ) NS_V( M_SETPL, SetPixel ) );
        o.expect = pixels;
    }
    {
        Op & o = add( "Fill", "I04", fv, any );
        o.kind = INOUT;
        o.forms = 10;
        o.nout = 0;
        o.wholeWritesPadding = true;
        o.params = []( Case & c, Rng & r ) { c.p.v1 = static_cast<uint8_t>( r.next() ); };
        o.call = CALL( NS_G( M_FILL, Fill ) NS_F( M_FILL, Fill ) NS_V( M_FILL, Fill ) );
        o.expect = []( const Case & c ) { return perValue( c, [&]( uint32_t, uint32_t, uint32_t ) { return static_cast<uint32_t>( c.p.v1 ); }, c.w, c.h, c.cc ); };
    }
    {
        Op & o = add( "GetThreshold", "I04", fv, gray );
        o.kind = SCALAR;
        o.forms = 8;
        o.nin = 0;
        o.nout = 0;
        o.params = []( Case & c, Rng & r ) {
            c.vec.assign( 256, 0 );
            const uint32_t kind = r.u( 0, 5 );
            const uint32_t scale = r.pick( { 3u, 100u, 5000u, 1000000u, 16000000u, 0xFFFFFFFFu } );
            for ( uint32_t i = 0; i < 256; ++i ) {
                if ( kind == 0 )
                    c.vec[i] = r.chance( 4 ) ? r.u( 0, scale ) : 0;
                else if ( kind == 1 )
                    c.vec[i] = r.u( 0, scale );
                else if ( kind == 2 )
                    c.vec[i] = static_cast<uint32_t>( std::min( scale, 1000000u ) * ( std::exp( -std::pow( ( i - 60.0 ) / 20, 2 ) ) + 0.4 * std::exp( -std::pow( ( i - 190.0 ) / 15, 2 ) ) ) ) + r.u( 0, 3 );
                else if ( kind == 3 )
                    c.vec[i] = ( i == 0 || i == 255 ) ? r.u( 0, scale ) : 0;
                else if ( kind == 4 )
                    c.vec[i] = r.chance( 50 ) ? r.u( 0, 2 ) : 0;
                else
                    c.vec[i] = i > 200 ? r.u( 0, scale ) : 0;
            }
            if ( r.chance( 2 ) )
                c.vec.assign( 256, 0 );
        };
        o.call = CALL( NS_G( M_GETT, GetThreshold ) NS_F( M_GETT, GetThreshold ) NS_V( M_GETT, GetThreshold ) );
        o.expect = []( const Case & c ) {
            // smallest and largest optimal value; between them compare() cannot decide, so every other value is cut out below
            std::vector<Range> r( 1 );
            r[0].put( 0, 255 );
            (void)c;
            return r;
        };
    }
    // ---- I05
    {
        Op & o = add( "Median", "I05", f, gray );
        o.minSize = 4;
        o.params = []( Case & c, Rng & r ) {
            const uint32_t m = ( std::min( c.w, c.h ) - 2 ) / 2; // 2k+1 < min
            c.p.u1 = 2 * r.u( 1, std::max( 1u, std::min( m, c.w * c.h > 4000 ? 2u : 7u ) ) ) + 1;
        };
        o.call = CALL( NS_F( M_U32, Median ) );
        o.expect = []( const Case & c ) {
            const uint32_t k = c.p.u1, half = k / 2;
            std::vector<uint8_t> win( k * k );
            return perValue( c,
                             [&]( uint32_t x, uint32_t y, uint32_t ) -> uint32_t {
                                 if ( x < half || y < half || x + half >= c.w || y + half >= c.h )
                                     return c.val( 0, x, y, 0 );
                                 size_t n = 0;
                                 for ( uint32_t b = 0; b < k; ++b )
                                     for ( uint32_t a = 0; a < k; ++a )
                                         win[n++] = static_cast<uint8_t>( c.val( 0, x + a - half, y + b - half, 0 ) );
                                 uint32_t cnt[256] = {};
                                 for ( auto v : win )
                                     ++cnt[v];
                                 uint32_t acc = 0;
                                 for ( uint32_t v = 0; v < 256; ++v ) {
                                     acc += cnt[v];
                                     if ( acc > k * k / 2 )
                                         return v;
                                 }
                                 return 0;
                             },
                             c.w, c.h, 1 );
        };
    }
    auto gradient = [&]( const char * name, int mid, std::function<void( Case &, Result & )> call ) {
        Op & o = add( name, "I05", f, gray );
        o.minSize = 3;
        o.usesOutside = true;
        o.call = call;
        o.expect = [mid]( const Case & c ) {
            std::vector<Range> r( 1 );
            const Image & im = c.in[0];
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    const uint32_t gx = c.ip[0].x + x, gy = c.ip[0].y + y;
                    if ( gx == 0 || gy == 0 || gx + 1 >= im.width() || gy + 1 >= im.height() ) {
                        r[0].put( 0 );
                        continue;
                    }
                    auto g = [&]( int dx, int dy ) {
                        return static_cast<int>( im.data()[static_cast<size_t>( static_cast<int64_t>( gy ) + dy ) * im.rowSize() + static_cast<size_t>( static_cast<int64_t>( gx ) + dx )] );
                    };
                    const double hx = g( -1, -1 ) + mid * g( -1, 0 ) + g( -1, 1 ) - g( 1, -1 ) - mid * g( 1, 0 ) - g( 1, 1 );
                    const double hy = g( -1, -1 ) + mid * g( 0, -1 ) + g( 1, -1 ) - g( -1, 1 ) - mid * g( 0, 1 ) - g( 1, 1 );
                    const double v = std::sqrt( hx * hx + hy * hy ) / ( ( mid + 2 ) * std::sqrt( 2.0 ) );
                    // the last column or row of the region may stay without value when only one column or row follows it
                    const bool edge = ( x + 1 == c.w && gx + 2 == im.width() ) || ( y + 1 == c.h && gy + 2 == im.height() );
                    r[0].put( edge ? 0 : clip8( std::max( 0.0, v + 0.5 - 2e-4 ) ), clip8( v + 0.5 + 2e-4 ) );
                }
            return r;
        };
    };
    gradient( "Sobel", 2, CALL( NS_F( M_UN, Sobel ) ) );
    gradient( "Prewitt", 1, CALL( NS_F( M_UN, Prewitt ) ) );
    auto morph = [&]( const char * name, bool white, std::function<void( Case &, Result & )> call ) {
        Op & o = add( name, "I05", f, gray );
        o.kind = INOUT;
        o.forms = 10;
        o.nout = 0;
        o.params = [white]( Case & c, Rng & r ) {
            const uint32_t density = r.pick( { 1u, 3u, 10u, 50u, 90u, 97u, 99u } );
            const bool blocks = r.chance( 40 );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    uint8_t & v = c.in[0].data()[static_cast<size_t>( c.ip[0].y + y ) * c.in[0].rowSize() + c.ip[0].x + x];
                    if ( blocks )
                        v = ( ( x / 5 * 7 + y / 3 * 11 ) % 13 ) * 100 / 13 < density ? 255 : 0;
                    else
                        v = r.chance( density ) ? 255 : 0;
                }
            (void)white;
            c.p.u1 = r.chance( 15 ) ? r.u( 0, 2 * c.w + 3 ) : r.chance( 3 ) ? 0xFFFFFFFFu : r.u( 0, 6 );
            c.p.u2 = r.chance( 15 ) ? r.u( 0, 2 * c.h + 3 ) : r.chance( 3 ) ? 0x80000000u : r.u( 0, 6 );
        };
        o.call = call;
        o.expect = [white]( const Case & c ) {
            // seeds: the growing value. Distances above half the region may be cut to half the region.
            auto grow = [&]( uint64_t dx, uint64_t dy ) {
                std::vector<uint8_t> a( static_cast<size_t>( c.w ) * c.h ), b( a.size() );
                for ( uint32_t y = 0; y < c.h; ++y )
                    for ( uint32_t x = 0; x < c.w; ++x )
                        a[static_cast<size_t>( y ) * c.w + x] = ( c.val( 0, x, y, 0 ) != 0 ) == white;
                for ( uint32_t y = 0; y < c.h; ++y ) {
                    int64_t last = -1;
                    uint8_t * row = &a[static_cast<size_t>( y ) * c.w];
                    uint8_t * o2 = &b[static_cast<size_t>( y ) * c.w];
                    for ( uint32_t x = 0; x < c.w; ++x ) {
                        if ( row[x] )
                            last = x;
                        o2[x] = last >= 0 && static_cast<uint64_t>( x - last ) <= dx;
                    }
                    last = -1;
                    for ( uint32_t x = c.w; x-- > 0; ) {
                        if ( row[x] )
                            last = x;
                        if ( last >= 0 && static_cast<uint64_t>( last - x ) <= dx )
                            o2[x] = 1;
                    }
                }
                a = b;
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    int64_t last = -1;
                    for ( uint32_t y = 0; y < c.h; ++y ) {
                        if ( a[static_cast<size_t>( y ) * c.w + x] )
                            last = y;
                        b[static_cast<size_t>( y ) * c.w + x] = last >= 0 && static_cast<uint64_t>( y - last ) <= dy;
                    }
                    last = -1;
                    for ( uint32_t y = c.h; y-- > 0; ) {
                        if ( a[static_cast<size_t>( y ) * c.w + x] )
                            last = y;
                        if ( last >= 0 && static_cast<uint64_t>( last - y ) <= dy )
                            b[static_cast<size_t>( y ) * c.w + x] = 1;
                    }
                }
                return b;
            };
            const auto full = grow( c.p.u1, c.p.u2 );
            const auto cut = grow( std::min( c.p.u1, c.w / 2 ), std::min( c.p.u2, c.h / 2 ) );
            std::vector<Range> r( 1 );
            for ( size_t i = 0; i < full.size(); ++i )
                r[0].put( white ? ( cut[i] ? 255 : 0 ) : ( full[i] ? 0 : 255 ), white ? ( full[i] ? 255 : 0 ) : ( cut[i] ? 0 : 255 ) );
            return r;
        };
    };
    morph( "BinaryDilate", true, CALL( NS_F( M_DIL, BinaryDilate ) ) );
    morph( "BinaryErode", false, CALL( NS_F( M_DIL, BinaryErode ) ) );
    return t;
}

inline std::vector<Op> & table()
{
    static std::vector<Op> t = buildTable();
    return t;
}
