// Monitor of the dispatching API: image types of our own (their data is encoded, so that an implementation or a copy which takes
// it for something else is visible), a registry set up anew for every case, and the plain implementation as the reference.
#include "invalid.h"

using namespace ops;
using Image_Function_Helper::FunctionTableHolder;

namespace
{
    // types with conversions among all of them, then: only towards the CPU type, none at all
    const int TYPES[] = { 0, 10, 77, 255 };
    const uint8_t ONE_WAY = 20, ISOLATED = 21;

    uint8_t key( uint8_t type )
    {
        return type == 0 ? 0 : static_cast<uint8_t>( type * 59 + 0xA5 );
    }

    struct Log
    {
        uint64_t calls = 0, conversions = 0;
        std::vector<uint8_t> implementations; // types whose implementations ran
        std::vector<std::string> functions;
        std::string error; // what an implementation was given by mistake
        long live = 0; // buffers of our types
        void reset()
        {
            calls = conversions = 0;
            implementations.clear();
            functions.clear();
            error.clear();
        }
    } lg;

    // an image whose memory belongs to the type
    template <uint8_t T>
    struct TypedImage : public Image
    {
        TypedImage()
        {
            _setType( T, allocate, release, copyMemory, setMemory );
        }
        static uint8_t * allocate( size_t size )
        {
            uint8_t * p = static_cast<uint8_t *>( malloc( size + 16 ) );
            if ( p == nullptr )
                throw std::bad_alloc();
            memset( p, 0xCD, size + 16 );
            memcpy( p, "typedimg", 8 );
            p[8] = T;
            ++lg.live;
            return p + 16;
        }
        static void release( uint8_t * p )
        {
            if ( p == nullptr )
                return;
            if ( memcmp( p - 16, "typedimg", 8 ) != 0 || p[-8] != T )
                lg.error = vf::fmt( "memory of another type was released as memory of type %d", T );
            memcpy( p - 16, "freedimg", 8 );
            --lg.live;
            ::free( p - 16 );
        }
        static void copyMemory( uint8_t * out, uint8_t * in, size_t size )
        {
            memcpy( out, in, size );
        }
        static void setMemory( uint8_t * data, uint8_t value, size_t size )
        {
            memset( data, value ^ key( T ), size );
        }
    };

    Image emptyImage( uint8_t type )
    {
        switch ( type ) {
        case 10: return TypedImage<10>().generate();
        case 77: return TypedImage<77>().generate();
        case 255: return TypedImage<255>().generate();
        case ONE_WAY: return TypedImage<ONE_WAY>().generate();
        case ISOLATED: return TypedImage<ISOLATED>().generate();
        default: return Image();
        }
    }

    // the same picture as an image of another type, padding included
    Image recode( const Image & in, uint8_t type )
    {
        Image out = emptyImage( type ).generate( in.width(), in.height(), in.colorCount(), in.alignment() );
        const size_t n = static_cast<size_t>( in.rowSize() ) * in.height();
        const uint8_t k = static_cast<uint8_t>( key( in.type() ) ^ key( type ) );
        for ( size_t i = 0; i < n && !in.empty(); ++i )
            out.data()[i] = in.data()[i] ^ k;
        return out;
    }

    // registered conversion: pixels only, whatever the alignments
    void convert( const Image & in, Image & out )
    {
        ++lg.conversions;
        if ( in.empty() || out.empty() )
            return;
        if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
            throw penguinVException( "conversion between images of different shape" );
        const uint8_t k = static_cast<uint8_t>( key( in.type() ) ^ key( out.type() ) );
        const size_t row = static_cast<size_t>( in.width() ) * in.colorCount();
        for ( uint32_t y = 0; y < in.height(); ++y )
            for ( size_t x = 0; x < row; ++x )
                out.data()[static_cast<size_t>( y ) * out.rowSize() + x] = in.data()[static_cast<size_t>( y ) * in.rowSize() + x] ^ k;
    }

    // ---- implementations of a type: the plain function on decoded images
    FunctionTableHolder cpu;

    template <int T>
    void typeCheck( const Image & im )
    {
        if ( im.type() != T )
            lg.error = vf::fmt( "the implementation of type %d was given an image of type %d", T, im.type() );
    }
    template <int T, typename A>
    struct Arg
    {
        explicit Arg( A v_ )
            : v( v_ )
        {}
        A v;
        A get()
        {
            return v;
        }
        void back() {}
    };
    template <int T>
    struct Arg<T, const Image &>
    {
        explicit Arg( const Image & im )
            : v( recode( im, 0 ) )
        {
            typeCheck<T>( im );
        }
        Image v;
        const Image & get()
        {
            return v;
        }
        void back() {}
    };
    template <int T>
    struct Arg<T, Image &>
    {
        explicit Arg( Image & im )
            : o( im )
            , v( recode( im, 0 ) )
        {
            typeCheck<T>( im );
        }
        Image & o;
        Image v;
        Image & get()
        {
            return v;
        }
        // regions of one image may be outputs of one call: only what has changed
        void back()
        {
            const size_t n = static_cast<size_t>( v.rowSize() ) * v.height();
            for ( size_t i = 0; i < n && !v.empty(); ++i )
                if ( v.data()[i] != first.data()[i] )
                    o.data()[i] = v.data()[i] ^ key( T );
        }
        Image first = v;
    };

    template <int T, typename F, F FunctionTableHolder::*M>
    struct Impl;
    template <int T, typename R, typename... A, R ( *FunctionTableHolder::*M )( A... )>
    struct Impl<T, R ( * )( A... ), M>
    {
        template <size_t... I>
        static R go( std::tuple<Arg<T, A>...> & t, std::index_sequence<I...> )
        {
            return ( cpu.*M )( std::get<I>( t ).get()... );
        }
        template <size_t... I>
        static void back( std::tuple<Arg<T, A>...> & t, std::index_sequence<I...> )
        {
            const int d[] = { ( std::get<I>( t ).back(), 0 )... };
            (void)d;
        }
        template <typename Q = R>
        static typename std::enable_if<std::is_void<Q>::value>::type finish( std::tuple<Arg<T, A>...> & t )
        {
            go( t, std::index_sequence_for<A...>() );
            back( t, std::index_sequence_for<A...>() );
        }
        template <typename Q = R>
        static typename std::enable_if<!std::is_void<Q>::value, Q>::type finish( std::tuple<Arg<T, A>...> & t )
        {
            return go( t, std::index_sequence_for<A...>() );
        }
        static R call( A... a )
        {
            ++lg.calls;
            lg.implementations.push_back( T );
            std::tuple<Arg<T, A>...> t( Arg<T, A>( static_cast<A>( a ) )... );
            return finish( t );
        }
    };

// name of the operation in the tables of this library and in ours
#define FUNCTIONS( X )                                                                                                                                                   \
    X( AbsoluteDifference, "AbsoluteDifference" )                                                                                                                        \
    X( Accumulate, "Accumulate" )                                                                                                                                        \
    X( BitwiseAnd, "BitwiseAnd" )                                                                                                                                        \
    X( BitwiseOr, "BitwiseOr" )                                                                                                                                          \
    X( BitwiseXor, "BitwiseXor" )                                                                                                                                        \
    X( ConvertToGrayScale, "ConvertToGrayScale" )                                                                                                                        \
    X( ConvertToRgb, "ConvertToRgb" )                                                                                                                                    \
    X( Copy, "Copy" )                                                                                                                                                    \
    X( ExtractChannel, "ExtractChannel" )                                                                                                                                \
    X( Fill, "Fill" )                                                                                                                                                    \
    X( Flip, "Flip" )                                                                                                                                                    \
    X( GammaCorrection, "GammaCorrection" )                                                                                                                              \
    X( GetPixel, "GetPixel" )                                                                                                                                            \
    X( Histogram, "Histogram" )                                                                                                                                          \
    X( Invert, "Invert" )                                                                                                                                                \
    X( IsEqual, "IsEqual" )                                                                                                                                              \
    X( LookupTable, "LookupTable" )                                                                                                                                      \
    X( Maximum, "Maximum" )                                                                                                                                              \
    X( Merge, "Merge" )                                                                                                                                                  \
    X( Minimum, "Minimum" )                                                                                                                                              \
    X( Normalize, "Normalize" )                                                                                                                                          \
    X( ProjectionProfile, "ProjectionProfile" )                                                                                                                          \
    X( Resize, "Resize" )                                                                                                                                                \
    X( RgbToBgr, "RgbToBgr" )                                                                                                                                            \
    X( SetPixel, "SetPixel" )                                                                                                                                            \
    X( SetPixel2, "SetPixels" )                                                                                                                                          \
    X( Split, "Split" )                                                                                                                                                  \
    X( Subtract, "Subtract" )                                                                                                                                            \
    X( Sum, "Sum" )                                                                                                                                                      \
    X( Threshold, "Threshold" )                                                                                                                                          \
    X( Threshold2, "Threshold2" )                                                                                                                                        \
    X( Transpose, "Transpose" )

    template <int T>
    FunctionTableHolder fullTable()
    {
        FunctionTableHolder t;
#define X( m, n ) t.m = Impl<T, decltype( FunctionTableHolder::m ), &FunctionTableHolder::m>::call;
        FUNCTIONS( X )
#undef X
        return t;
    }
    FunctionTableHolder tableOfType( uint8_t type )
    {
        switch ( type ) {
        case 10: return fullTable<10>();
        case 77: return fullTable<77>();
        case 255: return fullTable<255>();
        case ONE_WAY: return fullTable<ONE_WAY>();
        case ISOLATED: return fullTable<ISOLATED>();
        default: return fullTable<0>();
        }
    }
    bool has( const FunctionTableHolder & t, const std::string & op )
    {
#define X( m, n )                                                                                                                                                        \
    if ( op == n )                                                                                                                                                       \
        return t.m != nullptr;
        FUNCTIONS( X )
#undef X
        return false;
    }
    bool known( const std::string & op )
    {
        return has( tableOfType( 0 ), op );
    }
    void drop( FunctionTableHolder & t, const std::string & op )
    {
#define X( m, n )                                                                                                                                                        \
    if ( op == n )                                                                                                                                                       \
        t.m = nullptr;
        FUNCTIONS( X )
#undef X
    }
    std::vector<std::string> names()
    {
        std::vector<std::string> r;
#define X( m, n ) r.push_back( n );
        FUNCTIONS( X )
#undef X
        return r;
    }

    // the registry of the library holds what we give it
    void put( uint8_t type, const FunctionTableHolder & t )
    {
        const_cast<FunctionTableHolder &>( ImageTypeManager::instance().functionTable( type ) ) = t;
    }

    uint8_t pickType( Rng & r )
    {
        const uint32_t k = r.u( 0, 99 );
        return k < 90 ? static_cast<uint8_t>( TYPES[r.u( 0, 3 )] ) : k < 95 ? ONE_WAY : ISOLATED;
    }
    bool convertible( uint8_t from, uint8_t to )
    {
        if ( from == to )
            return true;
        if ( from == ISOLATED || to == ISOLATED || to == ONE_WAY )
            return false;
        return from != ONE_WAY || to == 0;
    }

    struct Decoded
    {
        Case c;
        Result r;
        std::string error;
    };

    Decoded decode( const Case & c, const Result & r )
    {
        Decoded d;
        d.c.op = c.op;
        d.c.ns = c.ns;
        d.c.form = c.form;
        d.c.whole = c.whole;
        d.c.alias = c.alias;
        d.c.cc = c.cc;
        for ( auto & i : c.in )
            d.c.in.push_back( recode( i, 0 ) );
        for ( auto & i : c.out )
            d.c.out.push_back( recode( i, 0 ) );
        for ( int k = 0; k < 4; ++k ) {
            d.c.ip[k] = c.ip[k];
            d.c.op_[k] = c.op_[k];
        }
        d.c.w = c.w;
        d.c.h = c.h;
        d.c.wo = c.wo;
        d.c.ho = c.ho;
        d.c.p = c.p;
        d.c.vec = c.vec;
        d.r.status = r.status;
        d.r.what = r.what;
        d.r.hasVec = r.hasVec;
        d.r.hasScalar = r.hasScalar;
        d.r.hasImg = r.hasImg;
        d.r.vec = r.vec;
        d.r.scalar = r.scalar;
        if ( r.hasImg )
            d.r.img = recode( r.img, 0 );
        return d;
    }

    void registryCase( vf::Ctx & ctx, uint64_t idx, Rng & r )
    {
        // tables registered one after another, as the parts of the library do it
        ImageTypeManager & m = ImageTypeManager::instance();
        const uint8_t type = 77;
        put( type, FunctionTableHolder() );
        const std::vector<std::string> all = names();
        std::map<std::string, int> model; // whose function
        const uint32_t steps = r.u( 1, 6 );
        std::string history;
        for ( uint32_t s = 0; s < steps; ++s ) {
            const int from = TYPES[r.u( 0, 3 )];
            FunctionTableHolder t = tableOfType( static_cast<uint8_t>( from ) );
            const uint32_t keep = r.u( 0, 100 );
            std::set<std::string> dropped;
            for ( const std::string & n : all )
                if ( !r.chance( keep ) ) {
                    drop( t, n );
                    dropped.insert( n );
                }
            const bool force = r.chance( 40 );
            m.setFunctionTable( type, t, force );
            history += vf::fmt( " %d%s(%zu)", from, force ? "!" : "", all.size() - dropped.size() );
            for ( const std::string & n : all )
                if ( !dropped.count( n ) && ( force || !model.count( n ) ) )
                    model[n] = from;
        }
        ctx.begin( idx, "registry" + history );
        const FunctionTableHolder & now = m.functionTable( type );
        ++ctx.evaluations;
#define X( mm, n )                                                                                                                                                       \
    {                                                                                                                                                                    \
        const auto want = model.count( n ) ? tableOfType( static_cast<uint8_t>( model[n] ) ).mm : nullptr;                                                               \
        if ( now.mm != want )                                                                                                                                            \
            ctx.fail( "registry/" n, "after registering" + history + ": function " n + ( now.mm == nullptr ? " is missing" : " is not the expected one" ) );              \
    }
        FUNCTIONS( X )
#undef X
        ctx.distinct.insert( vf::hashStr( history ) );
        // what is not registered is refused
        auto refused = [&]( const char * what, std::function<void()> f ) {
            ++ctx.evaluations;
            try {
                f();
                ctx.fail( std::string( "registry/accepted/" ) + what, std::string( what ) + " was accepted" );
            }
            catch ( const penguinVException & ) {
            }
            catch ( const std::exception & e ) {
                ctx.fail( std::string( "registry/exception/" ) + what, e.what() );
            }
        };
        refused( "functions of an unknown type", [&] { m.functionTable( 200 ); } );
        refused( "image of an unknown type", [&] { m.image( 200 ); } );
        refused( "conversion within a type", [&] { m.setConvertFunction( convert, emptyImage( 10 ), emptyImage( 10 ) ); } );
        refused( "conversion not registered", [&] {
            Image o = emptyImage( ISOLATED );
            m.convert( emptyImage( 10 ), o );
        } );
        ++ctx.evaluations;
        const std::vector<uint8_t> types = m.imageTypes();
        for ( uint8_t t : { uint8_t( 0 ), uint8_t( 10 ), uint8_t( 77 ), uint8_t( 255 ), ONE_WAY, ISOLATED } )
            if ( std::count( types.begin(), types.end(), t ) != 1 )
                ctx.fail( "registry/types", vf::fmt( "type %d is not reported once", t ) );
        if ( types.size() != 6 )
            ctx.fail( "registry/types", vf::fmt( "%zu types are reported", types.size() ) );
        for ( int t : TYPES )
            if ( m.image( static_cast<uint8_t>( t ) ).type() != t )
                ctx.fail( "registry/image", vf::fmt( "the image of type %d has another type", t ) );
    }

    void callCase( vf::Ctx & ctx, uint64_t idx, Rng & r, const std::vector<const Op *> & list )
    {
        const Op & op = *list[r.u( 0, static_cast<uint32_t>( list.size() ) - 1 )];
        Case c;
        c.ns = V;
        do
            c.form = static_cast<int>( r.u( 1, 4 ) );
        while ( ( op.forms & ( 1 << ( c.form - 1 ) ) ) == 0 );
        Limits lim;
        lim.big = false;
        generate( c, op, r, lim );
        if ( static_cast<uint64_t>( c.w ) * c.h > 6000 || static_cast<uint64_t>( c.wo ) * c.ho > 6000 )
            return;
        c.simd = static_cast<int>( r.u( 0, 7 ) );
        if ( c.form == 4 && op.pointwise && op.nout == 1 && r.chance( 15 ) )
            c.alias = true;
        // all outputs in one image, one above the other
        const bool shared = op.name == "Split" && c.form == 4 && r.chance( 30 );
        std::string defect;
        if ( !shared && !c.alias && r.chance( 12 ) )
            defect = invalidate( c, r );
        // types of the images
        const uint8_t main = pickType( r );
        const bool mixed = r.chance( 35 );
        std::vector<uint8_t> tin, tout;
        for ( size_t k = 0; k < c.in.size(); ++k )
            tin.push_back( k == 0 || !mixed ? main : pickType( r ) );
        for ( size_t k = 0; k < c.out.size(); ++k )
            tout.push_back( mixed ? pickType( r ) : main );
        if ( c.in.empty() )
            return;
        // the registry of this case
        const bool enabled = r.chance( 75 );
        ImageTypeManager & m = ImageTypeManager::instance();
        m.enableIntertypeConversion( enabled );
        const uint32_t own = r.u( 0, 3 ); // the type of the images has the operation: always, mostly, never, no type has it
        std::set<uint8_t> having;
        for ( uint8_t t : { uint8_t( 0 ), uint8_t( 10 ), uint8_t( 77 ), uint8_t( 255 ), ONE_WAY, ISOLATED } ) {
            FunctionTableHolder table = tableOfType( t );
            bool keep = r.chance( 60 );
            if ( t == main )
                keep = own == 0 || ( own == 1 && r.chance( 70 ) );
            else if ( own == 3 && r.chance( 60 ) )
                keep = false;
            if ( ( t == ONE_WAY || t == ISOLATED ) && t != main )
                keep = keep && r.chance( 15 );
            if ( !keep )
                drop( table, op.name );
            else
                having.insert( t );
            put( t, table );
        }
        // outputs in one image
        if ( shared ) {
            const uint32_t H = c.h * 3 + r.u( 0, 3 ), W = c.w + r.u( 0, 3 );
            Image one( W, H, 1, pickAlign( r ) );
            fillImage( one, r );
            c.out.resize( 1 );
            tout.resize( 1 );
            c.out[0].swap( one );
            for ( uint32_t k = 0; k < 3; ++k ) {
                c.op_[k].x = r.u( 0, W - c.w );
                c.op_[k].y = k * c.h;
            }
        }
        // reference
        Case ref = c;
        ref.ns = F;
        Result rr;
        if ( !shared && defect.empty() ) {
            if ( ( op.nsMask & ( 1 << F ) ) == 0 )
                return;
            ops::run( ref, rr );
            if ( rr.status != 0 )
                return; // judged by the checks of the plain implementation
        }
        // the call
        Case t = c;
        for ( size_t k = 0; k < t.in.size(); ++k ) {
            Image e = recode( c.in[k], tin[k] );
            t.in[k].swap( e );
        }
        for ( size_t k = 0; k < t.out.size(); ++k ) {
            Image e = recode( c.out[k], tout[k] );
            t.out[k].swap( e );
        }
        std::string what = describe( c ) + "; types";
        for ( uint8_t x : tin )
            what += vf::fmt( " %d", x );
        for ( uint8_t x : tout )
            what += vf::fmt( " -> %d", x );
        what += vf::fmt( "; conversion %s; implementations of", enabled ? "on" : "off" );
        for ( uint8_t x : having )
            what += vf::fmt( " %d", x );
        if ( shared )
            what += "; all outputs in one image";
        if ( !defect.empty() )
            what += "; " + defect;
        ctx.begin( idx, what );
        const std::string sig = op.name + vf::fmt( "/form%d", c.form );
        // what may and what must happen
        const bool registryFree = ( op.name == "Fill" && c.form == 2 ) || op.name == "GetThreshold";
        auto usable = [&]( uint8_t impl ) {
            for ( size_t k = 0; k < tin.size(); ++k )
                if ( !convertible( tin[k], impl ) || ( ( op.kind == INOUT || ( c.alias && k == 0 ) ) && !convertible( impl, tin[k] ) ) )
                    return false;
            if ( op.kind == IMG && ( c.form == 1 || c.form == 3 || ( op.name == "Copy" && c.form == 2 ) ) )
                return convertible( impl, tin[0] ); // a returned image is of the type of the first one
            if ( op.kind == IMG && !c.alias )
                for ( uint8_t x : tout )
                    if ( !convertible( x, impl ) || !convertible( impl, x ) )
                        return false;
            return true;
        };
        bool same = true; // nothing to convert for the own implementation
        for ( uint8_t x : tin )
            same = same && x == main;
        if ( op.kind == IMG && ( c.form == 2 || c.form == 4 ) && !c.alias )
            for ( uint8_t x : tout )
                same = same && ( x == main || ( op.name == "Copy" && c.form == 2 ) );
        bool mayWork = false, mustWork = false;
        std::set<uint8_t> allowed;
        if ( having.count( main ) ) {
            allowed.insert( main );
            mayWork = usable( main );
            mustWork = mayWork && ( same || enabled );
        }
        else if ( enabled ) {
            mustWork = true;
            for ( uint8_t x : having ) {
                if ( usable( x ) ) {
                    mayWork = true;
                    allowed.insert( x );
                }
                else
                    mustWork = false;
            }
            mustWork = mustWork && mayWork;
        }
        if ( registryFree )
            mayWork = mustWork = true;

        const Shots before = shots( t );
        lg.reset();
        Result tr;
        if ( shared ) {
            setSimd( t.simd );
            try {
                penguinV::Split( t.in[0], t.ip[0].x, t.ip[0].y, t.out[0], t.op_[0].x, t.op_[0].y, t.out[0], t.op_[1].x, t.op_[1].y, t.out[0], t.op_[2].x, t.op_[2].y, t.w, t.h );
            }
            catch ( const penguinVException & e ) {
                tr.status = 1;
                tr.what = e.what();
            }
        }
        else
            ops::run( t, tr );
        ++ctx.evaluations;
        ctx.hit( vf::fmt( "calls/%s", having.count( main ) ? ( same ? "own" : "own-converted" ) : enabled ? ( having.empty() ? "nobody" : "fallback" ) : "disabled" ) );
        ctx.hit( "conversions", lg.conversions );
        ctx.distinct.insert( vf::hashStr( sig + vf::fmt( "%d %d %d %d", main, enabled, c.alias, shared ) ) * 31 + having.size() * 7 + c.w * 131071u + c.h * 257u );
        if ( !lg.error.empty() ) {
            ctx.fail( "dispatch/mixed/" + op.name, what + ": " + lg.error );
            return;
        }
        if ( tr.status == 2 ) {
            ctx.fail( "dispatch/exception/" + sig, what + ": exception of another kind: " + tr.what );
            return;
        }
        if ( tr.status == 1 ) {
            ctx.hit( "refused" );
            if ( defect.empty() && mustWork )
                ctx.fail( "dispatch/refused/" + sig, what + ": refused: " + tr.what );
            // an output which could not be converted back is found after the work on the others is done
            std::string e = lg.implementations.empty() || !defect.empty() ? diffAll( before, t ) : "";
            for ( size_t k = 0; k < t.in.size() && e.empty() && op.kind != INOUT && !c.alias; ++k )
                e = diffOutside( before.in[k], t.in[k], Pos(), 0, 0 );
            if ( !e.empty() )
                ctx.fail( "dispatch/refused-changed/" + sig, what + ": refused, but " + e );
            return;
        }
        if ( !defect.empty() ) {
            ctx.fail( "dispatch/accepted/" + sig, what + ": accepted" );
            return;
        }
        if ( !mayWork ) {
            ctx.fail( "dispatch/undefined/" + sig, what + vf::fmt( ": accepted although %s", having.empty() ? "no type has the operation" : !enabled ? "conversions are disabled" : "a conversion is missing" ) );
            return;
        }
        ctx.hit( "accepted" );
        // which implementation worked
        if ( !registryFree ) {
            if ( lg.implementations.size() != 1 || !allowed.count( lg.implementations[0] ) ) {
                ctx.fail( "dispatch/implementation/" + sig, what + vf::fmt( ": %zu implementations worked, the first of type %d", lg.implementations.size(), lg.implementations.empty() ? -1 : lg.implementations[0] ) );
                return;
            }
            ctx.hit( vf::fmt( "implementation/%d", lg.implementations[0] ) );
        }
        // types and everything outside of the outputs
        const bool replaced = op.name == "Copy" && c.form == 2;
        if ( tr.hasImg && tr.img.type() != main ) {
            ctx.fail( "dispatch/type/" + sig, what + vf::fmt( ": the returned image is of type %d", tr.img.type() ) );
            return;
        }
        if ( shared ) {
            // one region per channel
            std::string e;
            for ( size_t k = 0; k < t.in.size() && e.empty(); ++k )
                e = diffOutside( before.in[k], t.in[k], Pos(), 0, 0 );
            const Image o = recode( t.out[0], 0 );
            if ( e.empty() && t.out[0].type() != tout[0] )
                e = "type of the output changed";
            Image want = c.out[0];
            for ( uint32_t k = 0; k < 3; ++k )
                for ( uint32_t y = 0; y < c.h; ++y )
                    for ( uint32_t x = 0; x < c.w; ++x )
                        want.data()[static_cast<size_t>( c.op_[k].y + y ) * want.rowSize() + c.op_[k].x + x] = static_cast<uint8_t>( c.val( 0, x, y, k ) );
            if ( e.empty() && ( o.rowSize() != want.rowSize() || memcmp( o.data(), want.data(), static_cast<size_t>( o.rowSize() ) * o.height() ) != 0 ) )
                e = "the output is not what the parts of the image are";
            if ( !e.empty() )
                ctx.fail( "dispatch/shared/" + sig, what + ": " + e );
            return;
        }
        if ( !replaced || t.alias ) {
            const std::string e = frame( before, t );
            if ( !e.empty() ) {
                ctx.fail( "dispatch/frame/" + sig, what + ": " + e );
                return;
            }
        }
        else {
            const std::string e = diffOutside( before.in[0], t.in[0], Pos(), 0, 0 );
            if ( !e.empty() ) {
                ctx.fail( "dispatch/frame/" + sig, what + ": input: " + e );
                return;
            }
        }
        // results
        const Decoded d = decode( t, tr );
        std::vector<std::vector<uint32_t>> got, want;
        const std::string e1 = collect( d.c, d.r, got ), e2 = collect( ref, rr, want );
        if ( !e1.empty() || !e2.empty() ) {
            ctx.fail( "dispatch/shape/" + sig, what + ": " + e1 + e2 );
            return;
        }
        if ( got != want ) {
            size_t k = 0, i = 0;
            for ( k = 0; k < got.size() && k < want.size(); ++k ) {
                for ( i = 0; i < got[k].size() && i < want[k].size() && got[k][i] == want[k][i]; ++i )
                    ;
                if ( i < got[k].size() || i < want[k].size() )
                    break;
            }
            ctx.fail( "dispatch/result/" + sig,
                      what
                          + vf::fmt( ": value %zu of output %zu is %u instead of %u", i, k, k < got.size() && i < got[k].size() ? got[k][i] : 0,
                                     k < want.size() && i < want[k].size() ? want[k][i] : 0 ) );
        }
        if ( idx < 6 )
            ctx.sample( what + vf::fmt( ": implementation of type %d, %llu conversions", lg.implementations.empty() ? -1 : lg.implementations[0],
                                        static_cast<unsigned long long>( lg.conversions ) ) );
    }
}

int main( int argc, char ** argv )
{
    vf::Ctx ctx;
    ctx.parse( argc, argv );
    ImageTypeManager & m = ImageTypeManager::instance();
    simd::EnableSimd( true );
    cpu = m.functionTable( 0 );
    const FunctionTableHolder original = cpu;
    for ( uint8_t t : { uint8_t( 10 ), uint8_t( 77 ), uint8_t( 255 ), ONE_WAY, ISOLATED } )
        m.setFunctionTable( t, FunctionTableHolder() );
    for ( int a : TYPES )
        for ( int b : TYPES )
            if ( a != b )
                m.setConvertFunction( convert, emptyImage( static_cast<uint8_t>( a ) ), emptyImage( static_cast<uint8_t>( b ) ) );
    m.setConvertFunction( convert, emptyImage( ONE_WAY ), emptyImage( 0 ) );
    std::vector<const Op *> list;
    for ( const Op & o : table() )
        if ( ( o.nsMask & ( 1 << V ) ) && ( known( o.name ) || o.name == "GetThreshold" ) )
            list.push_back( &o );
    if ( list.size() < 30 ) {
        fprintf( stderr, "only %zu operations\n", list.size() );
        return 3;
    }
    ctx.loop( "D01", [&]( uint64_t idx, Rng & r ) {
        const long live = lg.live;
        if ( idx % 40 == 0 )
            registryCase( ctx, idx, r );
        else
            callCase( ctx, idx, r, list );
        if ( lg.live != live )
            ctx.fail( "dispatch/leak", vf::fmt( "%ld buffers of images were not released: ", lg.live - live ) );
        lg.live = live;
    } );
    put( 0, original );
    return ctx.finish();
}
