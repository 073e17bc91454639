// Monitors for the image operations. Modes: value, frame, san, invalid, simd, pool, forms, deps.
#include "invalid.h"
#include "thread_pool.h"
#include <condition_variable>
#include <thread>

using namespace ops;

#ifdef VF_POISON
// fresh memory never contains zeros or remains by luck
static unsigned char g_poison = 0xAA;
#include <new>
void * operator new( size_t n )
{
    void * p = malloc( n ? n : 1 );
    if ( !p )
        throw std::bad_alloc();
    memset( p, g_poison, n );
    return p;
}
void * operator new[]( size_t n )
{
    return operator new( n );
}
void operator delete( void * p ) noexcept
{
    free( p );
}
void operator delete[]( void * p ) noexcept
{
    free( p );
}
void operator delete( void * p, size_t ) noexcept
{
    free( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    free( p );
}
#endif

namespace
{
    struct Combo
    {
        const Op * op;
        int ns, form;
    };

    std::vector<Combo> combos( const std::function<bool( const Op &, int, int )> & pred )
    {
        std::vector<Combo> v;
        for ( const Op & op : table() )
            for ( int ns = 0; ns < 4; ++ns )
                for ( int form = 1; form <= 4; ++form )
                    if ( ( op.nsMask & ( 1 << ns ) ) && ( op.forms & ( 1 << ( form - 1 ) ) ) && pred( op, ns, form ) )
                        v.push_back( { &op, ns, form } );
        return v;
    }

    uint64_t caseHash( const Case & c )
    {
        uint64_t h = vf::hashStr( c.op->name );
        auto m = [&]( uint64_t v ) { h = vf::mix( h, v ); };
        m( static_cast<uint64_t>( c.ns * 1000 + c.form * 100 + c.simd * 10 + c.alias ) );
        m( c.w );
        m( c.h );
        for ( size_t k = 0; k < c.in.size(); ++k ) {
            m( c.in[k].rowSize() );
            m( c.in[k].colorCount() );
            m( c.ip[k].x );
        }
        for ( size_t k = 0; k < c.out.size(); ++k ) {
            m( c.out[k].rowSize() );
            m( c.op_[k].x );
        }
        m( static_cast<uint64_t>( c.p.v1 ) );
        return h;
    }

    std::string sigOf( const Case & c )
    {
        return vf::fmt( "%s::%s/form%d", nsName( c.ns ), c.op->name.c_str(), c.form );
    }

    bool nonTrivial( const Case & c )
    {
        return c.w * c.h > 1;
    }

    void account( vf::Ctx & ctx, const Case & c )
    {
        ++ctx.evaluations;
        ctx.hit( vf::fmt( "calls %s", nsName( c.ns ) ) );
        ctx.hit( "values checked", static_cast<uint64_t>( c.wo ) * c.ho * c.cc );
        if ( c.ns == S || c.ns == V ) {
            setSimd( c.simd );
            static const char * names[] = { "avx512", "avx", "sse", "neon", "cpu" };
            ctx.hit( vf::fmt( "simd level %s", names[simd::actualSimdType()] ) );
        }
        if ( nonTrivial( c ) )
            ctx.distinct.insert( caseHash( c ) );
        if ( ctx.samples.size() < 4 )
            ctx.sample( describe( c ) );
    }

    int pickSimd( Rng & r )
    {
        return r.chance( 60 ) ? 7 : static_cast<int>( r.u( 0, 7 ) );
    }

    void pickThreads( Rng & r )
    {
        static bool started = false;
        if ( !started || r.chance( 8 ) ) {
            started = true;
            ThreadPoolMonoid::instance().resize( r.pick( { 1u, 2u, 3u, 4u, 5u, 7u, 8u, 13u } ) );
        }
    }

    void prepare( Case & c, const Combo & k, Rng & r, const Limits & lim = Limits() )
    {
        c.ns = k.ns;
        c.form = k.form;
        c.simd = pickSimd( r );
        if ( c.ns == P )
            pickThreads( r );
        generate( c, *k.op, r, lim );
        if ( k.op->pointwise && ( k.form == 2 || k.form == 4 ) && !k.op->in16 && r.chance( 10 ) )
            c.alias = true;
    }

    // run an accepted call and give its outputs; false after reporting a failure
    bool accepted( vf::Ctx & ctx, Case & c, std::vector<std::vector<uint32_t>> & outs, const std::string & text )
    {
        Result r;
        run( c, r );
        if ( r.status != 0 ) {
            ctx.fail( sigOf( c ) + "/refused", text + " was refused: " + r.what );
            return false;
        }
        const std::string e = collect( c, r, outs );
        if ( !e.empty() ) {
            ctx.fail( sigOf( c ) + "/shape", text + ": " + e );
            return false;
        }
        return true;
    }

    void modeValue( vf::Ctx & ctx, const std::string & family, bool far = false )
    {
        const auto list = combos( [&]( const Op & op, int, int form ) {
            return op.family == family && ( !far || ( form > 2 && !op.wholeOnlyInput && ( op.nin > 0 || op.kind == IMG || op.kind == IMG16 ) ) );
        } );
        ctx.loop( family, [&]( uint64_t idx, Rng & rng ) {
            Case c;
            Limits lim;
            lim.far = far;
            lim.big = !far;
            try {
                prepare( c, list[idx % list.size()], rng, lim );
            }
            catch ( const std::bad_alloc & ) {
                if ( !far )
                    throw;
                ctx.hit( "not enough memory for the images" );
                return;
            }
            if ( far )
                ctx.hit( "calls on parts of images of gigabytes" );
            const std::string text = describe( c );
            ctx.begin( idx, text );
            const std::vector<Range> expected = c.op->expect( c );
            std::vector<std::vector<uint32_t>> outs;
            const std::vector<uint32_t> vecBefore = c.vec;
            if ( accepted( ctx, c, outs, text ) ) {
                std::string e = compare( c, expected, outs );
                if ( e.empty() && c.op->name == "GetThreshold" ) {
                    double best, got;
                    if ( !otsuOk( vecBefore, outs[0][0], best, got ) )
                        e = vf::fmt( "threshold %u has between-class variance %.12g, the largest is %.12g", outs[0][0], got, best );
                }
                if ( !e.empty() )
                    ctx.fail( sigOf( c ), text + ": " + e );
            }
            account( ctx, c );
        } );
    }

    void modeFrame( vf::Ctx & ctx )
    {
        const auto list = combos( []( const Op & op, int, int ) { return op.nin > 0; } );
        ctx.loop( "I06", [&]( uint64_t idx, Rng & rng ) {
            Case c;
            Limits lim;
            lim.big = false;
            prepare( c, list[idx % list.size()], rng, lim );
            const std::string text = describe( c );
            ctx.begin( idx, text );
            const Shots s = shots( c );
            uint64_t outside = 0;
            for ( auto & o : s.out )
                outside += o.bytes.size();
            std::vector<uint32_t> px;
            if ( c.op->name == "SetPixel" || c.op->name == "SetPixels" )
                collectImage( c.in[0], Pos(), c.in[0].width(), c.in[0].height(), px );
            Result r;
            run( c, r );
            std::string e = frame( s, c );
            if ( e.empty() && !px.empty() ) {
                std::vector<uint32_t> now;
                collectImage( c.in[0], Pos(), c.in[0].width(), c.in[0].height(), now );
                std::set<size_t> allowed;
                const size_t W = c.in[0].width();
                if ( c.op->name == "SetPixel" )
                    allowed.insert( c.ip[0].y * W + c.ip[0].x );
                for ( size_t i = 0; i < c.p.X.size(); ++i )
                    allowed.insert( c.p.Y[i] * W + c.p.X[i] );
                for ( size_t i = 0; i < px.size(); ++i )
                    if ( px[i] != now[i] && !allowed.count( i ) )
                        e = vf::fmt( "pixel %zu,%zu was not named but changed", i % W, i / W );
            }
            if ( !e.empty() )
                ctx.fail( sigOf( c ), text + ": " + e );
            ctx.hit( "bytes of output images watched", outside );
            account( ctx, c );
        } );
    }

    void modeInvalid( vf::Ctx & ctx )
    {
        const auto list = combos( []( const Op &, int, int ) { return true; } );
        ctx.loop( "I08", [&]( uint64_t idx, Rng & rng ) {
            Case c;
            Limits lim;
            lim.big = false;
            prepare( c, list[idx % list.size()], rng, lim );
            c.alias = false;
            const std::string what = invalidate( c, rng );
            if ( what.empty() )
                return;
            const std::string text = what + ": " + describe( c );
            ctx.begin( idx, text );
            const Shots s = shots( c );
            Result r;
            run( c, r );
            ctx.hit( "refusal: " + what );
            if ( r.status == 0 )
                ctx.fail( sigOf( c ) + "/accepted/" + what, text + " was accepted" );
            else if ( r.status == 2 )
                ctx.fail( sigOf( c ) + "/other exception/" + what, text + " ended in another exception: " + r.what );
            else {
                const std::string e = diffAll( s, c );
                if ( !e.empty() )
                    ctx.fail( sigOf( c ) + "/changed/" + what, text + " was refused, but " + e );
            }
            account( ctx, c );
        } );
    }

    struct Outcome
    {
        int status = 0;
        std::string what;
        std::vector<std::vector<uint32_t>> outs;
    };
    Outcome outcome( Case & c )
    {
        Result r;
        run( c, r );
        Outcome o;
        o.status = r.status;
        o.what = r.what;
        if ( r.status == 0 ) {
            const std::string e = collect( c, r, o.outs );
            if ( !e.empty() ) {
                o.status = 3;
                o.what = e;
            }
        }
        return o;
    }
    std::string differ( const Outcome & a, const Outcome & b )
    {
        static const char * names[] = { "returned", "refused", "ended in an unrelated exception", "returned a wrongly shaped image" };
        if ( a.status != b.status )
            return vf::fmt( "one %s %s, the other %s %s", names[a.status], a.what.c_str(), names[b.status], b.what.c_str() );
        if ( a.status )
            return "";
        if ( a.outs.size() != b.outs.size() )
            return "different numbers of outputs";
        for ( size_t k = 0; k < a.outs.size(); ++k ) {
            if ( a.outs[k].size() != b.outs[k].size() )
                return vf::fmt( "output %zu has %zu values in one and %zu in the other", k, a.outs[k].size(), b.outs[k].size() );
            for ( size_t i = 0; i < a.outs[k].size(); ++i )
                if ( a.outs[k][i] != b.outs[k][i] )
                    return vf::fmt( "output %zu value %zu is %u in one and %u in the other", k, i, a.outs[k][i], b.outs[k][i] );
        }
        return "";
    }

    void modeSimd( vf::Ctx & ctx )
    {
        const auto list = combos( []( const Op & op, int ns, int ) { return ns == S && ( op.nsMask & 2 ); } );
        ctx.loop( "I09", [&]( uint64_t idx, Rng & rng ) {
            Case c;
            Limits lim;
            lim.big = rng.chance( 15 );
            prepare( c, list[idx % list.size()], rng, lim );
            c.alias = false;
            std::string inv;
            if ( rng.chance( 15 ) )
                inv = invalidate( c, rng );
            c.ns = F;
            Case ref = c;
            const std::string text = describe( c ) + ( inv.empty() ? "" : " [" + inv + "]" );
            ctx.begin( idx, text );
            const Outcome plain = outcome( ref );
            ctx.hit( plain.status ? "refused alike" : "accepted alike" );
            const Shots s = shots( c );
            for ( int mask = 0; mask < 8; ++mask ) {
                Case d = c;
                d.ns = S;
                d.simd = mask;
                const Outcome o = outcome( d );
                const std::string e = differ( plain, o );
                if ( !e.empty() )
                    ctx.fail( vf::fmt( "%s/simd%d", sigOf( d ).c_str(), mask ), text + vf::fmt( " plain against simd mask %d: ", mask ) + e );
                // padding and everything outside must be the same as well
                for ( size_t k = 0; k < d.out.size() && o.status == 0 && plain.status == 0; ++k ) {
                    const size_t n = static_cast<size_t>( d.out[k].rowSize() ) * d.out[k].height();
                    if ( n && memcmp( d.out[k].data(), ref.out[k].data(), n ) != 0 )
                        ctx.fail( vf::fmt( "%s/simd%d/bytes", sigOf( d ).c_str(), mask ), text + vf::fmt( " simd mask %d: the output image differs outside the region", mask ) );
                }
                d.simd = mask;
                account( ctx, d );
            }
        } );
    }

    void modePool( vf::Ctx & ctx )
    {
        const auto list = combos( []( const Op &, int ns, int ) { return ns == P; } );
        ctx.loop( "I10", [&]( uint64_t idx, Rng & rng ) {
            const uint32_t callers = rng.chance( 55 ) ? 1 : rng.u( 2, 4 );
            const uint32_t threads = rng.pick( { 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 9u, 11u, 16u, 33u } );
            const bool resizing = rng.chance( 12 );
            std::vector<Case> cs( callers );
            std::string all = vf::fmt( "%u threads%s: ", threads, resizing ? " changing meanwhile" : "" );
            for ( uint32_t i = 0; i < callers; ++i ) {
                Limits lim;
                lim.big = rng.chance( 10 );
                const Combo & k = list[( idx + i * 31 ) % list.size()];
                cs[i].ns = P;
                cs[i].form = k.form;
                cs[i].simd = 7;
                generate( cs[i], *k.op, rng, lim );
                all += describe( cs[i] ) + " | ";
            }
            if ( callers == 1 )
                cs[0].simd = pickSimd( rng );
            ctx.begin( idx, all );
            std::vector<Outcome> want( callers ), got( callers );
            for ( uint32_t i = 0; i < callers; ++i ) {
                Case d = cs[i];
                d.ns = F;
                want[i] = outcome( d );
            }
            ThreadPoolMonoid::instance().resize( threads );
            std::vector<Case> run_( cs );
            if ( callers == 1 && !resizing )
                got[0] = outcome( run_[0] );
            else {
                setSimd( 7 );
                std::atomic<uint32_t> ready( 0 );
                std::atomic<bool> stop( false );
                std::vector<std::thread> ts;
                for ( uint32_t i = 0; i < callers; ++i )
                    ts.emplace_back( [&, i]() {
                        ++ready;
                        while ( ready < callers ) {
                        }
                        Result r;
                        try {
                            run_[i].op->call( run_[i], r );
                        }
                        catch ( const penguinVException & e ) {
                            r.status = 1;
                            r.what = e.what();
                        }
                        catch ( const std::exception & e ) {
                            r.status = 2;
                            r.what = e.what();
                        }
                        got[i].status = r.status;
                        got[i].what = r.what;
                        if ( r.status == 0 ) {
                            const std::string e = collect( run_[i], r, got[i].outs );
                            if ( !e.empty() ) {
                                got[i].status = 3;
                                got[i].what = e;
                            }
                        }
                    } );
                std::thread rs;
                if ( resizing )
                    rs = std::thread( [&]() {
                        uint32_t n = 1;
                        while ( !stop ) {
                            ThreadPoolMonoid::instance().resize( 1 + n++ % 6 );
                            std::this_thread::yield();
                        }
                    } );
                for ( auto & t : ts )
                    t.join();
                stop = true;
                if ( rs.joinable() )
                    rs.join();
                ctx.hit( "concurrent groups" );
            }
            for ( uint32_t i = 0; i < callers; ++i ) {
                const std::string e = differ( want[i], got[i] );
                if ( !e.empty() )
                    ctx.fail( sigOf( cs[i] ), vf::fmt( "%u threads, caller %u of %u: ", threads, i, callers ) + describe( cs[i] ) + " serial against pool: " + e );
                account( ctx, cs[i] );
            }
            ctx.hit( vf::fmt( "threads %u", threads ) );
        } );
    }

    // the same region as images of their own
    void crop( const Case & c, Case & d, Rng & r )
    {
        d = c;
        d.whole = true;
        for ( size_t k = 0; k < c.in.size(); ++k ) {
            Image im( c.w, c.h, c.in[k].colorCount(), pickAlign( r ) );
            fillImage( im, r );
            for ( uint32_t y = 0; y < c.h; ++y )
                memcpy( im.data() + static_cast<size_t>( y ) * im.rowSize(), c.in[k].data() + static_cast<size_t>( c.ip[k].y + y ) * c.in[k].rowSize() + c.ip[k].x * c.in[k].colorCount(),
                        static_cast<size_t>( c.w ) * c.in[k].colorCount() );
            d.in[k].swap( im );
            d.ip[k] = Pos();
        }
        for ( size_t k = 0; k < c.in16.size(); ++k ) {
            Image16Bit im( c.w, c.h, c.in16[k].colorCount(), pickAlign( r ) );
            for ( size_t i = 0; i < static_cast<size_t>( im.rowSize() ) * im.height(); ++i )
                im.data()[i] = static_cast<uint16_t>( r.next() );
            for ( uint32_t y = 0; y < c.h; ++y )
                memcpy( im.data() + static_cast<size_t>( y ) * im.rowSize(),
                        c.in16[k].data() + static_cast<size_t>( c.ip[k].y + y ) * c.in16[k].rowSize() + c.ip[k].x * c.in16[k].colorCount(),
                        static_cast<size_t>( c.w ) * c.in16[k].colorCount() * 2 );
            d.in16[k].swap( im );
            d.ip[k] = Pos();
        }
        for ( size_t k = 0; k < c.out.size(); ++k ) {
            Image im( c.wo, c.ho, c.out[k].colorCount(), pickAlign( r ) );
            fillImage( im, r );
            if ( c.op->name == "ReplaceChannel" )
                for ( uint32_t y = 0; y < c.ho; ++y )
                    memcpy( im.data() + static_cast<size_t>( y ) * im.rowSize(),
                            c.out[k].data() + static_cast<size_t>( c.op_[k].y + y ) * c.out[k].rowSize() + c.op_[k].x * c.out[k].colorCount(),
                            static_cast<size_t>( c.wo ) * c.out[k].colorCount() );
            d.out[k].swap( im );
            d.op_[k] = Pos();
        }
        for ( size_t k = 0; k < c.out16.size(); ++k ) {
            Image16Bit im( c.wo, c.ho, c.out16[k].colorCount(), pickAlign( r ) );
            d.out16[k].swap( im );
            d.op_[k] = Pos();
        }
    }

    void modeForms( vf::Ctx & ctx )
    {
        std::vector<Combo> list;
        for ( const Op & op : table() )
            for ( int ns = 0; ns < 4; ++ns )
                if ( ( op.nsMask & ( 1 << ns ) ) && op.nin > 0 && op.name != "GetPixel" && !op.wholeOnlyInput )
                    list.push_back( { &op, ns, 0 } );
        ctx.loop( "I11", [&]( uint64_t idx, Rng & rng ) {
            const Combo & k = list[idx % list.size()];
            const bool rot = k.op->name == "Rotate";
            Case c;
            Limits lim;
            lim.big = false;
            Combo q = k;
            q.form = ( k.op->forms & 8 ) ? 4 : 3;
            prepare( c, q, rng, lim );
            c.alias = false;
            if ( rot ) {
                c.p.d[2] = c.p.d[0];
                c.p.d[3] = c.p.d[1];
            }
            const std::string text = describe( c );
            ctx.begin( idx, text );
            Case base = c;
            Outcome first = outcome( base );
            if ( first.status )
                ctx.fail( sigOf( c ) + "/refused", text + " was refused: " + first.what );
            account( ctx, c );
            if ( q.form == 4 && ( k.op->forms & 4 ) ) {
                Case d = c;
                d.form = 3;
                const Outcome o = outcome( d );
                const std::string e = differ( first, o );
                if ( !e.empty() )
                    ctx.fail( sigOf( d ), text + " region into an image against region returned: " + e );
                account( ctx, d );
            }
            Case w;
            crop( c, w, rng );
            Case wr = w;
            Outcome whole = outcome( wr );
            if ( !k.op->usesOutside && !rot ) {
                const std::string e = differ( first, whole );
                if ( !e.empty() )
                    ctx.fail( sigOf( c ) + "/crop", text + " region against the same pixels as an image: " + e );
            }
            for ( int form = 1; form <= 3; ++form ) {
                if ( !( k.op->forms & ( 1 << ( form - 1 ) ) ) )
                    continue;
                Case d;
                crop( w, d, rng );
                d.form = form;
                const Outcome o = outcome( d );
                const std::string e = differ( whole, o );
                if ( !e.empty() )
                    ctx.fail( sigOf( d ), text + vf::fmt( " form %d of the cropped images against region form: ", form ) + e );
                account( ctx, d );
            }
        } );
    }

    void modeDeps( vf::Ctx & ctx )
    {
        const auto list = combos( []( const Op &, int, int ) { return true; } );
        ctx.loop( "I12", [&]( uint64_t idx, Rng & rng ) {
#ifdef VF_POISON
            g_poison = 0xAA;
#endif
            Case c;
            Limits lim;
            lim.big = rng.chance( 5 );
            prepare( c, list[idx % list.size()], rng, lim );
            c.alias = false;
            const std::string text = describe( c );
            ctx.begin( idx, text );
            Case d = c;
            const Outcome a = outcome( d );
            if ( a.status )
                ctx.fail( sigOf( c ) + "/refused", text + " was refused: " + a.what );
            for ( int round = 0; round < 2; ++round ) {
#ifdef VF_POISON
                g_poison = round == 0 ? 0x55 : static_cast<unsigned char>( rng.next() );
#endif
                // other addresses, other padding, other earlier contents of the outputs, more rows and columns around
                Case e = c;
                if ( !c.op->wholeOnlyInput && c.op->name != "GetPixel" && c.op->nin > 0 && !c.op->in16 ) {
                    for ( size_t k = 0; k < e.in.size(); ++k ) {
                        const Image & o = c.in[k];
                        Image im( o.width(), o.height(), o.colorCount(), pickAlign( rng ) );
                        fillImage( im, rng );
                        for ( uint32_t y = 0; y < o.height(); ++y )
                            memcpy( im.data() + static_cast<size_t>( y ) * im.rowSize(), o.data() + static_cast<size_t>( y ) * o.rowSize(), static_cast<size_t>( o.width() ) * o.colorCount() );
                        e.in[k].swap( im );
                    }
                }
                if ( c.op->name != "ReplaceChannel" )
                    for ( size_t k = 0; k < e.out.size(); ++k ) {
                        const Image & o = c.out[k];
                        Image im( o.width(), o.height(), o.colorCount(), pickAlign( rng ) );
                        fillImage( im, rng );
                        e.out[k].swap( im );
                    }
                if ( c.op->kind == VEC && c.op->name != "Accumulate" ) {
                    e.vec.assign( rng.u( 0, 300 ), 0 );
                    for ( auto & v : e.vec )
                        v = static_cast<uint32_t>( rng.next() );
                }
                const Outcome b = outcome( e );
                const std::string diff = differ( a, b );
                if ( !diff.empty() )
                    ctx.fail( sigOf( c ), text + " with equal arguments, other memory: " + diff );
                account( ctx, e );
            }
        } );
    }

    // extreme but accepted or refused arguments, all under the sanitizers
    void modeSan( vf::Ctx & ctx )
    {
        const auto list = combos( []( const Op &, int, int ) { return true; } );
        ctx.loop( "I07", [&]( uint64_t idx, Rng & rng ) {
            Case c;
            Limits lim;
            lim.big = rng.chance( 8 );
            prepare( c, list[idx % list.size()], rng, lim );
            std::string inv;
            if ( rng.chance( 25 ) ) {
                c.alias = false;
                inv = invalidate( c, rng );
            }
            else if ( rng.chance( 12 ) ) { // strange parameters; whether they are accepted is not judged here
                const double odd[] = { 1e10, -1e10, 1e300, -1e300, 0.9999999999, std::nan( "" ), HUGE_VAL, -HUGE_VAL, 4294967296.0, 2147483648.0 };
                const std::string & n = c.op->name;
                if ( n == "Rotate" )
                    c.p.d[rng.u( 0, 4 )] = odd[rng.u( 0, 9 )];
                else if ( n == "Shift" || n == "GammaCorrection" )
                    c.p.d[rng.u( 0, 1 )] = odd[rng.u( 0, 9 )];
                else if ( n == "BinaryDilate" || n == "BinaryErode" )
                    randomBytes( c.in[0].data(), static_cast<size_t>( c.in[0].rowSize() ) * c.in[0].height(), rng );
                inv = "unusual parameter";
            }
            const std::string text = describe( c ) + ( inv.empty() ? "" : " [" + inv + "]" );
            ctx.begin( idx, text );
            Result r;
            run( c, r );
            ctx.hit( r.status == 0 ? "accepted" : "refused" );
            if ( inv.empty() && r.status )
                ctx.fail( sigOf( c ) + "/refused", text + " was refused: " + r.what );
            if ( r.status == 2 )
                ctx.fail( sigOf( c ) + "/other exception", text + " ended in an exception of another kind: " + r.what );
            account( ctx, c );
        } );
    }
}

int main( int argc, char ** argv )
{
    vf::Ctx ctx;
    ctx.parse( argc, argv );
    if ( ctx.arg == "pool-memory" || ( ctx.mode == "deps" && ctx.shard % 2 == 1 ) )
        cpu_Memory::MemoryAllocator::instance().reserve( 64u << 20 );
    if ( ctx.mode == "frame" )
        modeFrame( ctx );
    else if ( ctx.mode == "invalid" )
        modeInvalid( ctx );
    else if ( ctx.mode == "simd" )
        modeSimd( ctx );
    else if ( ctx.mode == "pool" )
        modePool( ctx );
    else if ( ctx.mode == "forms" )
        modeForms( ctx );
    else if ( ctx.mode == "deps" )
        modeDeps( ctx );
    else if ( ctx.mode == "san" )
        modeSan( ctx );
    else
        modeValue( ctx, ctx.mode, ctx.arg == "far" );
    return ctx.finish();
}
