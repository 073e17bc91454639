// Monitor of the windows: the Qt window on Qt's offscreen platform, the X11 window on a stand-in for Xlib (xlib.h) and the
// displaying of histograms. What a window shows is compared with what it was given.
#include <QApplication>
#include <QLabel>
#include <QPixmap>
#include "common.h"
#include "penguinv_exception.h"
#include "tool/ui/tool_ui.h"
#include "ui/qt/qt_ui.h"
#include <algorithm>
#include <cmath>
#include "xlib.h"
#include "ui/x11/x11_ui.h"

using penguinV::Image;

// Qt and fontconfig keep memory of their own until the end
extern "C" int __lsan_is_turned_off()
{
    return 1;
}

namespace
{
    vf::Ctx ctx;

    Image picture( vf::Rng & r, uint32_t w, uint32_t h, uint8_t colours, uint8_t alignment )
    {
        Image m( w, h, colours, alignment );
        const uint32_t kind = r.u( 0, 3 );
        const uint64_t seed = r.next();
        for ( uint32_t y = 0; y < h; ++y ) {
            for ( uint32_t x = 0; x < m.rowSize(); ++x ) {
                const uint64_t v = vf::mix( seed, static_cast<uint64_t>( y ) * m.rowSize() + x );
                m.data()[y * m.rowSize() + x] = static_cast<uint8_t>( kind == 0 ? v : kind == 1 ? ( v & 1 ? 255 : 0 ) : kind == 2 ? x * 3 + y * 5 : 128 );
            }
        }
        return m;
    }

    struct Shape
    {
        std::vector<std::pair<double, double>> p; // close enough positions along it
        std::vector<bool> loose; // positions where nothing has to be painted: the tips of thin ellipses
        PaintColor colour;
        int twice = 0; // how many pixels may be painted more than once
    };
    void segment( Shape & s, double x1, double y1, double x2, double y2 )
    {
        const double n = std::max( 1.0, std::ceil( 2 * std::max( std::fabs( x2 - x1 ), std::fabs( y2 - y1 ) ) ) );
        for ( double k = 0; k <= n; ++k )
            s.p.push_back( std::make_pair( x1 + ( x2 - x1 ) * k / n, y1 + ( y2 - y1 ) * k / n ) );
    }

    // ---- X11
    struct XModel
    {
        uint32_t width = 0, height = 0;
        std::vector<uint32_t> base;
        std::vector<Shape> points; // since the last image
        std::vector<Shape> older; // before it: they may be shown or not
        void set( const Image & m )
        {
            width = m.width();
            height = m.height();
            base.assign( static_cast<size_t>( width ) * height, 0 );
            for ( uint32_t y = 0; y < height; ++y )
                for ( uint32_t x = 0; x < width; ++x ) {
                    const uint8_t * p = m.data() + y * m.rowSize() + x * m.colorCount();
                    base[static_cast<size_t>( y ) * width + x] = m.colorCount() == 1 ? p[0] * 0x10101u : p[0] | p[1] << 8 | p[2] << 16;
                }
            older.insert( older.end(), points.begin(), points.end() );
            points.clear();
        }
    };

    uint32_t rgb( const PaintColor & c )
    {
        return static_cast<uint32_t>( c.red ) << 16 | static_cast<uint32_t>( c.green ) << 8 | c.blue;
    }

    // empty text: the window shows the image and the marks
    std::string judge( const XModel & m, const xs::Win & w )
    {
        if ( m.base.empty() )
            return "";
        if ( w.width != m.width || w.height != m.height )
            return vf::fmt( "a window of %ux%u for an image of %ux%u", w.width, w.height, m.width, m.height );
        for ( uint32_t y = 0; y < m.height; ++y ) {
            for ( uint32_t x = 0; x < m.width; ++x ) {
                const uint32_t v = w.pixels[static_cast<size_t>( y ) * m.width + x];
                if ( v == m.base[static_cast<size_t>( y ) * m.width + x] )
                    continue;
                bool ok = false;
                for ( const std::vector<Shape> * list : { &m.points, &m.older } )
                    for ( const Shape & s : *list )
                        ok = ok || ( v == rgb( s.colour ) && std::fabs( s.p[0].first - x ) <= 2 && std::fabs( s.p[0].second - y ) <= 2 );
                if ( !ok )
                    return vf::fmt( "pixel (%u, %u) is %06x instead of %06x", x, y, v, m.base[static_cast<size_t>( y ) * m.width + x] );
            }
        }
        for ( size_t k = 0; k < m.points.size(); ++k ) {
            const double px = m.points[k].p[0].first, py = m.points[k].p[0].second;
            if ( !( px >= 1 && py >= 1 && px < m.width - 1.0 && py < m.height - 1.0 ) )
                continue;
            bool hidden = false, seen = false;
            for ( size_t n = k + 1; n < m.points.size(); ++n )
                hidden = hidden || ( std::fabs( m.points[n].p[0].first - px ) < 4 && std::fabs( m.points[n].p[0].second - py ) < 4 );
            for ( int y = static_cast<int>( py ) - 1; y <= static_cast<int>( py ) + 1; ++y )
                for ( int x = static_cast<int>( px ) - 1; x <= static_cast<int>( px ) + 1; ++x )
                    seen = seen || w.pixels[static_cast<size_t>( y ) * m.width + x] == rgb( m.points[k].colour );
            if ( !seen && !hidden )
                return vf::fmt( "point %zu of %zu at (%.2f, %.2f) of colour %06x is not shown", k, m.points.size(), px, py, rgb( m.points[k].colour ) );
        }
        return "";
    }

    void x11Case( uint64_t idx, vf::Rng & r )
    {
        xs::Server & s = xs::server();
        s.~Server();
        new ( &s ) xs::Server();
        s.refuse = r.chance( 6 );
        s.screenCount = static_cast<int>( r.pick( { 1, 1, 1, 2, 3 } ) );
        s.defaultScreen = static_cast<int>( r.u( 0, s.screenCount - 1 ) );
        s.depths = r.pick<std::vector<int>>( { { 24 }, { 24 }, { 32 }, { 24, 32 }, { 32, 24, 24 } } );
        std::string story = vf::fmt( "%s%d screens, default %d", s.refuse ? "display refused, " : "", s.screenCount, s.defaultScreen );
        const std::string when[] = { "x11/show", "x11/points", "x11/image", "x11/resources", "x11/errors", "x11/refusal" };
        auto fail = [&]( int k, const std::string & what ) { ctx.fail( when[k], what + " :: " + story ); };

        auto shape = [&]( bool may4 ) {
            const uint8_t c = r.pick<uint8_t>( { 1, 1, 3, 3, 3, static_cast<uint8_t>( may4 ? 4 : 3 ) } );
            if ( r.chance( 7 ) )
                return Image();
            return picture( r, r.pick( { 1u, 2u, 3u, r.u( 1, 40 ), r.u( 1, 90 ) } ), r.pick( { 1u, 2u, r.u( 1, 30 ), r.u( 1, 60 ) } ), c, r.pick<uint8_t>( { 1, 1, 2, 4, 8, 16 } ) );
        };
        XModel model;
        Image first = shape( true );
        const std::string title = r.chance( 20 ) ? std::string() : vf::fmt( "window %u", r.u( 0, 1000 ) );
        story += vf::fmt( ", image %ux%ux%u al %u", first.width(), first.height(), first.colorCount(), first.alignment() );
        ctx.begin( idx, story );
        model.set( first );

        UiWindowX11 * ui = nullptr;
        bool refused = false;
        try {
            ui = new UiWindowX11( first, title );
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        ++ctx.evaluations;
        if ( refused ) {
            ctx.hit( "x11 windows refused" );
            if ( !s.refuse && first.colorCount() != 4 )
                fail( 5, "a window was refused" );
        }
        else if ( s.refuse )
            fail( 5, "a window exists without a display" );
        // the memory of the given image is not used any more
        if ( !first.empty() )
            std::fill( first.data(), first.data() + first.rowSize() * first.height(), 0x5A );

        auto theWindow = [&]() -> xs::Win * {
            if ( s.connections.size() != 1 || ( *s.connections.begin() )->windows.size() != 1 )
                return nullptr;
            return &( *s.connections.begin() )->windows.begin()->second;
        };
        std::string wrong;
        bool exposing = false;
        uint64_t exposures = 0;
        auto script = [&]() {
            xs::Win * w = theWindow();
            auto client = [&]( Atom a ) {
                XEvent e;
                memset( &e, 0, sizeof e );
                e.type = ClientMessage;
                e.xclient.window = w->id;
                e.xclient.format = 32;
                e.xclient.data.l[0] = static_cast<long>( a );
                s.events.push_back( e );
            };
            if ( !s.atoms.count( "_NET_WM_PING" ) ) {
                const Atom next = 300 + s.atoms.size();
                s.atoms["_NET_WM_PING"] = next;
            }
            const uint32_t n = r.u( 1, 5 );
            for ( uint32_t k = 0; k < n; ++k ) {
                switch ( r.u( 0, 3 ) ) {
                case 0: {
                    XEvent e;
                    memset( &e, 0, sizeof e );
                    e.type = KeyPress;
                    e.xkey.window = w->id;
                    s.events.push_back( e );
                    break;
                }
                case 1: client( s.atoms["_NET_WM_PING"] ); break;
                default: xs::exposed( reinterpret_cast<Display *>( *s.connections.begin() ), w->id ); break;
                }
            }
            xs::exposed( reinterpret_cast<Display *>( *s.connections.begin() ), w->id );
            client( s.atoms.count( "WM_DELETE_WINDOW" ) ? s.atoms["WM_DELETE_WINDOW"] : 1 );
        };
        s.beforeWaiting = [&]() {
            xs::Win * w = theWindow();
            if ( w == nullptr )
                return;
            if ( exposing ) {
                ++exposures;
                const std::string t = judge( model, *w );
                if ( !t.empty() && wrong.empty() )
                    wrong = t;
                ++ctx.evaluations;
            }
            exposing = !s.events.empty() && s.events.front().type == Expose;
            if ( exposing ) // what was shown is lost
                for ( uint32_t & v : w->pixels )
                    v = 0x123456;
        };

        bool shown = false;
        if ( ui != nullptr ) {
            xs::Win * w = theWindow();
            if ( w == nullptr )
                fail( 0, "there is no single window" );
            else {
                if ( w->title != title )
                    fail( 0, "title '" + w->title + "' instead of '" + title + "'" );
                if ( std::find( w->protocols.begin(), w->protocols.end(), s.atoms["WM_DELETE_WINDOW"] ) == w->protocols.end() )
                    fail( 0, "closing of the window is not announced" );
                if ( !( w->mask & ExposureMask ) )
                    fail( 0, "the window does not listen to exposures" );
            }
        }
        const uint32_t steps = r.u( 1, 8 );
        for ( uint32_t k = 0; ui != nullptr && theWindow() != nullptr && k < steps; ++k ) {
            const uint32_t what = k + 1 == steps ? 0 : r.u( 0, 5 );
            try {
                if ( what == 0 ) {
                    story += "; show";
                    ctx.begin( idx, story );
                    script();
                    wrong.clear();
                    exposing = false;
                    const uint64_t before = exposures;
                    try {
                        ui->show();
                        shown = true;
                    }
                    catch ( const xs::Stuck & ) {
                        fail( 0, "the window does not end when it is closed" );
                        break;
                    }
                    if ( !s.events.empty() )
                        fail( 0, vf::fmt( "the window ended without being closed, %zu events are left", s.events.size() ) );
                    if ( exposures == before )
                        fail( 0, "no exposure was handled" );
                    if ( theWindow() == nullptr || !theWindow()->mapped )
                        fail( 0, "the window is not on the screen" );
                    if ( !wrong.empty() )
                        fail( model.points.empty() ? 0 : 1, wrong );
                    ctx.hit( "x11 exposures judged", exposures - before );
                    s.events.clear();
                }
                else if ( what < 4 ) {
                    const uint32_t n = r.u( 1, 4 );
                    for ( uint32_t i = 0; i < n; ++i ) {
                        Shape p;
                        p.colour = PaintColor( static_cast<uint8_t>( r.next() ), static_cast<uint8_t>( r.next() ), static_cast<uint8_t>( r.next() ) );
                        p.p.push_back( std::make_pair( r.chance( 40 ) ? r.u( 0, 60 ) : r.d( -5, 70 ), r.chance( 40 ) ? r.u( 0, 40 ) : r.d( -5, 60 ) ) );
                        model.points.push_back( p );
                        story += vf::fmt( "; point (%.2f, %.2f) %06x", p.p[0].first, p.p[0].second, rgb( p.colour ) );
                        ui->drawPoint( Point2d( p.p[0].first, p.p[0].second ), p.colour );
                    }
                    ctx.hit( "x11 points", n );
                }
                else {
                    Image next = shape( true );
                    story += vf::fmt( "; set image %ux%ux%u al %u", next.width(), next.height(), next.colorCount(), next.alignment() );
                    ctx.begin( idx, story );
                    const XModel old = model;
                    model.set( next );
                    if ( shown )
                        script();
                    wrong.clear();
                    exposing = false;
                    bool no = false;
                    try {
                        UiWindow & base = *ui; // as it is used by code which is common for all windows
                        base.setImage( next );
                    }
                    catch ( const xs::Stuck & ) {
                        fail( 2, "the window does not end when it is closed" );
                        break;
                    }
                    catch ( const penguinVException & ) {
                        no = true;
                        model = old;
                        if ( next.colorCount() != 4 )
                            fail( 5, "an image was refused" );
                    }
                    if ( !no && !wrong.empty() )
                        fail( 2, wrong );
                    s.events.clear();
                    if ( !next.empty() )
                        std::fill( next.data(), next.data() + next.rowSize() * next.height(), 0xA5 );
                    ctx.hit( no ? "x11 images refused" : "x11 images replaced" );
                    ++ctx.evaluations;
                }
            }
            catch ( const std::exception & e ) {
                fail( 5, std::string( "unexpected exception: " ) + e.what() );
                break;
            }
        }
        s.beforeWaiting = nullptr;
        delete ui;
        ++ctx.evaluations;
        if ( !s.connections.empty() )
            fail( 3, vf::fmt( "%zu connections to the display are left open", s.connections.size() ) );
        if ( s.images != 0 )
            fail( 3, vf::fmt( "%ld X images are left", s.images ) );
        if ( s.graphics != 0 )
            fail( 3, vf::fmt( "%ld graphics contexts are left", s.graphics ) );
        for ( const std::string & e : s.errors ) {
            fail( 4, e );
            break;
        }
        for ( xs::Connection * c : s.connections )
            delete c;
        s.connections.clear();
        ctx.distinct.insert( vf::hashStr( story ) );
        ctx.sample( story );
    }

    // ---- Qt
    struct Rgb
    {
        int c[3];
    };
    struct QtModel
    {
        uint32_t width = 0, height = 0;
        std::vector<Rgb> v;
        std::vector<bool> unknown; // pixels which are transparent
        void set( const Image & m )
        {
            width = m.width();
            height = m.height();
            v.resize( static_cast<size_t>( width ) * height );
            unknown.assign( v.size(), false );
            for ( uint32_t y = 0; y < height; ++y )
                for ( uint32_t x = 0; x < width; ++x ) {
                    const uint8_t * p = m.data() + y * m.rowSize() + x * m.colorCount();
                    for ( int k = 0; k < 3; ++k )
                        v[static_cast<size_t>( y ) * width + x].c[k] = m.colorCount() == 1 ? p[0] : p[k];
                    if ( m.colorCount() == 4 && p[3] != 255 )
                        unknown[static_cast<size_t>( y ) * width + x] = true;
                }
        }
    };
    Rgb at( const QImage & q, uint32_t x, uint32_t y )
    {
        const QRgb p = q.pixel( static_cast<int>( x ), static_cast<int>( y ) );
        return Rgb{ { qRed( p ), qGreen( p ), qBlue( p ) } };
    }

    std::string judgeQt( QtModel & m, QLabel * label, const Shape * s )
    {
        const QPixmap * pm = label->pixmap();
        if ( m.v.empty() )
            return ( pm == nullptr || pm->isNull() ) ? "" : "something is shown for an empty image";
        if ( pm == nullptr || pm->isNull() )
            return "nothing is shown";
        const QImage q = pm->toImage();
        if ( static_cast<uint32_t>( q.width() ) != m.width || static_cast<uint32_t>( q.height() ) != m.height )
            return vf::fmt( "a picture of %dx%d for an image of %ux%u", q.width(), q.height(), m.width, m.height );
        std::vector<uint8_t> near( m.v.size(), 0 );
        if ( s != nullptr )
            for ( const auto & p : s->p )
                for ( int y = static_cast<int>( std::floor( p.second ) ) - 2; y <= static_cast<int>( std::floor( p.second ) ) + 3; ++y )
                    for ( int x = static_cast<int>( std::floor( p.first ) ) - 2; x <= static_cast<int>( std::floor( p.first ) ) + 3; ++x )
                        if ( x >= 0 && y >= 0 && x < static_cast<int>( m.width ) && y < static_cast<int>( m.height ) && std::fabs( x - p.first ) <= 2.01
                             && std::fabs( y - p.second ) <= 2.01 )
                            near[static_cast<size_t>( y ) * m.width + x] = 1;
        const int ink[3] = { s ? s->colour.red : 0, s ? s->colour.green : 0, s ? s->colour.blue : 0 };
        const int alpha = s ? s->colour.alpha : 0;
        int twice = s ? s->twice : 0;
        std::vector<uint8_t> inked( m.v.size(), 0 );
        for ( size_t k = 0; k < m.v.size(); ++k ) {
            const uint32_t x = static_cast<uint32_t>( k % m.width ), y = static_cast<uint32_t>( k / m.width );
            const Rgb a = at( q, x, y );
            if ( m.unknown[k] )
                continue;
            bool same = true, within = true, painted = true, exact = true;
            for ( int c = 0; c < 3; ++c ) {
                same = same && a.c[c] == m.v[k].c[c];
                within = within && a.c[c] >= std::min( m.v[k].c[c], ink[c] ) - 2 && a.c[c] <= std::max( m.v[k].c[c], ink[c] ) + 2;
                // at least once painted with its transparency
                const double once = m.v[k].c[c] + ( ink[c] - m.v[k].c[c] ) * alpha / 255.0;
                exact = exact && std::fabs( a.c[c] - once ) <= 3; // a shape covers each pixel once
                painted = painted && a.c[c] >= std::min<double>( once, ink[c] ) - 3 && a.c[c] <= std::max<double>( once, ink[c] ) + 3;
            }
            inked[k] = painted;
            if ( same )
                continue;
            if ( !near[k] )
                return vf::fmt( "pixel (%u, %u) is %d,%d,%d instead of %d,%d,%d", x, y, a.c[0], a.c[1], a.c[2], m.v[k].c[0], m.v[k].c[1], m.v[k].c[2] );
            if ( !within || !painted || ( !exact && --twice < 0 ) )
                return vf::fmt( "pixel (%u, %u) is %d,%d,%d where %d,%d,%d was painted over %d,%d,%d", x, y, a.c[0], a.c[1], a.c[2], ink[0], ink[1], ink[2], m.v[k].c[0],
                                m.v[k].c[1], m.v[k].c[2] );
        }
        if ( s != nullptr ) {
            for ( size_t n = 0; n < s->p.size(); ++n ) {
                const auto & p = s->p[n];
                if ( n < s->loose.size() && s->loose[n] )
                    continue;
                if ( !( p.first >= 2 && p.second >= 2 && p.first <= m.width - 3.0 && p.second <= m.height - 3.0 ) )
                    continue;
                bool found = false;
                for ( int y = static_cast<int>( std::floor( p.second ) ) - 1; y <= static_cast<int>( std::floor( p.second ) ) + 2; ++y )
                    for ( int x = static_cast<int>( std::floor( p.first ) ) - 1; x <= static_cast<int>( std::floor( p.first ) ) + 2; ++x )
                        if ( x >= 0 && y >= 0 && x < static_cast<int>( m.width ) && y < static_cast<int>( m.height ) ) {
                            const size_t k = static_cast<size_t>( y ) * m.width + x;
                            found = found || inked[k] || m.unknown[k];
                        }
                if ( !found )
                    return vf::fmt( "nothing is painted at (%.2f, %.2f)", p.first, p.second );
            }
        }
        for ( size_t k = 0; k < m.v.size(); ++k )
            m.v[k] = at( q, static_cast<uint32_t>( k % m.width ), static_cast<uint32_t>( k / m.width ) );
        return "";
    }

    std::vector<QLabel *> labels()
    {
        std::vector<QLabel *> res;
        for ( QWidget * w : QApplication::topLevelWidgets() )
            if ( QLabel * l = qobject_cast<QLabel *>( w ) )
                res.push_back( l );
        std::sort( res.begin(), res.end() );
        return res;
    }

    struct QtWindow
    {
        UiWindowQt * ui = nullptr;
        QLabel * label = nullptr;
        QtModel model;
        bool shown = false;
    };

    void qtCase( uint64_t idx, vf::Rng & r )
    {
        std::string story;
        const std::string when[] = { "qt/show", "qt/paint", "qt/image", "qt/resources" };
        auto fail = [&]( int k, const std::string & what ) { ctx.fail( when[k], what + " :: " + story ); };
        auto shape = [&]() {
            if ( r.chance( 6 ) )
                return Image();
            Image m = picture( r, r.pick( { 1u, 2u, r.u( 1, 40 ), r.u( 1, 90 ) } ), r.pick( { 1u, 2u, r.u( 1, 40 ), r.u( 1, 60 ) } ), r.pick<uint8_t>( { 1, 1, 3, 3, 4 } ),
                               r.pick<uint8_t>( { 1, 1, 2, 4, 8, 16 } ) );
            if ( m.colorCount() == 4 && r.chance( 80 ) )
                for ( uint32_t y = 0; y < m.height(); ++y )
                    for ( uint32_t x = 0; x < m.width(); ++x )
                        m.data()[y * m.rowSize() + x * 4 + 3] = 255;
            return m;
        };
        std::vector<QtWindow> ws( r.pick( { 1u, 1u, 2u, 3u } ) );
        for ( QtWindow & w : ws ) {
            Image first = shape();
            const std::string title = r.chance( 20 ) ? std::string() : vf::fmt( "window %u", r.u( 0, 1000 ) );
            story += vf::fmt( "image %ux%ux%u al %u; ", first.width(), first.height(), first.colorCount(), first.alignment() );
            ctx.begin( idx, story );
            w.model.set( first );
            const std::vector<QLabel *> before = labels();
            w.ui = new UiWindowQt( first, title );
            const std::vector<QLabel *> after = labels();
            std::vector<QLabel *> fresh;
            std::set_difference( after.begin(), after.end(), before.begin(), before.end(), std::back_inserter( fresh ) );
            if ( fresh.size() != 1 ) {
                fail( 0, "there is no single window" );
                return;
            }
            w.label = fresh[0];
            if ( !first.empty() )
                std::fill( first.data(), first.data() + first.rowSize() * first.height(), 0x5A );
            if ( w.label->windowTitle().toStdString() != title )
                fail( 0, "title '" + w.label->windowTitle().toStdString() + "' instead of '" + title + "'" );
            ++ctx.evaluations;
        }
        auto all = [&]( const QtWindow * touched, const Shape * s, int k ) {
            for ( QtWindow & w : ws ) {
                const std::string t = judgeQt( w.model, w.label, &w == touched ? s : nullptr );
                ++ctx.evaluations;
                if ( !t.empty() ) {
                    fail( k, t );
                    return false;
                }
                if ( w.label->isVisible() != w.shown ) {
                    fail( 0, w.shown ? "the window is not visible" : "the window is visible without being shown" );
                    return false;
                }
                if ( w.shown && !w.model.v.empty() && r.chance( 10 ) ) {
                    // what really appears: the picture stands in the middle or at a side of the window
                    const QImage g = w.label->grab().toImage();
                    const QImage q = w.label->pixmap()->toImage();
                    const int dy = ( g.height() - q.height() ) / 2;
                    bool ok = g.width() >= q.width() && dy >= 0;
                    for ( int y = 0; ok && y < q.height(); ++y )
                        for ( int x = 0; ok && x < q.width(); ++x )
                            ok = w.model.unknown[static_cast<size_t>( y ) * w.model.width + x] || ( g.pixel( x, y + dy ) & 0xFFFFFF ) == ( q.pixel( x, y ) & 0xFFFFFF );
                    if ( !ok ) {
                        fail( 0, vf::fmt( "the window of %dx%d does not show its picture of %dx%d completely", g.width(), g.height(), q.width(), q.height() ) );
                        return false;
                    }
                    ctx.hit( "qt windows rendered" );
                }
            }
            return true;
        };
        bool ok = all( nullptr, nullptr, 2 );
        const uint32_t steps = r.u( 1, 10 );
        for ( uint32_t k = 0; ok && k < steps; ++k ) {
            QtWindow & w = ws[r.u( 0, static_cast<uint32_t>( ws.size() ) - 1 )];
            UiWindow & base = *w.ui;
            Shape s;
            s.colour = PaintColor( static_cast<uint8_t>( r.next() ), static_cast<uint8_t>( r.next() ), static_cast<uint8_t>( r.next() ),
                                   r.pick<uint8_t>( { 255, 255, 255, 128, 40, 0, static_cast<uint8_t>( r.next() ) } ) );
            const bool whole = r.chance( 50 );
            auto coordinate = [&]( double hi ) { return whole ? static_cast<double>( r.i( -10, static_cast<int32_t>( hi ) + 10 ) ) : r.d( -10, hi + 10 ); };
            const double x1 = coordinate( w.model.width ), y1 = coordinate( w.model.height ), x2 = coordinate( w.model.width ), y2 = coordinate( w.model.height );
            const uint32_t what = r.u( 0, 6 );
            switch ( what ) {
            case 0:
                story += "show; ";
                ctx.begin( idx, story );
                base.show();
                w.shown = true;
                QApplication::processEvents();
                ok = all( nullptr, nullptr, 0 );
                break;
            case 1: {
                Image next = shape();
                story += vf::fmt( "set image %ux%ux%u al %u; ", next.width(), next.height(), next.colorCount(), next.alignment() );
                ctx.begin( idx, story );
                base.setImage( next );
                w.model.set( next );
                if ( !next.empty() )
                    std::fill( next.data(), next.data() + next.rowSize() * next.height(), 0xA5 );
                QApplication::processEvents();
                ok = all( nullptr, nullptr, 2 );
                ctx.hit( "qt images replaced" );
                break;
            }
            case 2:
                story += vf::fmt( "point (%.2f, %.2f) ", x1, y1 );
                s.p.push_back( std::make_pair( x1, y1 ) );
                base.drawPoint( Point2d( x1, y1 ), s.colour );
                break;
            case 3:
                story += vf::fmt( "line (%.2f, %.2f) (%.2f, %.2f) ", x1, y1, x2, y2 );
                segment( s, x1, y1, x2, y2 );
                base.drawLine( Point2d( x1, y1 ), Point2d( x2, y2 ), s.colour );
                break;
            case 4: {
                const double rx = whole ? r.u( 0, 40 ) : r.d( 0, 40 ), ry = whole ? r.u( 0, 30 ) : r.d( 0, 30 );
                story += vf::fmt( "ellipse (%.2f, %.2f) %.2f %.2f ", x1, y1, rx, ry );
                for ( int d = 0; d < 720; ++d ) {
                    const double ex = rx * cos( d * M_PI / 360 ), ey = ry * sin( d * M_PI / 360 );
                    s.p.push_back( std::make_pair( x1 + ex, y1 + ey ) );
                    s.loose.push_back( ( ry < 3 && std::fabs( ex ) > rx - 4 ) || ( rx < 3 && std::fabs( ey ) > ry - 4 ) );
                }
                s.twice = rx < 3 || ry < 3 ? 1000 : 12;
                base.drawEllipse( Point2d( x1, y1 ), rx, ry, s.colour );
                break;
            }
            case 5:
            case 6: {
                const double wd = whole ? r.u( 1, 40 ) : r.d( 1, 40 ), hg = whole ? r.u( 1, 30 ) : r.d( 1, 30 );
                story += vf::fmt( "rectangle (%.2f, %.2f) %.2fx%.2f ", x1, y1, wd, hg );
                s.twice = wd < 3 || hg < 3 ? 1000 : 8;
                segment( s, x1, y1, x1 + wd, y1 );
                segment( s, x1, y1, x1, y1 + hg );
                segment( s, x1 + wd, y1, x1 + wd, y1 + hg );
                segment( s, x1, y1 + hg, x1 + wd, y1 + hg );
                base.drawRectangle( Point2d( x1, y1 ), wd, hg, s.colour );
                break;
            }
            }
            if ( what > 1 ) {
                story += vf::fmt( "%02x%02x%02x/%u; ", s.colour.red, s.colour.green, s.colour.blue, s.colour.alpha );
                ctx.begin( idx, story );
                ok = all( &w, &s, 1 );
                ctx.hit( "qt shapes judged" );
            }
        }
        for ( QtWindow & w : ws )
            delete w.ui;
        if ( !labels().empty() )
            fail( 3, "windows are left" );
        ctx.distinct.insert( vf::hashStr( story ) );
        ctx.sample( story );
    }

    // ---- histograms and the base of all windows
    struct Recorder : public UiWindow
    {
        Recorder( const Image & m, const std::string & t )
            : UiWindow( m, t )
        {}
        int displayed = 0;
        bool shownThen = false;
        Image seen;
        virtual void _display()
        {
            ++displayed;
            shownThen = _shown;
            seen = _image;
        }
        const Image & image() const
        {
            return _image;
        }
        const std::string & title() const
        {
            return _title;
        }
        bool shown() const
        {
            return _shown;
        }
    };

    bool same( const Image & a, const Image & b )
    {
        if ( a.width() != b.width() || a.height() != b.height() || a.colorCount() != b.colorCount() )
            return false;
        for ( uint32_t y = 0; y < a.height(); ++y )
            if ( memcmp( a.data() + y * a.rowSize(), b.data() + y * b.rowSize(), static_cast<size_t>( a.width() ) * a.colorCount() ) != 0 )
                return false;
        return true;
    }

    template <typename T>
    void histogramCase( uint64_t idx, vf::Rng & r, const char * type, double top )
    {
        const uint32_t n = r.pick( { 0u, 1u, 2u, 256u, 256u, r.u( 1, 300 ) } );
        std::vector<T> h( n );
        const double limit = r.pick( { 1.0, 10.0, 100.0, 255.0, 60000.0, 4e6, 5e7, 4294967295.0 } );
        const double hi = std::min( limit, top ), lo = r.chance( 50 ) ? 0 : r.d( 0, hi );
        const bool flat = r.chance( 5 );
        for ( T & v : h )
            v = static_cast<T>( flat ? lo : r.chance( 10 ) ? hi : r.chance( 10 ) ? lo : r.d( lo, hi ) );
        const std::string story = vf::fmt( "histogram of %u values of %s in %.6g..%.6g", n, type, lo, hi );
        ctx.begin( idx, story );
        Image before = picture( r, 5, 4, 3, 1 );
        Recorder w( before, "histogram" );
        const std::vector<T> copy = h;
        DisplayHistogram( w, h );
        ++ctx.evaluations;
        ctx.distinct.insert( vf::hashStr( story ) );
        if ( copy != h )
            ctx.fail( "histogram", "values were changed :: " + story );
        if ( n == 0 || *std::min_element( h.begin(), h.end() ) == *std::max_element( h.begin(), h.end() ) ) {
            if ( w.shown() && same( w.image(), before ) )
                ctx.fail( "histogram", "a window was shown for nothing :: " + story );
            return;
        }
        const long double mn = *std::min_element( h.begin(), h.end() ), mx = *std::max_element( h.begin(), h.end() );
        if ( !w.shown() || w.displayed == 0 || !w.shownThen ) {
            ctx.fail( "histogram", "nothing was shown :: " + story );
            return;
        }
        const Image & m = w.image();
        if ( m.width() != n || m.height() != 100 || m.colorCount() != 1 || !same( m, w.seen ) ) {
            ctx.fail( "histogram", vf::fmt( "an image of %ux%ux%u :: ", m.width(), m.height(), m.colorCount() ) + story );
            return;
        }
        for ( uint32_t x = 0; x < n; ++x ) {
            uint32_t bar = 0;
            while ( bar < 100 && m.data()[( 99 - bar ) * m.rowSize() + x] == 255 )
                ++bar;
            bool rest = true;
            for ( uint32_t y = bar; y < 100; ++y )
                rest = rest && m.data()[( 99 - y ) * m.rowSize() + x] == 0;
            const long double exact = ( static_cast<long double>( h[x] ) - mn ) * 100 / ( mx - mn );
            if ( !rest || bar + 1e-6L < std::floor( exact - 1e-4L ) || bar > std::ceil( exact + 1e-4L ) ) {
                ctx.fail( "histogram", vf::fmt( "column %u of height %u for %.17g of %.17g..%.17g :: ", x, bar, static_cast<double>( h[x] ), static_cast<double>( mn ),
                                                static_cast<double>( mx ) ) + story );
                return;
            }
        }
        ctx.hit( "histograms judged" );
    }

    void baseCase( uint64_t idx, vf::Rng & r )
    {
        switch ( r.u( 0, 6 ) ) {
        case 0: histogramCase<uint32_t>( idx, r, "uint32_t", 4294967295.0 ); return;
        case 1: histogramCase<uint64_t>( idx, r, "uint64_t", 4294967295.0 ); return;
        case 2: histogramCase<double>( idx, r, "double", 1e9 ); return;
        case 3: histogramCase<uint8_t>( idx, r, "uint8_t", 255 ); return;
        case 4: histogramCase<uint16_t>( idx, r, "uint16_t", 65535 ); return;
        case 5: histogramCase<int>( idx, r, "int", 2147483647 ); return;
        default: break;
        }
        Image m = r.chance( 10 ) ? Image() : picture( r, r.u( 1, 20 ), r.u( 1, 20 ), r.pick<uint8_t>( { 1, 3, 4 } ), r.pick<uint8_t>( { 1, 4 } ) );
        std::string story = vf::fmt( "window with image %ux%ux%u", m.width(), m.height(), m.colorCount() );
        ctx.begin( idx, story );
        Recorder w( m, "some title" );
        Image expected( m );
        bool shown = false;
        for ( uint32_t k = r.u( 1, 8 ); k > 0; --k ) {
            const int before = w.displayed;
            const uint32_t what = r.u( 0, 5 );
            const PaintColor c( 1, 2, 3 );
            switch ( what ) {
            case 0:
                w.show();
                shown = true;
                break;
            case 1:
                m = picture( r, r.u( 1, 20 ), r.u( 1, 20 ), r.pick<uint8_t>( { 1, 3, 4 } ), r.pick<uint8_t>( { 1, 4 } ) );
                w.setImage( m );
                expected = m;
                std::fill( m.data(), m.data() + m.rowSize() * m.height(), 0x5A ); // the window keeps a copy
                break;
            case 2: w.drawPoint( Point2d( 1, 2 ), c ); break;
            case 3: w.drawLine( Point2d( 1, 2 ), Point2d( 3, 4 ), c ); break;
            case 4: w.drawEllipse( Point2d( 1, 2 ), 3, 4, c ); break;
            case 5: w.drawRectangle( Point2d( 1, 2 ), 3, 4, c ); break;
            }
            story += vf::fmt( "; %u", what );
            ++ctx.evaluations;
            if ( w.displayed <= before || w.shown() != shown || !same( w.image(), expected ) || !same( w.seen, expected ) || w.title() != "some title" ) {
                ctx.fail( "base", "the window was not displayed anew as it is expected :: " + story );
                return;
            }
        }
        ctx.distinct.insert( vf::hashStr( story ) );
    }
}

int main( int argc, char ** argv )
{
    ctx.parse( argc, argv );
    setenv( "QT_QPA_PLATFORM", "offscreen", 1 );
    setenv( "QT_LOGGING_RULES", "*=false", 1 );
    qInstallMessageHandler( []( QtMsgType, const QMessageLogContext &, const QString & ) {} );
    int count = 1;
    char name[] = "ui";
    char * list[] = { name, nullptr };
    std::unique_ptr<QApplication> app;
    if ( ctx.mode == "qt" )
        app.reset( new QApplication( count, list ) );
    ctx.loop( "U01", [&]( uint64_t idx, vf::Rng & r ) {
        if ( ctx.mode == "x11" )
            x11Case( idx, r );
        else if ( ctx.mode == "qt" )
            qtCase( idx, r );
        else
            baseCase( idx, r );
    } );
    return ctx.finish();
}
