// Stand-in for Xlib and the server behind it: windows keep their pixels, events come from a script, what the server would
// refuse is recorded. Only the parts of Xlib a simple window needs.
#pragma once
#include "common.h"
#include <X11/Xlib.h>
#include <X11/Xutil.h>
#include <deque>
#include <memory>
#include <type_traits>

#define VF_X __attribute__( ( visibility( "hidden" ) ) )

namespace xs
{
    struct Gc
    {
        int screen = 0;
        unsigned long foreground = 0;
    };
    struct Win
    {
        ::Window id = 0;
        int screen = 0;
        uint32_t width = 0, height = 0;
        bool mapped = false;
        long mask = 0;
        std::string title;
        std::vector<Atom> protocols;
        std::vector<uint32_t> pixels;
        uint64_t painted = 0; // images and marks received
    };
    typedef std::remove_pointer<_XPrivDisplay>::type Private;
    struct Connection
    {
        Private p; // the first member: a Display * points to it
        std::vector<Screen> screens;
        std::vector<Visual> visuals;
        std::vector<Gc> gcs;
        std::map<::Window, Win> windows;
    };
    struct Server
    {
        bool refuse = false;
        int screenCount = 1, defaultScreen = 0;
        std::vector<int> depths = { 24 };
        std::set<Connection *> connections;
        long images = 0, graphics = 0, allocations = 0;
        uint64_t requests = 0, opened = 0;
        std::vector<std::string> errors;
        std::map<std::string, Atom> atoms;
        ::Window nextWindow = 1000;
        std::deque<XEvent> events;
        std::function<void()> beforeWaiting; // called whenever the program asks for an event
        bool failImage = false;
        void error( const std::string & s )
        {
            if ( errors.size() < 20 )
                errors.push_back( s );
        }
    };
    inline Server & server()
    {
        static Server s;
        return s;
    }
    struct Stuck
    {}; // the program waits for an event which never comes

    inline Connection * connection( Display * d )
    {
        Connection * c = reinterpret_cast<Connection *>( d );
        if ( server().connections.count( c ) == 0 ) {
            server().error( "a request for a display which is not open" );
            return nullptr;
        }
        ++server().requests;
        return c;
    }
    inline Win * window( Display * d, ::Window w, const char * what )
    {
        Connection * c = connection( d );
        if ( c == nullptr )
            return nullptr;
        auto it = c->windows.find( w );
        if ( it == c->windows.end() ) {
            server().error( std::string( what ) + ": BadWindow" );
            return nullptr;
        }
        return &it->second;
    }
    inline void plot( Win & w, int x, int y, unsigned long colour )
    {
        if ( x >= 0 && y >= 0 && static_cast<uint32_t>( x ) < w.width && static_cast<uint32_t>( y ) < w.height )
            w.pixels[static_cast<size_t>( y ) * w.width + x] = static_cast<uint32_t>( colour ) & 0xFFFFFFu;
    }
    inline void line( Win & w, int x1, int y1, int x2, int y2, unsigned long colour )
    {
        // coordinates have 16 bits in the protocol
        const int ax = static_cast<int16_t>( x1 ), ay = static_cast<int16_t>( y1 ), bx = static_cast<int16_t>( x2 ), by = static_cast<int16_t>( y2 );
        const int n = std::max( std::abs( bx - ax ), std::abs( by - ay ) );
        for ( int k = 0; k <= n; ++k )
            plot( w, n == 0 ? ax : ax + ( bx - ax ) * k / n, n == 0 ? ay : ay + ( by - ay ) * k / n, colour );
        ++w.painted;
    }
    inline int destroyImage( XImage * image )
    {
        --server().images;
        if ( image->data != nullptr )
            free( image->data ); // as Xlib does
        free( image );
        return 1;
    }
    inline void exposed( Display * d, ::Window w )
    {
        XEvent e;
        memset( &e, 0, sizeof e );
        e.type = Expose;
        e.xexpose.display = d;
        e.xexpose.window = w;
        server().events.push_back( e );
    }
}

extern "C" {
VF_X Display * XOpenDisplay( const char * )
{
    xs::Server & s = xs::server();
    if ( s.refuse )
        return nullptr;
    xs::Connection * c = new xs::Connection();
    memset( &c->p, 0, sizeof c->p );
    c->screens.resize( s.screenCount );
    c->visuals.resize( s.screenCount );
    c->gcs.resize( s.screenCount );
    for ( int k = 0; k < s.screenCount; ++k ) {
        Screen & sc = c->screens[k];
        memset( &sc, 0, sizeof sc );
        memset( &c->visuals[k], 0, sizeof( Visual ) );
        c->visuals[k].visualid = 33 + k;
        c->visuals[k].c_class = TrueColor;
        c->visuals[k].red_mask = 0xFF0000;
        c->visuals[k].green_mask = 0xFF00;
        c->visuals[k].blue_mask = 0xFF;
        c->visuals[k].bits_per_rgb = 8;
        c->gcs[k].screen = k;
        sc.display = reinterpret_cast<Display *>( c );
        sc.root = 100 + k;
        sc.width = 1920;
        sc.height = 1080;
        sc.root_visual = &c->visuals[k];
        sc.root_depth = s.depths[k % s.depths.size()];
        sc.default_gc = reinterpret_cast<GC>( &c->gcs[k] );
        sc.white_pixel = 0xFFFFFF;
        sc.black_pixel = 0;
    }
    c->p.screens = c->screens.data();
    c->p.nscreens = s.screenCount;
    c->p.default_screen = s.defaultScreen;
    c->p.byte_order = LSBFirst;
    c->p.bitmap_unit = 32;
    c->p.bitmap_pad = 32;
    s.connections.insert( c );
    ++s.opened;
    return reinterpret_cast<Display *>( c );
}
VF_X int XCloseDisplay( Display * d )
{
    xs::Connection * c = xs::connection( d );
    if ( c != nullptr ) {
        xs::server().connections.erase( c );
        delete c;
    }
    return 0;
}
VF_X ::Window XCreateWindow( Display * d, ::Window parent, int, int, unsigned width, unsigned height, unsigned, int depth, unsigned, Visual *, unsigned long,
                             XSetWindowAttributes * )
{
    xs::Connection * c = xs::connection( d );
    if ( c == nullptr )
        return 0;
    const int screen = static_cast<int>( parent ) - 100;
    xs::Win w;
    w.width = static_cast<uint16_t>( width );
    w.height = static_cast<uint16_t>( height );
    if ( screen < 0 || screen >= static_cast<int>( c->screens.size() ) )
        xs::server().error( "window: BadWindow" );
    else if ( w.width == 0 || w.height == 0 )
        xs::server().error( "window without width or height: BadValue" );
    w.screen = screen;
    w.id = xs::server().nextWindow++;
    w.pixels.assign( static_cast<size_t>( w.width ) * w.height, 0xFFFFFF );
    const ::Window id = w.id;
    c->windows[id] = w;
    return id;
}
VF_X ::Window XCreateSimpleWindow( Display * d, ::Window parent, int x, int y, unsigned width, unsigned height, unsigned border, unsigned long, unsigned long )
{
    return XCreateWindow( d, parent, x, y, width, height, border, 0, 0, nullptr, 0, nullptr );
}
VF_X int XDestroyWindow( Display * d, ::Window w )
{
    if ( xs::window( d, w, "XDestroyWindow" ) != nullptr )
        xs::connection( d )->windows.erase( w );
    return 1;
}
VF_X int XSelectInput( Display * d, ::Window w, long mask )
{
    if ( xs::Win * p = xs::window( d, w, "XSelectInput" ) )
        p->mask = mask;
    return 1;
}
VF_X int XMapWindow( Display * d, ::Window w )
{
    if ( xs::Win * p = xs::window( d, w, "XMapWindow" ) ) {
        if ( !p->mapped && ( p->mask & ExposureMask ) )
            xs::exposed( d, w );
        p->mapped = true;
    }
    return 1;
}
VF_X int XMapRaised( Display * d, ::Window w )
{
    return XMapWindow( d, w );
}
VF_X int XRaiseWindow( Display * d, ::Window w )
{
    xs::window( d, w, "XRaiseWindow" );
    return 1;
}
VF_X int XUnmapWindow( Display * d, ::Window w )
{
    if ( xs::Win * p = xs::window( d, w, "XUnmapWindow" ) )
        p->mapped = false;
    return 1;
}
VF_X int XStoreName( Display * d, ::Window w, const char * name )
{
    if ( xs::Win * p = xs::window( d, w, "XStoreName" ) )
        p->title = name == nullptr ? "" : name;
    return 1;
}
VF_X Atom XInternAtom( Display * d, const char * name, int onlyIfExists )
{
    xs::connection( d );
    auto & atoms = xs::server().atoms;
    if ( atoms.count( name ) == 0 ) {
        if ( onlyIfExists )
            return 0;
        const Atom next = 300 + atoms.size();
        atoms[name] = next;
    }
    return atoms[name];
}
VF_X Status XSetWMProtocols( Display * d, ::Window w, Atom * protocols, int count )
{
    if ( xs::Win * p = xs::window( d, w, "XSetWMProtocols" ) )
        p->protocols.assign( protocols, protocols + count );
    return 1;
}
VF_X int XPending( Display * d )
{
    xs::connection( d );
    return static_cast<int>( xs::server().events.size() );
}
VF_X int XEventsQueued( Display * d, int )
{
    return XPending( d );
}
VF_X int XNextEvent( Display * d, XEvent * e )
{
    xs::connection( d );
    xs::Server & s = xs::server();
    if ( s.beforeWaiting )
        s.beforeWaiting();
    if ( s.events.empty() )
        throw xs::Stuck();
    *e = s.events.front();
    s.events.pop_front();
    if ( e->type == KeyPress || e->type == Expose || e->type == ClientMessage )
        e->xany.display = d;
    return 0;
}
VF_X XImage * XCreateImage( Display * d, Visual * visual, unsigned depth, int format, int offset, char * data, unsigned width, unsigned height, int pad, int rowSize )
{
    xs::Connection * c = xs::connection( d );
    if ( c == nullptr || xs::server().failImage )
        return nullptr;
    XImage * image = static_cast<XImage *>( calloc( 1, sizeof( XImage ) ) );
    image->width = static_cast<int>( width );
    image->height = static_cast<int>( height );
    image->xoffset = offset;
    image->format = format;
    image->data = data;
    image->byte_order = c->p.byte_order;
    image->bitmap_unit = c->p.bitmap_unit;
    image->bitmap_bit_order = LSBFirst;
    image->bitmap_pad = pad;
    image->depth = static_cast<int>( depth );
    image->bits_per_pixel = ( depth > 16 ) ? 32 : ( depth > 8 ) ? 16 : 8;
    image->red_mask = visual->red_mask;
    image->green_mask = visual->green_mask;
    image->blue_mask = visual->blue_mask;
    image->bytes_per_line = rowSize != 0 ? rowSize : static_cast<int>( ( width * static_cast<unsigned>( image->bits_per_pixel ) + pad - 1 ) / pad * pad / 8 );
    image->f.destroy_image = xs::destroyImage;
    ++xs::server().images;
    return image;
}
VF_X int XPutImage( Display * d, Drawable w, GC gc, XImage * image, int fromX, int fromY, int toX, int toY, unsigned width, unsigned height )
{
    xs::Win * p = xs::window( d, w, "XPutImage" );
    if ( p == nullptr )
        return 0;
    xs::Connection * c = reinterpret_cast<xs::Connection *>( d );
    if ( image == nullptr ) {
        xs::server().error( "XPutImage without an image" );
        return 0;
    }
    if ( image->depth != c->screens[p->screen].root_depth || reinterpret_cast<xs::Gc *>( gc )->screen != p->screen ) {
        xs::server().error( "XPutImage: BadMatch" );
        return 0;
    }
    for ( unsigned y = 0; y < height; ++y ) {
        for ( unsigned x = 0; x < width; ++x ) {
            const int ix = fromX + static_cast<int>( x ), iy = fromY + static_cast<int>( y );
            if ( ix < 0 || iy < 0 || ix >= image->width || iy >= image->height )
                continue;
            const uint8_t * b = reinterpret_cast<const uint8_t *>( image->data ) + static_cast<size_t>( iy ) * image->bytes_per_line + static_cast<size_t>( ix ) * 4;
            xs::plot( *p, toX + static_cast<int>( x ), toY + static_cast<int>( y ),
                      image->byte_order == LSBFirst ? b[0] | b[1] << 8 | b[2] << 16 : b[3] | b[2] << 8 | b[1] << 16 );
        }
    }
    ++p->painted;
    return 0;
}
VF_X int XDrawLine( Display * d, Drawable w, GC gc, int x1, int y1, int x2, int y2 )
{
    if ( xs::Win * p = xs::window( d, w, "XDrawLine" ) )
        xs::line( *p, x1, y1, x2, y2, reinterpret_cast<xs::Gc *>( gc )->foreground );
    return 1;
}
VF_X int XDrawPoint( Display * d, Drawable w, GC gc, int x, int y )
{
    return XDrawLine( d, w, gc, x, y, x, y );
}
VF_X int XDrawSegments( Display * d, Drawable w, GC gc, XSegment * s, int n )
{
    for ( int k = 0; k < n; ++k )
        XDrawLine( d, w, gc, s[k].x1, s[k].y1, s[k].x2, s[k].y2 );
    return 1;
}
VF_X int XDrawPoints( Display * d, Drawable w, GC gc, XPoint * s, int n, int )
{
    for ( int k = 0; k < n; ++k )
        XDrawPoint( d, w, gc, s[k].x, s[k].y );
    return 1;
}
VF_X int XFillRectangle( Display * d, Drawable w, GC gc, int x, int y, unsigned width, unsigned height )
{
    for ( unsigned k = 0; k < height && width > 0; ++k )
        XDrawLine( d, w, gc, x, y + static_cast<int>( k ), x + static_cast<int>( width ) - 1, y + static_cast<int>( k ) );
    return 1;
}
VF_X int XSetForeground( Display * d, GC gc, unsigned long colour )
{
    if ( xs::connection( d ) != nullptr )
        reinterpret_cast<xs::Gc *>( gc )->foreground = colour;
    return 1;
}
VF_X GC XCreateGC( Display * d, Drawable w, unsigned long mask, XGCValues * values )
{
    xs::Win * p = xs::window( d, w, "XCreateGC" );
    xs::Gc * g = new xs::Gc();
    g->screen = p == nullptr ? 0 : p->screen;
    if ( mask & GCForeground )
        g->foreground = values->foreground;
    ++xs::server().graphics;
    return reinterpret_cast<GC>( g );
}
VF_X int XFreeGC( Display * d, GC gc )
{
    if ( xs::connection( d ) != nullptr ) {
        delete reinterpret_cast<xs::Gc *>( gc );
        --xs::server().graphics;
    }
    return 1;
}
VF_X int XResizeWindow( Display * d, ::Window w, unsigned width, unsigned height )
{
    if ( xs::Win * p = xs::window( d, w, "XResizeWindow" ) ) {
        p->width = static_cast<uint16_t>( width );
        p->height = static_cast<uint16_t>( height );
        if ( p->width == 0 || p->height == 0 )
            xs::server().error( "XResizeWindow: BadValue" );
        p->pixels.assign( static_cast<size_t>( p->width ) * p->height, 0xFFFFFF );
        if ( p->mapped && ( p->mask & ExposureMask ) )
            xs::exposed( d, w );
    }
    return 1;
}
VF_X int XMoveResizeWindow( Display * d, ::Window w, int, int, unsigned width, unsigned height )
{
    return XResizeWindow( d, w, width, height );
}
VF_X int XClearArea( Display * d, ::Window w, int, int, unsigned width, unsigned height, int exposures )
{
    if ( xs::Win * p = xs::window( d, w, "XClearArea" ) ) {
        if ( width == 0 && height == 0 )
            p->pixels.assign( p->pixels.size(), 0xFFFFFF );
        if ( exposures && p->mapped && ( p->mask & ExposureMask ) )
            xs::exposed( d, w );
    }
    return 1;
}
VF_X int XClearWindow( Display * d, ::Window w )
{
    return XClearArea( d, w, 0, 0, 0, 0, 0 );
}
VF_X int XFlush( Display * d )
{
    xs::connection( d );
    return 1;
}
VF_X int XSync( Display * d, int )
{
    xs::connection( d );
    return 1;
}
VF_X int XFree( void * p )
{
    free( p );
    return 1;
}
VF_X int XDefaultScreen( Display * d )
{
    return DefaultScreen( d );
}
VF_X ::Window XRootWindow( Display * d, int s )
{
    return RootWindow( d, s );
}
VF_X ::Window XDefaultRootWindow( Display * d )
{
    return DefaultRootWindow( d );
}
VF_X GC XDefaultGC( Display * d, int s )
{
    return DefaultGC( d, s );
}
VF_X Visual * XDefaultVisual( Display * d, int s )
{
    return DefaultVisual( d, s );
}
VF_X int XDefaultDepth( Display * d, int s )
{
    return DefaultDepth( d, s );
}
VF_X unsigned long XBlackPixel( Display * d, int s )
{
    return BlackPixel( d, s );
}
VF_X unsigned long XWhitePixel( Display * d, int s )
{
    return WhitePixel( d, s );
}
VF_X int XScreenCount( Display * d )
{
    return ScreenCount( d );
}
VF_X int XDisplayWidth( Display * d, int s )
{
    return DisplayWidth( d, s );
}
VF_X int XDisplayHeight( Display * d, int s )
{
    return DisplayHeight( d, s );
}
}
