// One call on device images against the plain implementation. Included within an unnamed namespace by the monitors of the devices.
    // transfers of complete images, padding included, without the library's conversion
    Image upload( const Image & im )
    {
        static const DeviceImage reference;
        if ( im.empty() )
            return reference.generate();
        Image d = reference.generate( im.width(), im.height(), im.colorCount(), im.alignment() );
        devPut( d.data(), im.data(), static_cast<size_t>( im.rowSize() ) * im.height() );
        return d;
    }
    Image download( const Image & d )
    {
        if ( d.empty() )
            return Image();
        Image im( d.width(), d.height(), d.colorCount(), d.alignment() );
        devGet( d.data(), im.data(), static_cast<size_t>( im.rowSize() ) * im.height() );
        return im;
    }
    void clearPadding( Image & im )
    {
        for ( uint32_t y = 0; y < im.height(); ++y )
            for ( uint32_t x = im.width() * im.colorCount(); x < im.rowSize(); ++x )
                im.data()[static_cast<size_t>( y ) * im.rowSize() + x] = 0;
    }
    std::string sameImages( const Image & a, const Image & b )
    {
        if ( a.width() != b.width() || a.height() != b.height() || a.colorCount() != b.colorCount() )
            return "image shapes differ";
        for ( uint32_t y = 0; y < a.height(); ++y )
            if ( memcmp( a.data() + static_cast<size_t>( y ) * a.rowSize(), b.data() + static_cast<size_t>( y ) * b.rowSize(), static_cast<size_t>( a.width() ) * a.colorCount() ) != 0 )
                return fmt( "row %u differs", y );
        return "";
    }

    bool onDevice( const Op & op )
    {
        static const std::set<std::string> names = { "AbsoluteDifference", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "ConvertToGrayScale", "ConvertToRgb", "Copy", "ExtractChannel",
                                                     "Fill", "Flip", "GammaCorrection", "GetThreshold", "Histogram", "Invert", "IsEqual", "LookupTable", "Maximum", "Minimum",
                                                     "Normalize", "ProjectionProfile", "SetPixel", "SetPixels", "Subtract", "Threshold", "Threshold2" };
        return names.count( op.name ) != 0 && !notOnDevice.count( op.name );
    }
    struct Combo
    {
        const Op * op;
        int ns, form;
    };
    std::vector<Combo> combos()
    {
        std::vector<Combo> v;
        for ( const Op & op : table() )
            for ( int form = 1; form <= 4; ++form ) {
                if ( !( op.forms & ( 1 << ( form - 1 ) ) ) || op.in16 || op.kind == IMG16 )
                    continue;
                if ( onDevice( op ) ) {
                    v.push_back( { &op, G, form } );
                    v.push_back( { &op, G, form } );
                }
                if ( op.nsMask & ( 1 << V ) )
                    v.push_back( { &op, V, form } );
            }
        return v;
    }

    // documented limits of the device implementation, beyond those of the plain one
    bool mayRefuse( const Case & c )
    {
        if ( c.op->name == "Histogram" && c.in[0].colorCount() != 1 )
            return true;
        return ( c.op->name == "Fill" && c.form == 4 && c.in[0].colorCount() != 1 )
               || ( c.op->name == "GammaCorrection" && ( c.in[0].colorCount() != 1 || ( !c.out.empty() && c.out[0].colorCount() != 1 ) ) );
    }

    struct Judged
    {
        std::string sig, text; // empty: as it has to be
        uint64_t values = 0;
        std::string how;
    };

    // one call on device images against the plain implementation on the same images in ordinary memory
    Judged judge( Case & c, Rng & rng, int ns, bool canaries )
    {
        Judged j;
        c.ns = F;
        c.simd = 0;
        c.alias = c.op->pointwise && !c.invalid && ( c.form == 2 || c.form == 4 ) && rng.chance( 8 );
        Case ref = c;
        Result rr;
        run( ref, rr );

        Case d = c;
        d.ns = ns;
        // uploads by the monitor or by the library
        std::vector<Image> canary;
        std::vector<uint8_t> pattern( 300 );
        randomBytes( pattern.data(), pattern.size(), rng );
        auto addCanary = [&]() {
            if ( !canaries )
                return;
            canary.push_back( DeviceImage().generate( 100, 3 ) );
            devPut( canary.back().data(), pattern.data(), pattern.size() );
        };
        for ( size_t k = 0; k < d.in.size() + d.out.size(); ++k ) {
            Image & im = k < d.in.size() ? d.in[k] : d.out[k - d.in.size()];
            addCanary();
            const int cc = im.colorCount();
            if ( k < d.in.size() && !im.empty() && ( cc == 1 || cc == 3 || cc == 4 ) && rng.chance( 40 ) ) {
                Image t;
                if ( rng.chance( 50 ) ) {
                    Image u = DEVICE_TO( im );
                    t.swap( u );
                }
                else {
                    Image u = DeviceImage().generate( im.width(), im.height(), im.colorCount(), pickAlign( rng ) );
                    DEVICE_TO( im, u );
                    t.swap( u );
                }
                const std::string e = sameImages( download( t ), im );
                if ( !e.empty() ) {
                    j.sig = "transfer to the device";
                    j.text = e;
                    return j;
                }
                im.swap( t );
            }
            else {
                Image t = upload( im );
                im.swap( t );
            }
        }
        addCanary();
        // the same with images in ordinary memory: state before and after
        auto toCpu = [&]( const Case & x ) {
            Case r = x;
            r.in.clear();
            r.out.clear();
            for ( const Image & im : x.in )
                r.in.push_back( download( im ) );
            for ( const Image & im : x.out )
                r.out.push_back( download( im ) );
            if ( ns == V ) {
                for ( Image & im : r.in )
                    clearPadding( im );
                for ( Image & im : r.out )
                    clearPadding( im );
            }
            return r;
        };
        Shots before;
        {
            const Case t = toCpu( d );
            before = shots( t );
        }
        Result rd;
        run( d, rd );
        Case after = toCpu( d );
        for ( Shot & s : before.in ) // only contents are compared
            s.data = s.bytes.empty() ? nullptr : &s;
        for ( Shot & s : before.out )
            s.data = s.bytes.empty() ? nullptr : &s;
        auto bad = [&]( const std::string & sig, const std::string & text ) {
            j.sig = sig;
            j.text = text;
            return j;
        };
        for ( const Image & im : canary ) {
            std::vector<uint8_t> now( pattern.size() );
            devGet( im.data(), now.data(), now.size() );
            if ( now != pattern )
                return bad( "neighbour", "changed the contents of a neighbouring image" );
        }
        for ( size_t k = 0; k < d.in.size() + d.out.size(); ++k ) {
            const Image & im = k < d.in.size() ? d.in[k] : d.out[k - d.in.size()];
            if ( im.type() != DeviceImage().type() )
                return bad( "type", fmt( "image %zu has got type %u", k, im.type() ) );
        }
        if ( rd.status == 2 )
            return bad( "other exception", "ended in another exception: " + rd.what );
        if ( rr.status != 0 ) {
            j.how = "refused";
            if ( rd.status == 0 )
                return bad( "accepted", "was accepted; the plain implementation refuses it: " + rr.what );
            const std::string e = diffAll( before, after );
            if ( !e.empty() )
                return bad( "changed by a refused call", "was refused, but " + e );
            return j;
        }
        if ( rd.status != 0 ) {
            j.how = "refused as the device implementation is limited";
            if ( !mayRefuse( c ) )
                return bad( "refused", "was refused: " + rd.what );
            const std::string e = diffAll( before, after );
            if ( !e.empty() )
                return bad( "changed by a refused call", "was refused, but " + e );
            return j;
        }
        j.how = "equal";
        if ( rd.hasImg ) {
            if ( rd.img.type() != DeviceImage().type() )
                return bad( "type", fmt( "returned image has type %u", rd.img.type() ) );
            Image t = download( rd.img );
            const Image u = DEVICE_FROM( rd.img );
            std::string e = sameImages( t, u );
            if ( !e.empty() || u.type() != 0 )
                return bad( "transfer from the device", e );
            Image v( rd.img.width(), rd.img.height(), rd.img.colorCount(), pickAlign( rng ) );
            DEVICE_FROM( rd.img, v );
            e = sameImages( t, v );
            if ( !e.empty() )
                return bad( "transfer from the device", e );
            rd.img.swap( t );
        }
        std::vector<std::vector<uint32_t>> a, b;
        std::string e = collect( ref, rr, a );
        if ( e.empty() )
            e = collect( after, rd, b );
        if ( !e.empty() )
            return bad( "shape", e );
        for ( size_t k = 0; k < a.size(); ++k ) {
            if ( b.size() != a.size() || b[k].size() != a[k].size() )
                return bad( "value", "another number of values" );
            for ( size_t i = 0; i < a[k].size(); ++i )
                if ( a[k][i] != b[k][i] )
                    return bad( "value", fmt( "output %zu value %zu is %u, in ordinary memory %u", k, i, b[k][i], a[k][i] ) );
            j.values += a[k].size();
        }
        e = frame( before, after );
        if ( !e.empty() )
            return bad( "outside", e );
        return j;
    }

    std::string sigOf( const Case & c, int ns )
    {
        return fmt( "%s::%s/form%d", nsName( ns ), c.op->name.c_str(), c.form );
    }

    uint64_t hashOf( const Case & c, int ns )
    {
        uint64_t h = vf::hashStr( c.op->name );
        for ( uint64_t v : { static_cast<uint64_t>( ns * 10 + c.form ), static_cast<uint64_t>( c.w ), static_cast<uint64_t>( c.h ), static_cast<uint64_t>( c.ip[0].x ),
                             static_cast<uint64_t>( c.op_[0].y ), static_cast<uint64_t>( c.cc ), static_cast<uint64_t>( c.p.v1 ) } )
            h = vf::mix( h, v );
        return h;
    }
