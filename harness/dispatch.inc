// Images of several types, tagged implementations and converters for them: every implementation and every
// converter notes that it ran and with which types of images.
namespace dispatch
{
    const int typeCount = 5, generations = 3;
    const uint8_t typeCode[typeCount] = { 0, 3, 5, 129, 255 };
    int indexOf( uint8_t type )
    {
        for ( int t = 0; t < typeCount; ++t )
            if ( typeCode[t] == type )
                return t;
        return -1;
    }

    struct TypedImage : public Image
    {
        TypedImage( uint8_t type, uint32_t w, uint32_t h, uint8_t cc, uint8_t al )
        {
            if ( type != 0 )
                _setType( type, get, put, copyBytes, setBytes );
            setColorCount( cc );
            setAlignment( al );
            resize( w, h );
        }
        static uint8_t * get( size_t n )
        {
            return new uint8_t[n];
        }
        static void put( uint8_t * p )
        {
            delete[] p;
        }
        static void copyBytes( uint8_t * to, uint8_t * from, size_t n )
        {
            std::copy( from, from + n, to );
        }
        static void setBytes( uint8_t * to, uint8_t value, size_t n )
        {
            std::fill( to, to + n, value );
        }
    };

#define FIELDS( X )                                                                                                                                                      \
    X( AbsoluteDifference ) X( Accumulate ) X( BitwiseAnd ) X( BitwiseOr ) X( BitwiseXor ) X( ConvertTo16Bit ) X( ConvertTo8Bit ) X( ConvertToGrayScale )                \
    X( ConvertToRgb ) X( Copy ) X( ExtractChannel ) X( Fill ) X( Flip ) X( GammaCorrection ) X( GetPixel ) X( Histogram ) X( Invert ) X( IsEqual ) X( LookupTable )       \
    X( Maximum ) X( Merge ) X( Minimum ) X( Normalize ) X( ProjectionProfile ) X( Resize ) X( RgbToBgr ) X( RgbToRgba ) X( RgbaToRgb ) X( SetPixel ) X( SetPixel2 )       \
    X( Shift ) X( Split ) X( Subtract ) X( Sum ) X( Threshold ) X( Threshold2 ) X( Transpose )

    enum Field
    {
#define X( F ) field##F,
        FIELDS( X )
#undef X
            fieldCount
    };
    const char * const fieldName[] = {
#define X( F ) #F,
        FIELDS( X )
#undef X
    };

    typedef Image_Function_Helper::FunctionTableHolder Table;
    Table base; // what the library itself registered for plain images

    std::string runLog, convertLog; // JSON of the implementations and converters which ran

    void noteType( std::vector<int> & v, const Image & im )
    {
        v.push_back( im.type() );
    }
    template <typename T>
    void noteType( std::vector<int> &, const T & )
    {}

    template <int T, int G, int F, typename Signature>
    struct Tag;
    template <int T, int G, int F, typename R, typename... A>
    struct Tag<T, G, F, R ( * )( A... )>
    {
        static R ( *&impl() )( A... )
        {
            static R ( *f )( A... ) = nullptr;
            return f;
        }
        static R call( A... a )
        {
            std::vector<int> types;
            const int each[] = { 0, ( noteType( types, a ), 0 )... };
            (void)each;
            runLog += std::string( runLog.empty() ? "" : "," ) + "{\"ty\":" + std::to_string( typeCode[T] ) + ",\"g\":" + std::to_string( G ) + ",\"fn\":\"" + fieldName[F]
                      + "\"";
            list( runLog, "a", types );
            runLog += "}";
            return impl()( a... );
        }
    };

    template <int T, int G>
    void fill( Table & t, const std::vector<bool> & wanted )
    {
#define X( F )                                                                                                                                                           \
    Tag<T, G, field##F, decltype( t.F )>::impl() = base.F;                                                                                                               \
    if ( wanted[field##F] )                                                                                                                                              \
        t.F = Tag<T, G, field##F, decltype( t.F )>::call;
        FIELDS( X )
#undef X
    }
    template <int T, int G>
    void which( const Table & t, std::vector<int> & found )
    {
#define X( F )                                                                                                                                                           \
    if ( t.F == Tag<T, G, field##F, decltype( t.F )>::call )                                                                                                             \
        found[field##F] = G;
        FIELDS( X )
#undef X
    }
    template <int T>
    void fillType( int g, Table & t, const std::vector<bool> & wanted )
    {
        if ( g == 0 )
            fill<T, 0>( t, wanted );
        else if ( g == 1 )
            fill<T, 1>( t, wanted );
        else
            fill<T, 2>( t, wanted );
    }
    template <int T>
    void whichType( const Table & t, std::vector<int> & found )
    {
        found.assign( fieldCount, -3 ); // an unknown function
#define X( F )                                                                                                                                                           \
    if ( t.F == nullptr )                                                                                                                                                \
        found[field##F] = -2;                                                                                                                                            \
    else if ( T == 0 && t.F == base.F )                                                                                                                                  \
        found[field##F] = -1;
        FIELDS( X )
#undef X
        which<T, 0>( t, found );
        which<T, 1>( t, found );
        which<T, 2>( t, found );
    }

    void names( std::string & s, const char * name, const std::vector<bool> & set )
    {
        s += std::string( ",\"" ) + name + "\":[";
        bool first = true;
        for ( size_t i = 0; i < fieldCount; ++i )
            if ( set[i] ) {
                s += std::string( first ? "" : "," ) + "\"" + fieldName[i] + "\"";
                first = false;
            }
        s += "]";
    }
    void registered( std::string & s, int type )
    {
        std::vector<int> found( fieldCount, -2 );
        bool known = true;
        try {
            const Table & t = ImageTypeManager::instance().functionTable( typeCode[type] );
            switch ( type ) {
            case 0:
                whichType<0>( t, found );
                break;
            case 1:
                whichType<1>( t, found );
                break;
            case 2:
                whichType<2>( t, found );
                break;
            case 3:
                whichType<3>( t, found );
                break;
            default:
                whichType<4>( t, found );
                break;
            }
        }
        catch ( const penguinVException & ) {
            known = false;
        }
        std::vector<bool> set( fieldCount );
        std::vector<int> gen;
        for ( size_t i = 0; i < fieldCount; ++i ) {
            set[i] = found[i] != -2;
            if ( set[i] )
                gen.push_back( found[i] );
        }
        s += std::string( ",\"known\":" ) + ( known ? "1" : "0" );
        names( s, "nf", set );
        list( s, "ng", gen );
        const std::vector<uint8_t> types = ImageTypeManager::instance().imageTypes();
        list( s, "types", types );
    }

    void registerTable( int type, int g, bool force, const std::vector<bool> & wanted )
    {
        Table t;
        switch ( type ) {
        case 0:
            fillType<0>( g, t, wanted );
            break;
        case 1:
            fillType<1>( g, t, wanted );
            break;
        case 2:
            fillType<2>( g, t, wanted );
            break;
        case 3:
            fillType<3>( g, t, wanted );
            break;
        default:
            fillType<4>( g, t, wanted );
            break;
        }
        if ( force )
            ImageTypeManager::instance().setFunctionTable( typeCode[type], t, true );
        else if ( chance( 50 ) )
            ImageTypeManager::instance().setFunctionTable( typeCode[type], t );
        else
            ImageTypeManager::instance().setFunctionTable( typeCode[type], t, false );
        std::string s = "{\"e\":\"register\",\"ty\":" + std::to_string( typeCode[type] ) + ",\"g\":" + std::to_string( g ) + ",\"force\":" + ( force ? "1" : "0" );
        names( s, "fs", wanted );
        registered( s, type );
        emit( s + "}" );
    }

    template <int A, int B, int G>
    void convert( const Image & from, Image & to )
    {
        convertLog += std::string( convertLog.empty() ? "" : "," ) + "[" + std::to_string( typeCode[A] ) + "," + std::to_string( typeCode[B] ) + "," + std::to_string( G )
                      + "," + std::to_string( from.type() ) + "," + std::to_string( to.type() ) + "]";
        if ( from.width() != to.width() || from.height() != to.height() || from.colorCount() != to.colorCount() )
            throw penguinVException( "images of different geometry" );
        for ( uint32_t y = 0; y < from.height(); ++y )
            std::copy( from.data() + y * from.rowSize(), from.data() + y * from.rowSize() + from.width() * from.colorCount(), to.data() + y * to.rowSize() );
    }
    typedef void ( *Converter )( const Image &, Image & );
    template <int A, int B>
    Converter converterAB( int g )
    {
        return g == 0 ? convert<A, B, 0> : g == 1 ? convert<A, B, 1> : convert<A, B, 2>;
    }
    template <int A>
    Converter converterA( int b, int g )
    {
        switch ( b ) {
        case 0:
            return converterAB<A, 0>( g );
        case 1:
            return converterAB<A, 1>( g );
        case 2:
            return converterAB<A, 2>( g );
        case 3:
            return converterAB<A, 3>( g );
        default:
            return converterAB<A, 4>( g );
        }
    }
    Converter converter( int a, int b, int g )
    {
        switch ( a ) {
        case 0:
            return converterA<0>( b, g );
        case 1:
            return converterA<1>( b, g );
        case 2:
            return converterA<2>( b, g );
        case 3:
            return converterA<3>( b, g );
        default:
            return converterA<4>( b, g );
        }
    }
    void registerConverter( int a, int b, int g )
    {
        int thrown = 0;
        try {
            const TypedImage from( typeCode[a], chance( 50 ) ? 0 : 3, chance( 50 ) ? 0 : 2, 1, 1 ), to( typeCode[b], 0, 0, 1, 1 );
            ImageTypeManager::instance().setConvertFunction( converter( a, b, g ), from, to );
        }
        catch ( const penguinVException & ) {
            thrown = 1;
        }
        catch ( ... ) {
            thrown = 2;
        }
        emit( "{\"e\":\"converter\",\"a\":" + std::to_string( typeCode[a] ) + ",\"b\":" + std::to_string( typeCode[b] ) + ",\"g\":" + std::to_string( g )
              + ",\"t\":" + std::to_string( thrown ) + "}" );
    }
    void enable( bool on )
    {
        ImageTypeManager::instance().enableIntertypeConversion( on );
        emit( std::string( "{\"e\":\"enable\",\"on\":" ) + ( on ? "1" : "0" ) + ",\"is\":" + ( ImageTypeManager::instance().isIntertypeConversionEnabled() ? "1" : "0" )
              + "}" );
    }

    // chooses the types of the images of a call; the same image has one type
    void choose( Call & c, const std::vector<int> & wanted )
    {
        std::map<int, int> type;
        size_t n = 0;
        const bool mixed = chance( 60 );
        const int common = static_cast<int>( rnd( typeCount ) );
        for ( std::vector<int> * slots : { &c.in, &c.o } ) {
            std::vector<int> & types = slots == &c.in ? c.typeIn : c.typeOut;
            for ( int s : *slots ) {
                if ( !type.count( s ) ) {
                    int t;
                    if ( !wanted.empty() )
                        t = slots == &c.o && !c.in.empty() ? wanted.back() : wanted[n++ % 2];
                    else
                        t = mixed ? static_cast<int>( rnd( chance( 50 ) ? 3 : typeCount ) ) : common;
                    type[s] = typeCode[t];
                }
                types.push_back( type[s] );
            }
        }
    }

    void prepare( Call & c )
    {
        for ( size_t k = 0; k < c.in.size() + c.o.size(); ++k ) {
            const int s = k < c.in.size() ? c.in[k] : c.o[k - c.in.size()];
            const int type = k < c.in.size() ? c.typeIn[k] : c.typeOut[k - c.in.size()];
            if ( c.onDevice.count( s ) )
                continue;
            const Image & host = at8( s );
            std::unique_ptr<Image> im( new TypedImage( static_cast<uint8_t>( type ), host.width(), host.height(), host.colorCount(), host.alignment() ) );
            if ( !host.empty() )
                std::copy( host.data(), host.data() + static_cast<size_t>( host.rowSize() ) * host.height(), im->data() );
            c.onDevice[s] = std::move( im );
        }
        c.device = true;
        runLog.clear();
        convertLog.clear();
    }

    void fetch( Call & c )
    {
        if ( !c.device )
            return;
        for ( auto & d : c.onDevice ) {
            const Image & im = *d.second;
            Image plain( im.width(), im.height(), im.colorCount(), im.alignment() );
            if ( !im.empty() )
                std::copy( im.data(), im.data() + static_cast<size_t>( im.rowSize() ) * im.height(), plain.data() );
            at8( d.first ) = std::move( plain );
        }
        if ( c.typeAfter.empty() )
            for ( int s : c.o )
                c.typeAfter.push_back( c.onDevice.count( s ) ? c.onDevice[s]->type() : -1 );
    }

    std::string effects( const Call & c )
    {
        std::string s;
        list( s, "ta", c.typeAfter );
        s += ",\"run\":[" + runLog + "],\"conv\":[" + convertLog + "]";
        runLog.clear();
        convertLog.clear();
        return s;
    }

    void start()
    {
        std::string s = "{\"e\":\"reset\"";
        registered( s, 0 );
        emit( s + "}" );
    }

    void randomRegistration()
    {
        const uint32_t kind = rnd( 100 );
        if ( kind < 40 ) {
            std::vector<bool> wanted( fieldCount );
            static const uint32_t shares[] = { 0, 20, 60, 100 };
            const uint32_t share = shares[rnd( 4 )];
            for ( size_t i = 0; i < fieldCount; ++i )
                wanted[i] = chance( share );
            registerTable( static_cast<int>( rnd( chance( 50 ) ? 3 : typeCount ) ), static_cast<int>( rnd( generations ) ), chance( 50 ), wanted );
        }
        else if ( kind < 85 ) {
            const int a = static_cast<int>( rnd( chance( 60 ) ? 3 : typeCount ) ), b = static_cast<int>( rnd( chance( 60 ) ? 3 : typeCount ) );
            registerConverter( a, b, static_cast<int>( rnd( generations ) ) );
            if ( chance( 60 ) )
                registerConverter( b, a, static_cast<int>( rnd( generations ) ) );
        }
        else {
            enable( chance( 75 ) );
        }
    }
}
