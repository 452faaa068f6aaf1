// Runs edge detection on generated images and records the points it reports.
#include <algorithm>
#include <cstring>

#include "edge_detection.h"
#include "penguinv_exception.h"
#include "recorder.h"

using penguinV::Image;
using rec::chance;
using rec::Line;
using rec::rnd;
using rec::rndIn;

namespace
{
    const char * const directionName[] = { "right", "left", "down", "up" };
    const EdgeParameter::DirectionType direction[] = { EdgeParameter::DirectionType::LEFT_TO_RIGHT, EdgeParameter::DirectionType::RIGHT_TO_LEFT,
                                                       EdgeParameter::DirectionType::TOP_TO_BOTTOM, EdgeParameter::DirectionType::BOTTOM_TO_TOP };
    const char * const gradientName[] = { "positive", "negative", "any" };
    const EdgeParameter::GradientType gradient[] = { EdgeParameter::GradientType::POSITIVE, EdgeParameter::GradientType::NEGATIVE, EdgeParameter::GradientType::ANY };
    const char * const kindName[] = { "first", "last", "all" };
    const EdgeParameter::EdgeType kind[] = { EdgeParameter::EdgeType::FIRST, EdgeParameter::EdgeType::LAST, EdgeParameter::EdgeType::ALL };

    struct Call
    {
        Image im;
        uint32_t x = 0, y = 0, w = 0, h = 0;
        int dir = 0, grad = 2, kind = 2, form = 0;
        uint32_t group = 1, skip = 1, left = 0, right = 0, contrast = 10;
    };

    uint32_t capped( uint32_t v )
    {
        return v > 1000000 ? 1000000 : v;
    }

    template <typename T>
    std::string points( const std::vector<PointBase2D<T>> & list )
    {
        std::string s = "[";
        for ( size_t i = 0; i < list.size(); ++i )
            s += std::string( i ? "," : "" ) + "[" + std::to_string( rec::scaled( list[i].x, 1000 ) ) + "," + std::to_string( rec::scaled( list[i].y, 1000 ) ) + "]";
        return s + "]";
    }

    template <typename T>
    void find( EdgeDetectionBase<T> & e, const Call & c )
    {
        Line l( "find" );
        std::vector<int> d;
        for ( uint32_t y = 0; y < c.im.height() && c.im.colorCount() == 1; ++y )
            for ( uint32_t x = 0; x < c.im.width(); ++x )
                d.push_back( c.im.data()[y * c.im.rowSize() + x] );
        l.num( "iw", c.im.width() ).num( "ih", c.im.height() ).num( "cc", c.im.colorCount() ).list( "d", d );
        l.num( "x", capped( c.x ) ).num( "y", capped( c.y ) ).num( "w", capped( c.w ) ).num( "h", capped( c.h ) ).num( "form", c.form );
        l.str( "dir", directionName[c.dir] ).str( "grad", gradientName[c.grad] ).str( "kind", kindName[c.kind] ).num( "group", capped( c.group ) );
        l.num( "skip", capped( c.skip ) ).num( "left", capped( c.left ) ).num( "right", capped( c.right ) ).num( "contrast", c.contrast );
        l.str( "type", sizeof( T ) == 4 ? "float" : "double" );
        {
            Line before = l;
            before.s.replace( before.s.find( "\"find\"" ), 6, "\"start\"" );
            before.emit( true );
        }
        int thrown = 0;
        try {
            const EdgeParameter p( direction[c.dir], gradient[c.grad], kind[c.kind], c.group, c.skip, c.left, c.right, static_cast<uint8_t>( c.contrast ) );
            if ( c.form == 1 )
                e.find( c.im, p );
            else
                e.find( c.im, c.x, c.y, c.w, c.h, p );
        }
        catch ( const penguinVException & ) {
            thrown = 1;
        }
        catch ( ... ) {
            thrown = 2;
        }
        l.num( "t", thrown ).raw( "pos", points( e.positiveEdge() ) ).raw( "neg", points( e.negativeEdge() ) );
        l.emit();
    }

    // profiles with steps, ramps and noise, similar in neighbouring lines so that groups of lines have edges as well
    std::vector<int> profile( uint32_t n )
    {
        std::vector<int> v( n );
        const uint32_t type = rnd( 6 );
        int level = static_cast<int>( rnd( 256 ) ), slope = 0;
        for ( uint32_t i = 0; i < n; ++i ) {
            switch ( type ) {
            case 0:
                level = static_cast<int>( rnd( 256 ) );
                break;
            case 1:
                level = static_cast<int>( rnd( 12 ) );
                break;
            case 2: // steps
                if ( chance( 30 ) )
                    level = static_cast<int>( rnd( 256 ) );
                break;
            case 3: // ramps
                if ( chance( 35 ) )
                    slope = static_cast<int>( rnd( 41 ) ) - 20;
                level += slope;
                break;
            case 4: // smooth
                slope += static_cast<int>( rnd( 15 ) ) - 7;
                level += slope;
                break;
            default: // small steps
                if ( chance( 50 ) )
                    level += static_cast<int>( rnd( 9 ) ) - 4;
            }
            level = std::min( 255, std::max( 0, level ) );
            v[i] = level;
        }
        return v;
    }

    Call makeCall()
    {
        Call c;
        c.dir = static_cast<int>( rnd( 4 ) );
        c.grad = static_cast<int>( rnd( 3 ) );
        c.kind = static_cast<int>( rnd( 3 ) );
        const bool horizontal = c.dir < 2;
        const bool longer = chance( 3 ), wider = !longer && chance( 3 );
        const uint32_t along = longer ? rndIn( 200, 330 ) : wider ? rndIn( 3, 10 ) : chance( 15 ) ? rndIn( 1, 5 ) : rndIn( 4, 24 );
        const uint32_t across = wider ? rndIn( 15, chance( 50 ) ? 40 : 300 ) : rndIn( 1, 6 );
        c.w = horizontal ? along : across;
        c.h = horizontal ? across : along;
        const uint32_t W = c.w + ( chance( 50 ) ? 0 : rnd( 4 ) ), H = c.h + ( chance( 50 ) ? 0 : rnd( 4 ) );
        static const uint8_t al[] = { 1, 1, 2, 3, 4, 8 };
        c.x = rnd( W - c.w + 1 );
        c.y = rnd( H - c.h + 1 );
        c.im = Image( W, H, 1, al[rnd( 6 )] );
        const size_t n = static_cast<size_t>( c.im.rowSize() ) * H;
        for ( size_t i = 0; i < n; ++i )
            c.im.data()[i] = static_cast<uint8_t>( rnd( 256 ) );
        const bool same = chance( 60 );
        const int noise = chance( 50 ) ? 0 : static_cast<int>( rnd( 20 ) );
        std::vector<int> v = profile( along );
        for ( uint32_t k = 0; k < across; ++k ) {
            if ( !same )
                v = profile( along );
            for ( uint32_t i = 0; i < along; ++i ) {
                const int value = std::min( 255, std::max( 0, v[i] + ( noise ? static_cast<int>( rnd( 2 * static_cast<uint32_t>( noise ) + 1 ) ) - noise : 0 ) ) );
                const uint32_t px = c.x + ( horizontal ? i : k ), py = c.y + ( horizontal ? k : i );
                c.im.data()[py * c.im.rowSize() + px] = static_cast<uint8_t>( value );
            }
        }
        if ( chance( 40 ) )
            c.group = rndIn( 1, chance( 15 ) ? across + 2 : across );
        if ( chance( 40 ) )
            c.skip = rndIn( 1, across + 1 );
        if ( chance( 45 ) ) {
            c.left = rnd( longer ? 300 : 5 );
            c.right = rnd( longer && chance( 50 ) ? 50 : 5 );
            if ( chance( 6 ) )
                c.left = 0xFFFFFFFFu;
            else if ( chance( 6 ) )
                c.right = 0xFFFFFFFFu - rnd( 3 );
        }
        static const uint32_t contrasts[] = { 1, 2, 5, 10, 10, 20, 60, 128, 255 };
        c.contrast = contrasts[rnd( 9 )];
        if ( chance( 15 ) ) {
            c.form = 1;
            c.x = c.y = 0;
            c.w = W;
            c.h = H;
        }
        else if ( chance( 8 ) ) {
            switch ( rnd( 9 ) ) {
            case 0:
                c.w = W - c.x + 1;
                break;
            case 1:
                c.h = H - c.y + 1;
                break;
            case 2:
                c.x = 0xFFFFFFFFu;
                break;
            case 3:
                c.h = 0;
                break;
            case 4:
                c.group = 0;
                break;
            case 5:
                c.skip = 0;
                break;
            case 6:
                c.contrast = 0;
                break;
            case 7:
                c.group = chance( 50 ) ? 0xFFFFFFFFu : c.group + 10;
                break;
            default:
                c.im = Image( W, H, 3 );
                c.im.fill( 200 );
            }
        }
        return c;
    }

    void history()
    {
        Line( "begin" ).emit();
        EdgeDetectionBase<double> d;
        EdgeDetectionBase<float> f;
        for ( uint32_t n = rndIn( 1, 3 ); n > 0; --n ) {
            Call c = makeCall();
            if ( chance( 50 ) )
                find( d, c );
            else
                find( f, c );
            if ( chance( 30 ) ) { // the same image in another direction
                c.dir = static_cast<int>( rnd( 4 ) );
                find( d, c );
            }
        }
    }
}

int main( int argc, char ** argv )
{
    std::string path = "/dev/stdout";
    uint32_t histories = 0;
    uint64_t seed = 1;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string k = argv[i], v = argv[i + 1];
        if ( k == "--seed" )
            seed = std::stoull( v );
        else if ( k == "--out" )
            path = v;
        else if ( k == "--histories" )
            histories = static_cast<uint32_t>( std::stoul( v ) );
        else
            return 2;
    }
    rec::out() = fopen( path.c_str(), "w" );
    if ( !rec::out() )
        return 2;
    rec::genState() = seed * 0x2545F4914F6CDD1Dull;
    alarm( 200 );
    for ( uint32_t i = 0; i < histories; ++i )
        history();
    Line( "end" ).emit();
    fclose( rec::out() );
    return 0;
}
