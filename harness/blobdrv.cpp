// Runs blob detection on generated images and records what it finds and measures.
#include <algorithm>
#include <cstring>
#include <memory>

#include "blob_detection.h"
#include "penguinv_exception.h"
#include "recorder.h"

using namespace Blob_Detection;
using penguinV::Image;
using rec::chance;
using rec::Line;
using rec::rnd;
using rec::rndIn;

namespace
{
    const char * const measureName[] = { "circularity", "elongation", "height", "length", "size", "width", "center", "area", "solid" };

    // an image with the given content in the region and noise (also foreground) around it
    struct Scene
    {
        Image im;
        uint32_t x = 0, y = 0, w = 0, h = 0;
        uint8_t threshold = 1;
    };

    void record( Line & l, const Image & im )
    {
        std::vector<int> d;
        d.reserve( static_cast<size_t>( im.width() ) * im.height() );
        for ( uint32_t y = 0; y < im.height(); ++y )
            for ( uint32_t x = 0; x < im.width(); ++x )
                d.push_back( im.data()[y * im.rowSize() + x] );
        l.num( "iw", im.width() ).num( "ih", im.height() ).num( "cc", im.colorCount() );
        l.list( "d", im.colorCount() == 1 ? d : std::vector<int>() );
    }

    Scene makeScene( uint32_t w, uint32_t h, bool exact )
    {
        Scene s;
        s.w = w;
        s.h = h;
        static const uint8_t al[] = { 1, 1, 2, 3, 4, 8 };
        if ( exact ) {
            s.im = Image( w, h );
            return s;
        }
        const uint32_t W = w + ( chance( 50 ) ? 0 : rnd( 4 ) ), H = h + ( chance( 50 ) ? 0 : rnd( 4 ) );
        s.x = rnd( W - w + 1 );
        s.y = rnd( H - h + 1 );
        s.im = Image( W, H, 1, al[rnd( 6 )] );
        uint8_t * d = s.im.data();
        const size_t n = static_cast<size_t>( s.im.rowSize() ) * H;
        const uint32_t kind = rnd( 8 );
        const uint32_t density = rndIn( 15, 75 );
        for ( size_t i = 0; i < n; ++i ) {
            switch ( kind ) {
            case 0:
                d[i] = static_cast<uint8_t>( rnd( 256 ) );
                break;
            case 1:
                d[i] = 255;
                break;
            default:
                d[i] = chance( density ) ? 255 : 0;
            }
        }
        auto at = [&]( uint32_t px, uint32_t py ) -> uint8_t & { return d[( s.y + py ) * s.im.rowSize() + s.x + px]; };
        if ( kind == 2 || kind == 3 ) { // one pixel wide curves
            for ( uint32_t j = 0; j < h; ++j )
                for ( uint32_t i = 0; i < w; ++i )
                    at( i, j ) = 0;
            for ( uint32_t walks = rndIn( 1, 3 ); walks > 0; --walks ) {
                uint32_t px = rnd( w ), py = rnd( h ), dir = rnd( 8 );
                static const int dx[] = { 1, 1, 0, -1, -1, -1, 0, 1 }, dy[] = { 0, 1, 1, 1, 0, -1, -1, -1 };
                for ( uint32_t k = rndIn( 1, 30 ); k > 0; --k ) {
                    at( px, py ) = 255;
                    if ( chance( 30 ) )
                        dir = ( dir + rnd( 3 ) + 7 ) % 8;
                    px = std::min( w - 1, static_cast<uint32_t>( std::max( 0, static_cast<int>( px ) + dx[dir] ) ) );
                    py = std::min( h - 1, static_cast<uint32_t>( std::max( 0, static_cast<int>( py ) + dy[dir] ) ) );
                }
            }
        }
        else if ( kind == 4 || kind == 5 ) { // nested frames and boxes
            for ( uint32_t j = 0; j < h; ++j )
                for ( uint32_t i = 0; i < w; ++i )
                    at( i, j ) = 0;
            for ( uint32_t boxes = rndIn( 1, 4 ); boxes > 0; --boxes ) {
                const uint32_t x0 = rnd( w ), y0 = rnd( h ), x1 = rndIn( x0, w - 1 ), y1 = rndIn( y0, h - 1 ), rim = rnd( 4 );
                for ( uint32_t j = y0; j <= y1; ++j )
                    for ( uint32_t i = x0; i <= x1; ++i ) {
                        const uint32_t depth = std::min( std::min( i - x0, x1 - i ), std::min( j - y0, y1 - j ) );
                        at( i, j ) = ( rim == 0 || depth < rim || depth > rim + 1 ) ? 255 : 0;
                    }
            }
        }
        if ( kind == 0 || chance( 15 ) )
            s.threshold = static_cast<uint8_t>( rnd( 256 ) );
        return s;
    }

    struct Limits
    {
        // minimum and maximum (-1: not checked): circularity and elongation in thousandths, length in halves
        int min[6], max[6];
    };

    BlobParameters parameters( const Limits & l )
    {
        BlobParameters p;
        auto real = []( Parameter<double> & to, int lo, int hi, double scale ) {
            if ( lo != -1 && hi != -1 && chance( 50 ) )
                to.set( lo / scale, hi / scale );
            else {
                if ( lo != -1 )
                    to.setMinimum( lo / scale );
                if ( hi != -1 )
                    to.setMaximum( hi / scale );
            }
        };
        auto whole = []( Parameter<uint32_t> & to, int lo, int hi ) {
            if ( lo != -1 )
                to.setMinimum( static_cast<uint32_t>( lo ) );
            if ( hi != -1 )
                to.setMaximum( static_cast<uint32_t>( hi ) );
        };
        real( p.circularity, l.min[0], l.max[0], 1000.0 );
        real( p.elongation, l.min[1], l.max[1], 1000.0 );
        whole( p.height, l.min[2], l.max[2] );
        real( p.length, l.min[3], l.max[3], 2.0 );
        whole( p.size, l.min[4], l.max[4] );
        whole( p.width, l.min[5], l.max[5] );
        return p;
    }

    void order( Line & l, const BlobDetection & b )
    {
        std::string s = "[";
        for ( size_t i = 0; i < b.get().size(); ++i ) {
            const BlobInfo & blob = b.get()[i];
            if ( i )
                s += ",";
            s += "[" + std::to_string( blob.pointX().empty() ? -1 : static_cast<int>( blob.pointX()[0] ) ) + ","
                 + std::to_string( blob.pointY().empty() ? -1 : static_cast<int>( blob.pointY()[0] ) ) + "," + std::to_string( blob.size() ) + "]";
        }
        l.raw( "ord", s + "]" );
    }

    // whether the search took place
    bool find( BlobDetection & b, const Scene & s, const Limits & limits, int form )
    {
        std::vector<int> lo( limits.min, limits.min + 6 ), hi( limits.max, limits.max + 6 );
        Line l( "find" );
        record( l, s.im );
        l.num( "form", form ).num( "x", s.x > 1000000 ? 1000000 : s.x ).num( "y", s.y > 1000000 ? 1000000 : s.y );
        l.num( "w", s.w > 1000000 ? 1000000 : s.w ).num( "h", s.h > 1000000 ? 1000000 : s.h ).num( "th", s.threshold ).list( "lo", lo ).list( "hi", hi );
        {
            Line before = l;
            before.s.replace( before.s.find( "\"find\"" ), 6, "\"start\"" );
            before.emit( true );
        }
        int thrown = 0;
        try {
            const BlobParameters p = parameters( limits );
            const std::vector<BlobInfo> * r = nullptr;
            if ( form == 0 )
                r = &b.find( s.im, s.x, s.y, s.w, s.h, p, s.threshold );
            else
                r = &b.find( s.im, p, s.threshold );
            if ( r != &b.get() )
                thrown = 7; // the returned list is the list
        }
        catch ( const penguinVException & ) {
            thrown = 1;
        }
        catch ( ... ) {
            thrown = 2;
        }
        l.num( "t", thrown );
        std::string res = "[";
        for ( size_t i = 0; i < b.get().size(); ++i ) {
            const BlobInfo & blob = b.get()[i];
            Line one( "x" );
            one.s.clear();
            one.s += i ? ",{\"px\":" : "{\"px\":";
            one.append( blob.pointX() );
            one.list( "py", blob.pointY() ).list( "cx", blob.contourX() ).list( "cy", blob.contourY() ).list( "ex", blob.edgeX() ).list( "ey", blob.edgeY() );
            res += one.s + "}";
        }
        l.raw( "res", res + "]" );
        l.emit();
        return thrown == 0;
    }

    // reads a measure through the accessor which calculates it, then through the constant one
    void measure( BlobDetection & b, size_t i, int m )
    {
        BlobInfo & blob = chance( 50 ) ? b.get()[i] : b()[i];
        const BlobInfo & same = blob;
        Line l( "measure" );
        l.num( "i", static_cast<int64_t>( i ) + 1 ).str( "m", measureName[m] );
        std::vector<int64_t> v, again;
        switch ( m ) {
        case 0:
            v = { rec::scaled( blob.circularity(), 1000 ) };
            again = { rec::scaled( same.circularity(), 1000 ) };
            break;
        case 1:
            v = { rec::scaled( blob.elongation(), 1000 ) };
            again = { rec::scaled( same.elongation(), 1000 ) };
            break;
        case 2:
            v = { blob.height() };
            again = { same.height() };
            break;
        case 3: {
            // the square, when it is a whole number as it has to be
            const double q = blob.length() * blob.length();
            v = { std::fabs( q - std::round( q ) ) < 1e-6 * std::max( 1.0, q ) ? rec::scaled( q, 1 ) : -1 };
            const double q2 = same.length() * same.length();
            again = { std::fabs( q2 - std::round( q2 ) ) < 1e-6 * std::max( 1.0, q2 ) ? rec::scaled( q2, 1 ) : -1 };
            break;
        }
        case 4:
            v = { static_cast<int64_t>( blob.size() ) };
            again = v;
            break;
        case 5:
            v = { blob.width() };
            again = { same.width() };
            break;
        case 6: {
            const Point2d p = blob.center();
            v = { rec::scaled( p.x, 1000 ), rec::scaled( p.y, 1000 ) };
            again = { rec::scaled( same.center().x, 1000 ), rec::scaled( same.center().y, 1000 ) };
            break;
        }
        case 7: {
            const Area a = blob.area();
            v = { a.left, a.right, a.top, a.bottom };
            again = { same.area().left, same.area().right, same.area().top, same.area().bottom };
            break;
        }
        default:
            v = { blob.isSolid() ? 1 : 0 };
            again = v;
        }
        l.list( "v", v ).list( "v2", again );
        l.emit();
    }

    BlobDetection::BlobCriterion criterion( int c )
    {
        switch ( c ) {
        case 0:
            return BlobDetection::BlobCriterion::BY_CIRCULARITY;
        case 1:
            return BlobDetection::BlobCriterion::BY_ELONGATION;
        case 2:
            return BlobDetection::BlobCriterion::BY_HEIGHT;
        case 3:
            return BlobDetection::BlobCriterion::BY_LENGTH;
        case 4:
            return BlobDetection::BlobCriterion::BY_SIZE;
        default:
            return BlobDetection::BlobCriterion::BY_WIDTH;
        }
    }

    // sorting and selection use the measures which were calculated before
    void prepare( BlobDetection & b, int c, const Limits & limits )
    {
        if ( limits.min[c] == -1 && limits.max[c] == -1 )
            for ( size_t i = 0; i < b.get().size(); ++i )
                measure( b, i, c );
    }

    void sortBy( BlobDetection & b, int c )
    {
        b.sort( criterion( c ) );
        Line l( "sort" );
        l.str( "m", measureName[c] );
        order( l, b );
        l.emit();
    }

    void best( const BlobDetection & b, int c )
    {
        const BlobInfo & blob = b.getBestBlob( criterion( c ) );
        Line l( "best" );
        l.str( "m", measureName[c] ).num( "i", static_cast<int64_t>( &blob - b.get().data() ) + 1 );
        order( l, b );
        l.emit();
    }

    Limits noLimits()
    {
        Limits l;
        for ( int i = 0; i < 6; ++i )
            l.min[i] = l.max[i] = -1;
        return l;
    }

    Limits someLimits()
    {
        Limits l = noLimits();
        const uint32_t many = chance( 30 ) ? 60 : 25;
        for ( int i = 0; i < 6; ++i ) {
            if ( chance( many ) ) {
                static const uint32_t top[] = { 900, 4000, 6, 14, 12, 6 };
                l.min[i] = static_cast<int>( rnd( top[i] / ( chance( 50 ) ? 2 : 1 ) + 1 ) );
            }
            if ( chance( many ) ) {
                static const uint32_t top[] = { 1000, 5000, 9, 22, 30, 9 };
                l.max[i] = static_cast<int>( rnd( top[i] + 1 ) );
                if ( l.min[i] != -1 && l.max[i] < l.min[i] && !chance( 8 ) )
                    std::swap( l.min[i], l.max[i] );
            }
            if ( l.min[i] != -1 && l.max[i] == -1 && chance( 10 ) )
                l.max[i] = l.min[i];
        }
        return l;
    }

    void history( bool limited )
    {
        Line( "begin" ).emit();
        BlobDetection b;
        for ( uint32_t rounds = rndIn( 1, 2 ); rounds > 0; --rounds ) {
            const uint32_t side = chance( 30 ) ? 5 : 11;
            Scene s = makeScene( rndIn( 1, side + 2 ), rndIn( 1, side ), false );
            int form = 0;
            if ( chance( 20 ) ) {
                s.x = s.y = 0;
                s.w = s.im.width();
                s.h = s.im.height();
                form = 1;
            }
            else if ( chance( 6 ) ) { // an invalid region or image
                switch ( rnd( 6 ) ) {
                case 0:
                    s.w = s.im.width() - s.x + 1;
                    break;
                case 1:
                    s.h = s.im.height() - s.y + 1;
                    break;
                case 2:
                    s.x = 0xFFFFFFFFu;
                    break;
                case 3:
                    s.w = 0;
                    break;
                case 4:
                    s.y = 0x80000000u;
                    break;
                default:
                    s.im = Image( s.im.width(), s.im.height(), 3 );
                    s.im.fill( 255 );
                }
            }
            Limits limits = limited ? someLimits() : noLimits();
            if ( !find( b, s, limits, form ) )
                limits = noLimits(); // the blobs are those of an earlier search, if any
            if ( limited && b.get().empty() )
                continue;
            for ( uint32_t n = rnd( limited ? 7 : 10 ); n > 0 && !b.get().empty(); --n ) {
                const int c = static_cast<int>( rnd( 6 ) );
                switch ( rnd( limited ? 3 : 6 ) ) {
                case 0:
                    prepare( b, c, limits );
                    sortBy( b, c );
                    break;
                case 1:
                    prepare( b, c, limits );
                    best( b, c );
                    break;
                default:
                    measure( b, rnd( static_cast<uint32_t>( b.get().size() ) ), static_cast<int>( rnd( 9 ) ) );
                }
            }
        }
    }

    // long and thin regions; circularity and elongation are not looked at
    void thin()
    {
        Line( "begin" ).emit();
        BlobDetection b;
        const uint32_t side = rndIn( 1, 4 ), length = chance( 70 ) ? rndIn( 200, 330 ) : rndIn( 60, 450 );
        const bool vertical = chance( 50 );
        Scene s = makeScene( vertical ? side : length, vertical ? length : side, false );
        if ( chance( 40 ) ) // few gaps
            for ( uint32_t j = 0; j < s.h; ++j )
                for ( uint32_t i = 0; i < s.w; ++i )
                    s.im.data()[( s.y + j ) * s.im.rowSize() + s.x + i] = ( ( vertical ? j : i ) % rndIn( 90, 400 ) ) == 0 ? 0 : 255;
        Limits limits = noLimits();
        if ( chance( 40 ) ) {
            limits.min[chance( 50 ) ? ( vertical ? 2 : 5 ) : 4] = static_cast<int>( rndIn( 1, 300 ) );
            if ( chance( 30 ) )
                limits.max[vertical ? 2 : 5] = static_cast<int>( rndIn( 200, 400 ) );
        }
        if ( !find( b, s, limits, 0 ) || b.get().empty() )
            return;
        for ( uint32_t n = rnd( 8 ); n > 0; --n )
            measure( b, rnd( static_cast<uint32_t>( b.get().size() ) ), 2 + static_cast<int>( rnd( 7 ) ) );
        const int c = chance( 50 ) ? ( chance( 50 ) ? 2 : 5 ) : chance( 50 ) ? 3 : 4;
        prepare( b, c, limits );
        if ( chance( 50 ) )
            best( b, c );
        sortBy( b, c );
    }

    // every image of w x h pixels whose number is from, from + step, ..
    void enumerate( uint32_t w, uint32_t h, uint64_t from, uint64_t step, uint64_t count )
    {
        Line( "begin" ).emit();
        BlobDetection b;
        const uint64_t all = 1ull << ( w * h );
        for ( uint64_t k = from; k < all && count > 0; k += step, --count ) {
            Scene s = makeScene( w, h, true );
            for ( uint32_t i = 0; i < w * h; ++i )
                s.im.data()[i] = ( k >> i ) & 1 ? 255 : 0;
            find( b, s, noLimits(), static_cast<int>( k & 1 ) );
            for ( size_t i = 0; i < b.get().size(); ++i )
                for ( int m = 0; m < 9; ++m )
                    measure( b, i, m );
        }
    }

    // a line of pixels so long that squares and sums of coordinates need more than 32 bits
    void longLine( bool vertical )
    {
        Line( "begin" ).emit();
        const uint32_t n = rndIn( 66000, 72000 );
        Image im( vertical ? 1 : n, vertical ? n : 1 );
        im.fill( 255 );
        BlobDetection b;
        b.find( im );
        Line l( "line" );
        l.num( "n", n ).num( "count", static_cast<int64_t>( b.get().size() ) );
        if ( !b.get().empty() ) {
            BlobInfo & blob = b.get()[0];
            l.num( "size", static_cast<int64_t>( blob.size() ) ).num( "length", rec::scaled( blob.length(), 1 ) );
            l.num( "centre", rec::scaled( vertical ? blob.center().y : blob.center().x, 2 ) ).num( "other", rec::scaled( vertical ? blob.center().x : blob.center().y, 2 ) );
            l.num( "w", vertical ? blob.height() : blob.width() );
        }
        l.emit();
    }
}

int main( int argc, char ** argv )
{
    std::string path = "/dev/stdout";
    uint32_t histories = 0, limited = 0, lines = 0, thins = 0, w = 0, h = 0;
    uint64_t seed = 1, from = 0, step = 1, count = 0;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string k = argv[i], v = argv[i + 1];
        if ( k == "--seed" )
            seed = std::stoull( v );
        else if ( k == "--out" )
            path = v;
        else if ( k == "--histories" )
            histories = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--limited" )
            limited = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--thin" )
            thins = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--lines" )
            lines = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--w" )
            w = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--h" )
            h = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--from" )
            from = std::stoull( v );
        else if ( k == "--step" )
            step = std::stoull( v );
        else if ( k == "--count" )
            count = std::stoull( v );
        else
            return 2;
    }
    rec::out() = fopen( path.c_str(), "w" );
    if ( !rec::out() )
        return 2;
    rec::genState() = seed * 0x2545F4914F6CDD1Dull;
    alarm( 200 );
    for ( uint32_t i = 0; i < histories; ++i )
        history( false );
    for ( uint32_t i = 0; i < limited; ++i )
        history( true );
    for ( uint32_t i = 0; i < thins; ++i )
        thin();
    if ( count > 0 )
        enumerate( w, h, from, step, count );
    for ( uint32_t i = 0; i < lines; ++i )
        longLine( i % 2 != 0 );
    Line( "end" ).emit();
    fclose( rec::out() );
    return 0;
}
