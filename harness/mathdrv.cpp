// Calls the transforms, the light correction, the geometry and the Fourier transform with random inputs and records the results.
#include <array>
#include <cstring>
#include <functional>
#include <list>
#include <memory>

#include "fft.h"
#include "filtering.h"
#include "image_buffer.h"
#include "math/haar_transform.h"
#include "math/hough_transform.h"
#include "math/math_base.h"
#include "penguinv_exception.h"
#include "recorder.h"
#include "tool/light_correction.h"

using penguinV::Image;
using rec::chance;
using rec::Line;
using rec::rnd;
using rec::rndIn;
using rec::scaled;

namespace
{
    using Ints = std::vector<int64_t>;

    int in( int a, int b )
    {
        return a + static_cast<int>( rnd( static_cast<uint32_t>( b - a + 1 ) ) );
    }

    int caught( const std::function<void()> & f )
    {
        try {
            f();
        }
        catch ( const penguinVException & ) {
            return 1;
        }
        catch ( ... ) {
            return 2;
        }
        return 0;
    }

    // ------------------------------------------------------------------ Haar and Hough
    template <typename T>
    void haar()
    {
        size_t w = 2 * rndIn( 1, 4 ), h = 2 * rndIn( 1, 4 );
        if ( chance( 2 ) )
            ( chance( 50 ) ? w : h ) = 2 * rndIn( 20, 140 );
        size_t n = w * h;
        switch ( rnd( 12 ) ) {
        case 0:
            w += 1;
            n = w * h;
            break;
        case 1:
            h += 1;
            n = w * h;
            break;
        case 2:
            n += in( -1, 1 );
            break;
        case 3:
            w = 0;
            n = chance( 50 ) ? 0 : n;
            break;
        case 4:
            std::swap( n, w );
            break;
        default:;
        }
        const bool inverse = chance( 50 ), same = chance( 25 );
        const int top = chance( 50 ) ? 255 : 10000;
        std::vector<T> v( n ), out( chance( 94 ) ? n : n + 1 ), back;
        Ints given( n );
        for ( size_t i = 0; i < n; ++i )
            v[i] = static_cast<T>( given[i] = sizeof( T ) == 4 ? in( -255, 255 ) : in( -top, top ) );
        for ( T & x : out )
            x = 7;
        std::vector<T> & to = same && out.size() == n ? v : out;
        const size_t outSize = to.size();
        const std::vector<T> before = to;
        const int t = caught( [&]() { inverse ? Image_Function::HaarInverseTransform( v, to, w, h ) : Image_Function::HaarDirectTransform( v, to, w, h ); } );
        Line l( "haar" );
        l.num( "w", static_cast<int64_t>( w ) ).num( "h", static_cast<int64_t>( h ) ).num( "inverse", inverse ).num( "outSize", static_cast<int64_t>( outSize ) );
        l.str( "ty", sizeof( T ) == 4 ? "float" : "double" ).num( "same", &to == &v ).list( "v", given ).num( "t", t ).num( "kept", to == before );
        Ints r, again;
        if ( t == 0 ) {
            for ( const T x : to )
                r.push_back( scaled( x, 1000 ) );
            back.resize( n );
            if ( caught( [&]() { inverse ? Image_Function::HaarDirectTransform( to, back, w, h ) : Image_Function::HaarInverseTransform( to, back, w, h ); } ) == 0 )
                for ( const T x : back )
                    again.push_back( scaled( x, 1000 ) );
        }
        l.list( "r", r ).list( "back", again ).emit();
    }

    template <typename T>
    std::string pointsOf( const std::vector<PointBase2D<T>> & v )
    {
        std::string s = "[";
        for ( size_t i = 0; i < v.size(); ++i )
            s += ( i ? ",[" : "[" ) + std::to_string( scaled( v[i].x, 8 ) ) + "," + std::to_string( scaled( v[i].y, 8 ) ) + "]";
        return s + "]";
    }

    template <typename T>
    void hough()
    {
        const double degree = std::acos( -1.0 ) / 180;
        // thousandths of a degree
        const int initial = in( -180, 180 ) * 500, step = chance( 15 ) ? 1 : in( 1, 60 ) * 50;
        const int sides = in( 0, chance( 30 ) ? 12 : 4 );
        const int tolerance = sides == 0 ? rnd( 2 ) * step / 2 : sides * step + ( chance( 30 ) && step > 3 ? step / 4 : 0 );
        const int perSide = std::max( 1, ( 2 * std::max( tolerance, step ) + step ) / ( 2 * step ) );
        const double lineTolerance = rnd( 4 ) == 0 ? 0 : rndIn( 1, 40 ) / 8.0;
        std::vector<PointBase2D<T>> pts;
        const uint32_t n = chance( 6 ) ? rnd( 2 ) : chance( 3 ) ? rndIn( 30, 70 ) : rndIn( 2, 14 );
        const double angle = ( initial + in( -perSide, perSide ) * step ) / 1000.0 * degree;
        const int x0 = in( -60, 60 ), y0 = in( -60, 60 );
        for ( uint32_t i = 0; i < n; ++i ) {
            if ( i > 0 && chance( 10 ) )
                pts.push_back( pts[rnd( i )] );
            else if ( chance( 60 ) ) {
                const double far = in( -60, 60 ), off = chance( 50 ) ? 0 : in( -8, 8 ) / 8.0 * lineTolerance;
                pts.emplace_back( static_cast<T>( std::round( 8 * ( x0 + far * std::cos( angle ) - off * std::sin( angle ) ) ) / 8 ),
                                  static_cast<T>( std::round( 8 * ( y0 + far * std::sin( angle ) + off * std::cos( angle ) ) ) / 8 ) );
            }
            else
                pts.emplace_back( static_cast<T>( in( -800, 800 ) / 8.0 ), static_cast<T>( in( -800, 800 ) / 8.0 ) );
        }
        std::string dirs = "[";
        for ( int k = -perSide; k <= perSide; ++k ) {
            const double a = -( initial + k * step ) / 1000.0 * degree;
            dirs += ( k > -perSide ? ",[" : "[" ) + std::to_string( scaled( std::sin( a ), 65536 ) ) + "," + std::to_string( scaled( std::cos( a ), 65536 ) ) + "]";
        }
        std::vector<PointBase2D<T>> on( rnd( 3 ) ), off( rnd( 3 ) );
        bool found = false;
        const int t = caught( [&]() {
            found = Image_Function::HoughTransform( pts, static_cast<T>( initial / 1000.0 * degree ), static_cast<T>( tolerance / 1000.0 * degree ), static_cast<T>( step / 1000.0 * degree ),
                                                    static_cast<T>( lineTolerance ), on, off );
        } );
        Line l( "hough" );
        l.str( "ty", sizeof( T ) == 4 ? "float" : "double" ).num( "initial", initial ).num( "tolerance", tolerance ).num( "step", step ).num( "line", scaled( lineTolerance, 8 * 65536 ) );
        l.raw( "pts", pointsOf( pts ) ).raw( "dirs", dirs + "]" ).num( "t", t ).num( "found", found ).raw( "on", pointsOf( on ) ).raw( "off", pointsOf( off ) ).emit();
    }

    // ------------------------------------------------------------------ light correction
    Image lightImage( uint32_t w, uint32_t h, uint8_t cc )
    {
        Image im( w, h, cc, static_cast<uint8_t>( 1u << rnd( 4 ) ) );
        const uint32_t style = rnd( 5 );
        for ( size_t i = 0; i < static_cast<size_t>( im.rowSize() ) * h; ++i )
            im.data()[i] = static_cast<uint8_t>( style == 0 ? rnd( 256 ) : style == 1 ? rnd( 3 ) * 127 + rnd( 2 ) : style == 2 ? 100 + rnd( 100 ) : style == 3 ? rnd( 6 ) : chance( 20 ) ? rnd( 2 ) * 255 : 40 );
        return im;
    }
    std::vector<int> valuesOf( const Image & im )
    {
        std::vector<int> v;
        for ( uint32_t y = 0; y < im.height(); ++y )
            for ( uint32_t x = 0; x < im.width() * im.colorCount(); ++x )
                v.push_back( im.data()[static_cast<size_t>( y ) * im.rowSize() + x] );
        return v;
    }
    uint64_t padding( const Image & im )
    {
        uint64_t s = 1;
        for ( uint32_t y = 0; y < im.height(); ++y )
            for ( uint32_t x = im.width() * im.colorCount(); x < im.rowSize(); ++x )
                s = s * 1099511628211ull + im.data()[static_cast<size_t>( y ) * im.rowSize() + x];
        return s;
    }
    std::string json( const Image & im )
    {
        Line l( "" );
        l.num( "w", im.width() ).num( "h", im.height() ).num( "cc", im.colorCount() ).num( "rs", im.rowSize() ).list( "d", valuesOf( im ) );
        return "{" + l.s.substr( l.s.find( ',' ) + 1 ) + "}";
    }

    void light()
    {
        Line( "begin" ).emit();
        LightCorrection corrector;
        uint32_t w = rndIn( 1, 9 ), h = rndIn( 1, 6 );
        if ( chance( 3 ) ) {
            w = rndIn( 1, 3 );
            h = rndIn( 100, 300 );
            if ( chance( 50 ) )
                std::swap( w, h );
        }
        for ( uint32_t n = rndIn( 2, 9 ); n > 0; --n ) {
            const uint8_t cc = chance( 93 ) ? 1 : chance( 50 ) ? 3 : 4;
            const bool other = chance( 15 );
            const uint32_t iw = other ? rndIn( 1, 11 ) : w, ih = other ? rndIn( 1, 8 ) : h;
            Image im = chance( 2 ) ? Image() : lightImage( iw, ih, cc );
            const uint32_t what = rnd( 10 );
            if ( what < 3 ) {
                const std::string before = json( im );
                const int t = caught( [&]() { corrector.analyze( im ); } );
                Line( "analyse" ).raw( "im", before ).num( "t", t ).emit();
                w = iw;
                h = ih;
            }
            else if ( what < 8 ) {
                const std::string before = json( im );
                const uint64_t pad = padding( im );
                const bool whole = chance( 30 );
                uint32_t rw = im.width() ? rndIn( 1, im.width() ) : 1, rh = im.height() ? rndIn( 1, im.height() ) : 1;
                uint32_t x = im.width() ? rnd( im.width() - rw + 1 ) : 0, y = im.height() ? rnd( im.height() - rh + 1 ) : 0;
                if ( !whole && chance( 8 ) )
                    ( chance( 50 ) ? rw : rh ) += in( -1, 3 );
                if ( !whole && chance( 3 ) )
                    ( chance( 50 ) ? x : y ) = 0xFFFFFFFFu - rnd( 4 );
                const int t = caught( [&]() { whole ? corrector.correct( im ) : corrector.correct( im, x, y, rw, rh ); } );
                auto cap = []( uint32_t v ) { return v > 1000000u ? 1000000u : v; };
                Line l( "correct" );
                l.raw( "im", before ).num( "whole", whole ).num( "x", whole ? 0 : cap( x ) ).num( "y", whole ? 0 : cap( y ) );
                l.num( "w", whole ? im.width() : cap( rw ) ).num( "h", whole ? im.height() : cap( rh ) );
                l.num( "t", t ).list( "r", valuesOf( im ) ).num( "pad", pad == padding( im ) ).emit();
            }
            else {
                std::vector<PointBase2D<uint32_t>> found;
                const int t = caught( [&]() { found = corrector.findIncorrectPixels( im ); } );
                Ints at;
                for ( const auto & p : found )
                    at.push_back( p.x < im.width() && p.y < im.height() ? static_cast<int64_t>( p.y ) * im.width() + p.x + 1 : 0 );
                Line( "find" ).raw( "im", json( im ) ).num( "t", t ).list( "found", at ).emit();
            }
        }
    }

    // ------------------------------------------------------------------ geometry
    struct Exact
    {
        int x, y, dx, dy, n;
        std::string json() const
        {
            return "{\"x\":" + std::to_string( x ) + ",\"y\":" + std::to_string( y ) + ",\"dx\":" + std::to_string( dx ) + ",\"dy\":" + std::to_string( dy ) + ",\"n\":" + std::to_string( n ) + "}";
        }
    };
    Exact exactLine()
    {
        static const int d[][3] = { { 1, 0, 1 }, { 3, 4, 5 }, { 5, 12, 13 }, { 8, 15, 17 }, { 7, 24, 25 }, { 20, 21, 29 }, { 1, 0, 1 }, { 3, 4, 5 } };
        const int * k = d[rnd( 8 )];
        int dx = k[0] * ( chance( 50 ) ? -1 : 1 ), dy = k[1] * ( chance( 50 ) ? -1 : 1 );
        if ( chance( 50 ) )
            std::swap( dx, dy );
        return { in( -20, 20 ), in( -20, 20 ), dx, dy, k[2] };
    }
    // the line, made in one of the ways
    template <typename T>
    LineBase2D<T> make( Exact & m )
    {
        using P = PointBase2D<T>;
        const P at( static_cast<T>( m.x ), static_cast<T>( m.y ) );
        const T angle = static_cast<T>( std::atan2( m.dy, m.dx ) ) + ( chance( 20 ) ? static_cast<T>( 2 * pvmath::pi ) : 0 );
        const int k = in( 1, 3 );
        const P end( static_cast<T>( m.x + k * m.dx ), static_cast<T>( m.y + k * m.dy ) );
        switch ( rnd( 6 ) ) {
        case 0:
        case 1:
            return LineBase2D<T>( at, end );
        case 2:
            return LineBase2D<T>( at, angle );
        case 3: {
            const P off( static_cast<T>( in( -9, 9 ) ), static_cast<T>( in( -9, 9 ) ) );
            return LineBase2D<T>( at - off, end - off ) + off;
        }
        case 4: {
            const P off( static_cast<T>( in( -9, 9 ) ), static_cast<T>( in( -9, 9 ) ) );
            LineBase2D<T> l( at - off, angle );
            l += off;
            return l;
        }
        default:
            if ( chance( 70 ) )
                return LineBase2D<T>( at, end );
            m.dx = 1;
            m.dy = 0;
            m.n = 1;
            return LineBase2D<T>( at, at ); // no direction given
        }
    }
    template <typename P>
    std::string two( const P & p, double scale = 1000 )
    {
        return "[" + std::to_string( scaled( p.x, scale ) ) + "," + std::to_string( scaled( p.y, scale ) ) + "]";
    }
    std::string heading( double angle )
    {
        return "[" + std::to_string( scaled( std::cos( angle ), 1000 ) ) + "," + std::to_string( scaled( std::sin( angle ), 1000 ) ) + "]";
    }
    template <typename T>
    const char * typeName()
    {
        return sizeof( T ) == 4 ? "float" : "double";
    }

    template <typename T>
    void lines()
    {
        Exact m = exactLine();
        const LineBase2D<T> a = make<T>( m );
        if ( chance( 50 ) ) {
            const int px = in( -20, 20 ), py = in( -20, 20 );
            const PointBase2D<T> p( static_cast<T>( px ), static_cast<T>( py ) );
            Line l( "line" );
            l.str( "ty", typeName<T>() ).raw( "m", m.json() ).num( "px", px ).num( "py", py ).num( "dist", scaled( a.distance( p ), 1000 ) );
            l.raw( "foot", two( a.projection( p ) ) ).raw( "opp", two( a.opposite( p ) ) ).raw( "pos", two( a.position() ) ).raw( "cs", heading( a.angle() ) ).emit();
            return;
        }
        Exact k = exactLine();
        if ( chance( 40 ) ) { // parallel or even the same
            const int s = chance( 50 ) ? -1 : 1, far = chance( 60 ) ? in( -2, 2 ) : 0;
            k = { m.x + s * far * m.dx, m.y + s * far * m.dy, s * m.dx, s * m.dy, m.n };
            if ( std::abs( k.x ) > 40 || std::abs( k.y ) > 40 )
                k.x = m.x, k.y = m.y;
            if ( chance( 40 ) )
                k.x += in( -3, 3 );
        }
        const LineBase2D<T> b = make<T>( k );
        PointBase2D<T> at( 77, 77 );
        const bool hit = a.intersection( b, at );
        Line l( "pair" );
        l.str( "ty", typeName<T>() ).raw( "m", m.json() ).raw( "k", k.json() ).num( "parallel", a.isParallel( b ) ).num( "intersect", a.isIntersect( b ) ).num( "hit", hit );
        l.raw( "at", two( at ) ).num( "equal", a == b ).emit();
    }

    template <typename T>
    void fit()
    {
        const Exact m = exactLine();
        const uint32_t style = rnd( 3 );
        const uint32_t n = chance( 8 ) ? rnd( 2 ) : style != 2 && chance( 8 ) ? rndIn( 9, 24 ) : rndIn( 2, 8 );
        Ints xs, ys;
        std::vector<PointBase2D<T>> v;
        for ( uint32_t i = 0; i < n; ++i ) {
            const int k = in( -1, 1 );
            xs.push_back( style == 0 ? m.x + k * m.dx : style == 1 ? in( -20, 20 ) : in( -3, 3 ) + 4 * static_cast<int>( i ) );
            ys.push_back( style == 0 ? m.y + k * m.dy : style == 1 ? in( -20, 20 ) : in( -2, 2 ) );
            if ( style == 2 && m.dx < 0 )
                std::swap( xs.back(), ys.back() );
            v.emplace_back( static_cast<T>( xs.back() ), static_cast<T>( ys.back() ) );
        }
        LineBase2D<T> r;
        const int t = caught( [&]() {
            if ( chance( 50 ) )
                r = LineBase2D<T>::template bestFittingLine<std::vector>( v );
            else
                r = LineBase2D<T>::template bestFittingLine<std::list>( std::list<PointBase2D<T>>( v.begin(), v.end() ) );
        } );
        Line( "fit" ).str( "ty", typeName<T>() ).list( "xs", xs ).list( "ys", ys ).num( "t", t ).raw( "pos", two( r.position() ) ).raw( "cs", heading( r.angle() ) ).emit();
    }

    template <typename T>
    void points2()
    {
        using P = PointBase2D<T>;
        const int lo = std::is_unsigned<T>::value ? 0 : -9;
        const Ints b{ in( lo, 9 ), in( lo, 9 ) }, a{ chance( 60 ) ? b[0] : in( 9, 20 ), chance( 60 ) ? b[1] : in( 9, 20 ) };
        const P p( static_cast<T>( a[0] ), static_cast<T>( a[1] ) ), q( static_cast<T>( b[0] ), static_cast<T>( b[1] ) );
        P s = p, d = p;
        s += q;
        d -= q;
        const int f = in( lo, 9 );
        Line( "points" )
            .str( "ty", std::is_floating_point<T>::value ? typeName<T>() : "int" )
            .num( "dim", 2 )
            .list( "a", a )
            .list( "b", b )
            .num( "f", f )
            .raw( "plus", two( p + q, 1 ) )
            .raw( "minus", two( p - q, 1 ) )
            .raw( "added", two( s, 1 ) )
            .raw( "subtracted", two( d, 1 ) )
            .num( "eq", p == q )
            .num( "ne", p != q )
            .raw( "times", two( p * static_cast<T>( f ), 1 ) )
            .raw( "timesLeft", two( f * p, 1 ) )
            .emit();
    }
    template <typename T>
    std::string three( const PointBase3D<T> & p )
    {
        return "[" + std::to_string( scaled( p.x, 1 ) ) + "," + std::to_string( scaled( p.y, 1 ) ) + "," + std::to_string( scaled( p.z, 1 ) ) + "]";
    }
    template <typename T>
    void points3()
    {
        using P = PointBase3D<T>;
        const Ints b{ in( -9, 9 ), in( -9, 9 ), in( -9, 9 ) }, a{ chance( 70 ) ? b[0] : in( -9, 9 ), chance( 70 ) ? b[1] : in( -9, 9 ), chance( 70 ) ? b[2] : in( -9, 9 ) };
        const P p( static_cast<T>( a[0] ), static_cast<T>( a[1] ), static_cast<T>( a[2] ) ), q( static_cast<T>( b[0] ), static_cast<T>( b[1] ), static_cast<T>( b[2] ) );
        P s = p, d = p;
        s += q;
        d -= q;
        Line( "points" )
            .str( "ty", std::is_floating_point<T>::value ? typeName<T>() : "int" )
            .num( "dim", 3 )
            .list( "a", a )
            .list( "b", b )
            .num( "f", 0 )
            .raw( "plus", three( p + q ) )
            .raw( "minus", three( p - q ) )
            .raw( "added", three( s ) )
            .raw( "subtracted", three( d ) )
            .num( "eq", p == q )
            .num( "ne", p != q )
            .raw( "times", "[]" )
            .raw( "timesLeft", "[]" )
            .emit();
    }

    void linearSystem()
    {
        const bool bigger = chance( 10 );
        const size_t n = chance( 4 ) ? rnd( 2 ) : bigger ? rndIn( 5, 8 ) : rndIn( 2, 4 );
        std::vector<int> m( n * n + ( chance( 4 ) ? 1 : 0 ) ), x( n );
        const uint32_t style = n > 4 ? 1 : rnd( 4 );
        for ( int & c : m )
            c = style == 0 ? in( -9, 9 ) : style == 1 ? in( -1, 1 ) : style == 2 && chance( 60 ) ? 0 : in( -4, 20 );
        if ( n > 1 && chance( 20 ) ) // dependent rows
            for ( size_t i = 0; i < n; ++i )
                m[i] = ( n > 2 ? m[i + 2 * n] : 0 ) + 2 * m[i + n];
        if ( n > 1 && style == 1 && m.size() == n * n && ( n > 4 || chance( 50 ) ) ) { // a permutation: every pivot is elsewhere
            std::fill( m.begin(), m.end(), 0 );
            std::vector<size_t> p( n );
            for ( size_t i = 0; i < n; ++i )
                p[i] = i;
            for ( size_t i = n; i > 1; --i )
                std::swap( p[i - 1], p[rnd( static_cast<uint32_t>( i ) )] );
            for ( size_t i = 0; i < n; ++i )
                m[i * n + p[i]] = n > 4 ? in( 1, 4 ) : in( 1, 9 );
            if ( n > 4 )
                for ( size_t i = 0; i < n * n; ++i )
                    if ( m[i] == 0 && chance( 15 ) )
                        m[i] = in( -1, 1 );
        }
        Ints b;
        for ( size_t i = 0; i < n; ++i )
            b.push_back( in( -20, 20 ) );
        std::vector<double> dm( m.begin(), m.end() ), db( b.begin(), b.end() ), roots( chance( 60 ) ? n : rnd( 6 ), 3.5 );
        std::string rows = "[";
        if ( m.size() == n * n )
            for ( size_t i = 0; i < n; ++i ) {
                rows += i ? ",[" : "[";
                for ( size_t j = 0; j < n; ++j )
                    rows += ( j ? "," : "" ) + std::to_string( m[i * n + j] );
                rows += "]";
            }
        const int t = caught( [&]() { pvmath::getMatrixRoots( dm, db, roots ); } );
        Ints r;
        if ( t == 0 )
            for ( const double v : roots )
                r.push_back( scaled( v, 1000 ) );
        Line( "system" ).raw( "m", rows + "]" ).num( "cells", static_cast<int64_t>( m.size() ) ).list( "b", b ).num( "t", t ).list( "r", r ).emit();
    }

    template <typename T>
    void closeness()
    {
        const T eps = sizeof( T ) == 4 ? static_cast<T>( 1e-5 ) : static_cast<T>( 1e-9 );
        const int times = chance( 50 ) ? 1 : in( 1, 12 );
        int q = chance( 50 ) ? in( -10, 10 ) : 4 * times + in( -2, 2 );
        if ( std::abs( q ) == 4 * times )
            ++q;
        const T a = static_cast<T>( in( -2, 2 ) ), b = a + eps * static_cast<T>( q ) / 4;
        const bool eq = times == 1 && chance( 50 ) ? pvmath::isEqual<T>( a, b ) : pvmath::isEqual<T>( a, b, static_cast<T>( times ) );
        Line( "close" ).str( "ty", typeName<T>() ).num( "quarters", q ).num( "times", times ).num( "eq", eq ).emit();
    }

    void geometry()
    {
        switch ( rnd( 16 ) ) {
        case 0:
            chance( 50 ) ? points2<double>() : points2<float>();
            break;
        case 1:
            chance( 50 ) ? points2<int>() : points2<uint32_t>();
            break;
        case 2:
            chance( 50 ) ? points3<double>() : points3<int>();
            break;
        case 3:
        case 4:
        case 5:
            linearSystem();
            break;
        case 6: {
            const int k = in( -720, 720 );
            const double r = pvmath::toRadians( k );
            Line( "degrees" ).num( "k", k ).num( "rad", scaled( r, 1e6 ) ).num( "back", scaled( pvmath::toDegrees( r ), 1000 ) ).emit();
            break;
        }
        case 7:
            chance( 50 ) ? closeness<double>() : closeness<float>();
            break;
        case 8:
        case 9:
            chance( 70 ) ? fit<double>() : fit<float>();
            break;
        default:
            chance( 70 ) ? lines<double>() : lines<float>();
        }
    }

    // ------------------------------------------------------------------ Fourier transform
    using FFT::ComplexData;
    using FFT::FFTExecutor;

    struct Fourier
    {
        std::array<std::unique_ptr<ComplexData>, 4> arrays;
        std::array<std::unique_ptr<FFTExecutor>, 4> execs;
        std::array<double, 4> bound{}; // of the values; bigger ones are not worth it
        std::array<int, 4> kind{}; // 0: nothing, 1: picture, 2: spectrum, 3: undefined
        uint32_t w = 1, h = 1;

        double area( size_t s ) const
        {
            return static_cast<double>( arrays[s]->width() ) * arrays[s]->height();
        }
        void size( uint32_t & x, uint32_t & y ) const
        {
            x = w;
            y = h;
            if ( chance( 8 ) )
                std::swap( x, y );
            if ( chance( 5 ) )
                x = rndIn( 1, 6 );
            if ( chance( 3 ) )
                ( chance( 50 ) ? x : y ) = 0;
        }
        void look( size_t s )
        {
            const ComplexData & d = *arrays[s];
            Line l( "look" );
            l.num( "o", static_cast<int64_t>( s + 1 ) ).num( "w", d.width() ).num( "h", d.height() ).num( "empty", d.empty() );
            Ints re, im;
            if ( d.data() && kind[s] != 3 )
                for ( size_t i = 0; i < static_cast<size_t>( d.width() ) * d.height(); ++i ) {
                    re.push_back( scaled( d.data()[i].r, 1 ) );
                    im.push_back( scaled( d.data()[i].i, 1 ) );
                }
            l.list( "re", re ).list( "im", im ).emit();
        }
        void show( size_t s )
        {
            if ( kind[s] != 1 && kind[s] != 0 )
                return;
            const Image im = arrays[s]->get();
            Line( "show" ).num( "o", static_cast<int64_t>( s + 1 ) ).num( "w", im.width() ).num( "h", im.height() ).num( "cc", im.colorCount() ).list( "d", im.empty() ? std::vector<int>() : valuesOf( im ) ).emit();
        }

        void image( size_t o )
        {
            uint32_t iw, ih;
            size( iw, ih );
            const uint8_t cc = chance( 96 ) ? 1 : 3;
            Image im;
            if ( iw && ih ) {
                im = Image( iw, ih, cc, chance( 50 ) ? 1 : 4 );
                const uint32_t style = rnd( 3 );
                for ( size_t i = 0; i < static_cast<size_t>( im.rowSize() ) * ih; ++i )
                    im.data()[i] = static_cast<uint8_t>( style == 0 ? rnd( 256 ) : style == 1 ? rnd( 12 ) : chance( 20 ) ? rnd( 3 ) : 0 );
            }
            const std::vector<int> v = im.empty() ? std::vector<int>() : valuesOf( im );
            const int t = caught( [&]() {
                if ( chance( 50 ) )
                    arrays[o]->set( im );
                else
                    arrays[o].reset( new ComplexData( im ) );
            } );
            if ( t == 0 ) {
                kind[o] = 1;
                bound[o] = 0;
                for ( const int x : v )
                    bound[o] = std::max( bound[o], static_cast<double>( x ) );
            }
            Line( "image" ).num( "o", static_cast<int64_t>( o + 1 ) ).num( "w", im.width() ).num( "h", im.height() ).num( "cc", im.empty() ? 0 : cc ).list( "v", v ).num( "t", t ).emit();
        }
        void values( size_t o )
        {
            const size_t n = arrays[o]->empty() ? rnd( 3 ) : static_cast<size_t>( area( o ) ) + ( chance( 5 ) ? 1 : 0 );
            Ints v( n );
            std::vector<float> f( n );
            const int top = chance( 50 ) ? 300 : 3;
            for ( size_t i = 0; i < n; ++i )
                f[i] = static_cast<float>( v[i] = in( -top, top ) );
            const int t = caught( [&]() { arrays[o]->set( f ); } );
            if ( t == 0 ) {
                kind[o] = 1;
                bound[o] = top;
            }
            Line( "values" ).num( "o", static_cast<int64_t>( o + 1 ) ).list( "v", v ).num( "t", t ).emit();
        }
        // an array made of values
        void make( size_t o )
        {
            uint32_t x, y;
            size( x, y );
            const size_t n = static_cast<size_t>( x ) * y + ( chance( 8 ) ? 1 : 0 );
            Ints v( n );
            std::vector<float> f( n );
            const int top = chance( 50 ) ? 300 : 3;
            for ( size_t i = 0; i < n; ++i )
                f[i] = static_cast<float>( v[i] = in( -top, top ) );
            const int t = caught( [&]() { arrays[o].reset( new ComplexData( f, x, y ) ); } );
            if ( t == 0 ) {
                kind[o] = 1;
                bound[o] = top;
            }
            Line( "make" ).num( "o", static_cast<int64_t>( o + 1 ) ).num( "w", x ).num( "h", y ).list( "v", v ).num( "t", t ).emit();
        }
        void transform( bool direct )
        {
            const size_t x = rnd( 2 ), a = rnd( 4 ), o = chance( 60 ) ? a : rnd( 4 );
            if ( kind[a] == 3 || ( kind[a] == 2 && bound[a] * area( a ) > 400000 ) )
                return;
            const int t = caught( [&]() {
                FFTExecutor & e = *execs[x];
                if ( a == o && chance( 70 ) )
                    direct ? e.directTransform( *arrays[a] ) : e.inverseTransform( *arrays[a] );
                else
                    direct ? e.directTransform( *arrays[a], *arrays[o] ) : e.inverseTransform( *arrays[a], *arrays[o] );
            } );
            if ( t == 0 ) {
                bound[o] = kind[a] == 2 ? bound[a] * area( a ) : bound[a];
                kind[o] = 3 - kind[a];
            }
            Line( direct ? "direct" : "inverse" ).num( "x", static_cast<int64_t>( x + 1 ) ).num( "a", static_cast<int64_t>( a + 1 ) ).num( "o", static_cast<int64_t>( o + 1 ) ).num( "t", t ).emit();
        }
        void product()
        {
            const size_t x = rnd( 2 ), a = rnd( 4 ), b = rnd( 4 ), o = chance( 50 ) ? ( chance( 50 ) ? a : b ) : rnd( 4 );
            const double k = kind[a] == 2 ? area( a ) : 1;
            if ( kind[a] == 3 || kind[b] == 3 || ( kind[a] && kind[b] && ( kind[a] != kind[b] || bound[a] * bound[b] * k > 20000 ) ) )
                return;
            const int t = caught( [&]() { execs[x]->complexMultiplication( *arrays[a], *arrays[b], *arrays[o] ); } );
            if ( t == 0 ) {
                bound[o] = bound[a] * bound[b] * k;
                kind[o] = kind[a];
            }
            Line( "product" ).num( "a", static_cast<int64_t>( a + 1 ) ).num( "b", static_cast<int64_t>( b + 1 ) ).num( "o", static_cast<int64_t>( o + 1 ) ).num( "t", t ).emit();
        }

        void run()
        {
            Line( "begin" ).emit();
            w = chance( 60 ) ? 1u << rnd( 3 ) : rndIn( 1, 7 );
            h = chance( 60 ) ? 1u << rnd( 3 ) : rndIn( 1, 7 );
            if ( chance( 6 ) ) { // long or big
                w = chance( 70 ) ? rndIn( 120, 300 ) : rndIn( 8, 17 );
                h = w > 17 ? 1 : rndIn( 8, 17 );
                if ( chance( 50 ) )
                    std::swap( w, h );
            }
            for ( auto & a : arrays )
                a.reset( new ComplexData );
            for ( size_t i = 0; i < 2; ++i ) {
                execs[i].reset( new FFTExecutor( w, h ) );
                Line( "executor" ).num( "x", static_cast<int64_t>( i + 1 ) ).num( "w", w ).num( "h", h ).num( "t", 0 ).emit();
            }
            for ( uint32_t n = rndIn( 4, 20 ); n > 0; --n ) {
                const size_t o = rnd( 4 ), a = ( o + 1 + rnd( 3 ) ) % 4;
                switch ( rnd( 14 ) ) {
                case 0:
                case 1:
                    image( o );
                    break;
                case 2:
                    chance( 50 ) ? image( o ) : make( o );
                    break;
                case 3:
                    values( o );
                    break;
                case 4: {
                    uint32_t x, y;
                    size( x, y );
                    if ( x && y && !( x == arrays[o]->width() && y == arrays[o]->height() ) )
                        kind[o] = 3;
                    arrays[o]->resize( x, y );
                    Line( "resize" ).num( "o", static_cast<int64_t>( o + 1 ) ).num( "w", x ).num( "h", y ).num( "t", 0 ).emit();
                    break;
                }
                case 5: {
                    if ( kind[o] != 3 && chance( 10 ) ) { // to itself
                        FFT::BaseComplexData<kiss_fft_cpx> & self = *arrays[o];
                        const FFT::BaseComplexData<kiss_fft_cpx> & same = *arrays[o];
                        self = same;
                        Line( "copy" ).num( "a", static_cast<int64_t>( o + 1 ) ).num( "o", static_cast<int64_t>( o + 1 ) ).num( "t", 0 ).emit();
                        break;
                    }
                    const FFT::BaseComplexData<kiss_fft_cpx> & from = *arrays[a];
                    if ( kind[a] == 3 ) // copying what is undefined
                        break;
                    if ( chance( 50 ) )
                        arrays[o].reset( new ComplexData( from ) );
                    else
                        static_cast<FFT::BaseComplexData<kiss_fft_cpx> &>( *arrays[o] ) = from;
                    kind[o] = kind[a];
                    bound[o] = bound[a];
                    Line( "copy" ).num( "a", static_cast<int64_t>( a + 1 ) ).num( "o", static_cast<int64_t>( o + 1 ) ).num( "t", 0 ).emit();
                    break;
                }
                case 6: {
                    if ( chance( 30 ) ) { // the array given up may hold anything
                        static_cast<FFT::BaseComplexData<kiss_fft_cpx> &>( *arrays[o] ) = std::move( static_cast<FFT::BaseComplexData<kiss_fft_cpx> &>( *arrays[a] ) );
                        arrays[a].reset( new ComplexData );
                    }
                    else
                        arrays[o].reset( new ComplexData( std::move( *arrays[a] ) ) );
                    kind[o] = kind[a];
                    bound[o] = bound[a];
                    kind[a] = 0;
                    Line( "move" ).num( "a", static_cast<int64_t>( a + 1 ) ).num( "o", static_cast<int64_t>( o + 1 ) ).num( "t", 0 ).emit();
                    look( a );
                    break;
                }
                case 7: {
                    uint32_t x, y;
                    size( x, y );
                    const size_t k = rnd( 2 );
                    const int t = caught( [&]() {
                        if ( chance( 70 ) )
                            execs[k]->initialize( x, y );
                        else
                            execs[k].reset( new FFTExecutor( x, y ) );
                    } );
                    Line( "executor" ).num( "x", static_cast<int64_t>( k + 1 ) ).num( "w", x ).num( "h", y ).num( "t", t ).emit();
                    break;
                }
                case 8:
                case 9:
                case 10:
                    transform( true );
                    break;
                case 11:
                case 12:
                    transform( false );
                    break;
                default:
                    product();
                }
                const size_t s = chance( 70 ) ? o : rnd( 4 );
                look( s );
                if ( chance( 50 ) )
                    show( s );
            }
            for ( size_t s = 0; s < 4; ++s )
                look( s );
        }
    };

    // ------------------------------------------------------------------ the kernel of the Gaussian filter
    void kernel()
    {
        static const int fractions[][2] = { { 0, 1 }, { 1, 100 }, { 1, 10 }, { 1, 4 }, { 1, 3 }, { 1, 2 }, { 3, 5 }, { 2, 3 }, { 3, 4 }, { 7, 8 }, { 9, 10 }, { 19, 20 }, { 97, 100 }, { 1, 1 } };
        const int * q = fractions[rnd( sizeof( fractions ) / sizeof( fractions[0] ) )];
        float sigma = q[0] == 0 ? 0.001f : q[0] == q[1] ? 1.0e7f : static_cast<float>( 0.5 / std::log( static_cast<double>( q[1] ) / q[0] ) );
        uint32_t k = rndIn( 1, chance( 20 ) ? 6 : 3 );
        uint32_t w = 2 * k + 1 + ( chance( 30 ) ? 0 : rnd( 8 ) ), h = 2 * k + 1 + ( chance( 30 ) ? 0 : rnd( 8 ) );
        int sign = 1;
        if ( chance( 20 ) ) {
            switch ( rnd( 8 ) ) {
            case 0:
                sign = 0;
                sigma = chance( 50 ) ? 0.0f : -0.0f;
                break;
            case 1:
                sign = -1;
                sigma = -sigma;
                break;
            case 2:
                ( chance( 50 ) ? w : h ) = 2 * k;
                break;
            case 3:
                ( chance( 50 ) ? w : h ) = rnd( 3 );
                break;
            case 4:
                k = 0;
                break;
            case 5:
                k += ( std::min( w, h ) - 1 ) / 2;
                break;
            case 6:
                k = 0x80000000u + rnd( 3 ) - 1; // twice as much does not fit 32 bits
                break;
            default:
                k = 0xFFFFFFFFu - rnd( 2 );
            }
        }
        std::vector<float> v( chance( 50 ) ? 0 : rnd( 2 ) ? rnd( 400 ) : w * h, 5.0f );
        const std::vector<float> before = v;
        Line( "start" ).num( "w", w ).num( "h", h ).num( "k", k ).emit( true );
        const int t = caught( [&]() { Image_Function::GetGaussianKernel( v, w, h, k, sigma ); } );
        Ints r;
        if ( t == 0 )
            for ( const float x : v )
                r.push_back( scaled( x, 1.0e7 ) );
        Line( "gauss" ).num( "w", w ).num( "h", h ).num( "k", std::min( k, 1000000000u ) ).num( "sign", sign ).num( "num", q[0] ).num( "den", q[1] ).num( "t", t ).num( "kept", v == before ).list( "r", r ).emit();
    }
}

int main( int argc, char ** argv )
{
    std::string path = "/dev/stdout", mode = "transforms";
    uint32_t events = 100;
    uint64_t seed = 1;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string k = argv[i], v = argv[i + 1];
        if ( k == "--seed" )
            seed = std::stoull( v );
        else if ( k == "--out" )
            path = v;
        else if ( k == "--events" )
            events = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--mode" )
            mode = v;
        else
            return 2;
    }
    rec::out() = fopen( path.c_str(), "w" );
    if ( !rec::out() )
        return 2;
    rec::genState() = seed * 0x2545F4914F6CDD1Dull;
    alarm( 200 );
    Line( "begin" ).emit();
    for ( uint32_t i = 0; i < events; ++i ) {
        if ( mode == "transforms" ) {
            if ( chance( 50 ) )
                chance( 60 ) ? haar<double>() : haar<float>();
            else
                chance( 60 ) ? hough<double>() : hough<float>();
        }
        else if ( mode == "light" )
            light();
        else if ( mode == "geometry" )
            geometry();
        else if ( mode == "fourier" ) {
            Fourier f;
            f.run();
        }
        else if ( mode == "kernel" )
            kernel();
        else
            return 2;
        fflush( rec::out() );
    }
    Line( "end" ).emit();
    fclose( rec::out() );
    return 0;
}
