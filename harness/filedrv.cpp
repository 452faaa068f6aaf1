// Saves and loads images and damaged files in a scratch directory and records what the files and the images hold.
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <sstream>

#include "file/bmp_image.h"
#include "file/file_image.h"
#include "file/jpeg_image.h"
#include "file/png_image.h"
#include "file/raw_image.h"
#include "image_buffer.h"
#include "penguinv_exception.h"
#include "recorder.h"

using penguinV::Image;
using penguinV::Image16Bit;
using rec::chance;
using rec::Line;
using rec::rnd;
using rec::rndIn;

namespace
{
    std::string scratch;
    std::vector<uint8_t> current; // what the file at hand holds
    std::string currentPath;

    uint32_t capped( uint32_t v )
    {
        return v > 1073741824u ? 1073741824u : v;
    }

    std::vector<uint8_t> bytesOf( const std::string & path )
    {
        std::vector<uint8_t> v;
        if ( FILE * f = fopen( path.c_str(), "rb" ) ) {
            uint8_t block[4096];
            for ( size_t n; ( n = fread( block, 1, sizeof( block ), f ) ) > 0; )
                v.insert( v.end(), block, block + n );
            fclose( f );
        }
        return v;
    }

    void write( const std::string & path, const std::vector<uint8_t> & v )
    {
        FILE * f = fopen( path.c_str(), "wb" );
        if ( !f || fwrite( v.data(), 1, v.size(), f ) != v.size() || fclose( f ) != 0 )
            exit( 2 );
    }

    template <typename T>
    std::string rows( const penguinV::ImageTemplate<T> & im )
    {
        std::string s = "[";
        for ( uint32_t y = 0; y < im.height(); ++y ) {
            s += y ? ",[" : "[";
            for ( uint32_t x = 0; x < im.width() * im.colorCount(); ++x )
                s += ( x ? "," : "" ) + std::to_string( im.data()[static_cast<size_t>( y ) * im.rowSize() + x] );
            s += "]";
        }
        return s + "]";
    }

    // what was loaded; enormous images are not listed
    template <typename T>
    void loaded( Line & l, const penguinV::ImageTemplate<T> & im )
    {
        const bool big = static_cast<uint64_t>( im.width() ) * im.height() > 100000;
        l.num( "w", capped( im.width() ) ).num( "h", capped( im.height() ) ).num( "cc", im.colorCount() ).raw( "rows", big ? "[]" : rows( im ) );
    }

    template <typename T>
    penguinV::ImageTemplate<T> picture( uint32_t w, uint32_t h, uint8_t cc, uint32_t top )
    {
        static const uint8_t al[] = { 1, 1, 2, 3, 4, 8, 16 };
        penguinV::ImageTemplate<T> im( w, h, cc, al[rnd( 7 )] );
        for ( size_t i = 0; i < static_cast<size_t>( im.rowSize() ) * im.height(); ++i )
            im.data()[i] = static_cast<T>( rnd( top ) );
        return im;
    }

    void starting( const Line & l )
    {
        Line before = l;
        const size_t a = before.s.find( ":\"" ) + 2, b = before.s.find( '"', a );
        before.s.replace( a, b - a, "start" );
        before.emit( true );
    }

    struct Target
    {
        std::string path, kind;
    };

    Target target( const char * extension )
    {
        if ( chance( 3 ) )
            return { scratch + "/no/such/directory/file" + extension, "nodir" };
        return { scratch + "/file" + extension, "file" };
    }

    int caught( const std::function<void()> & f )
    {
        try {
            f();
        }
        catch ( const penguinVException & ) {
            return 1;
        }
        catch ( ... ) {
            return 2;
        }
        return 0;
    }

    // whether the file was written
    bool save( const std::string & fmt )
    {
        const bool jpeg = fmt == "jpeg";
        static const uint8_t counts[] = { 1, 3, 4, 1, 3 };
        const uint8_t cc = chance( 3 ) ? 2 : counts[rnd( 5 )];
        const uint32_t side = chance( 50 ) ? 3 : 13;
        Image im = picture<uint8_t>( rndIn( 1, side + 4 ), rndIn( 1, side ), cc, 256 );
        uint32_t w = rndIn( 1, im.width() ), h = rndIn( 1, im.height() ), x = rnd( im.width() - w + 1 ), y = rnd( im.height() - h + 1 );
        int form = static_cast<int>( rnd( 4 ) );
        if ( form % 2 ) {
            x = y = 0;
            w = im.width();
            h = im.height();
        }
        if ( jpeg && cc > 1 ) // lossy: the same colour everywhere in the region, another one outside
            for ( uint32_t j = 0; j < h; ++j )
                for ( uint32_t i = 0; i < w * cc; ++i )
                    im.data()[( y + j ) * im.rowSize() + x * cc + i] = im.data()[y * im.rowSize() + x * cc + i % cc];
        if ( form % 2 == 0 && chance( 6 ) ) {
            switch ( rnd( 5 ) ) {
            case 0:
                w = im.width() - x + 1;
                break;
            case 1:
                h = im.height() - y + 1;
                break;
            case 2:
                w = 0;
                break;
            case 3:
                x = 0xFFFFFFFFu;
                break;
            default:
                h = 0x80000000u;
            }
        }
        const Target t = target( fmt == "bmp" ? ".bmp" : fmt == "png" ? ".png" : ".jpg" );
        Line l( "save" );
        l.str( "fmt", fmt ).num( "form", form ).str( "target", t.kind );
        l.raw( "im", "{\"w\":" + std::to_string( im.width() ) + ",\"h\":" + std::to_string( im.height() ) + ",\"cc\":" + std::to_string( cc ) + ",\"rows\":" + rows( im ) + "}" );
        l.num( "al", im.alignment() ).num( "x", capped( x ) ).num( "y", capped( y ) ).num( "w", capped( w ) ).num( "h", capped( h ) );
        starting( l );
        if ( chance( 50 ) ) // something else is there already
            remove( t.path.c_str() );
        const int thrown = caught( [&]() {
            switch ( form ) {
            case 0:
                fmt == "bmp" ? Bitmap_Operation::Save( t.path, im, x, y, w, h ) : fmt == "png" ? Png_Operation::Save( t.path, im, x, y, w, h ) : Jpeg_Operation::Save( t.path, im, x, y, w, h );
                break;
            case 1:
                fmt == "bmp" ? Bitmap_Operation::Save( t.path, im ) : fmt == "png" ? Png_Operation::Save( t.path, im ) : Jpeg_Operation::Save( t.path, im );
                break;
            case 2:
                File_Operation::Save( t.path, im, x, y, w, h );
                break;
            default:
                File_Operation::Save( t.path, im );
            }
        } );
        current = thrown || t.kind != "file" || fmt != "bmp" ? std::vector<uint8_t>() : bytesOf( t.path );
        currentPath = t.path;
        l.num( "t", thrown ).list( "f", current ).emit();
        return thrown == 0 && t.kind == "file";
    }

    // a device without room
    void saveFull()
    {
        const bool raw = chance( 50 );
        const Image im = picture<uint8_t>( rndIn( 1, 20 ), rndIn( 1, 10 ), 1, 256 );
        Line l( "save" );
        l.str( "fmt", raw ? "raw8" : "bmp" ).num( "form", 1 ).str( "target", "full" );
        l.raw( "im", "{\"w\":" + std::to_string( im.width() ) + ",\"h\":" + std::to_string( im.height() ) + ",\"cc\":1,\"rows\":[]}" );
        l.num( "x", 0 ).num( "y", 0 ).num( "w", im.width() ).num( "h", im.height() );
        const int thrown = caught( [&]() { raw ? Raw_Operation::Save<uint8_t>( "/dev/full", im ) : Bitmap_Operation::Save( "/dev/full", im ); } );
        l.num( "t", thrown ).raw( "f", "[]" ).emit();
    }

    void load( const std::string & fmt )
    {
        Line l( "load" );
        l.str( "fmt", fmt );
        const int how = static_cast<int>( rnd( 4 ) );
        l.num( "how", how );
        starting( l );
        Image im = picture<uint8_t>( rndIn( 1, 5 ), rndIn( 1, 5 ), chance( 50 ) ? 3 : 1, 256 );
        const int thrown = caught( [&]() {
            switch ( how ) {
            case 0:
                im = fmt == "bmp" ? Bitmap_Operation::Load( currentPath ) : fmt == "png" ? Png_Operation::Load( currentPath ) : Jpeg_Operation::Load( currentPath );
                break;
            case 1:
                fmt == "bmp" ? Bitmap_Operation::Load( currentPath, im ) : fmt == "png" ? Png_Operation::Load( currentPath, im ) : Jpeg_Operation::Load( currentPath, im );
                break;
            case 2:
                im = File_Operation::Load( currentPath );
                break;
            default:
                File_Operation::Load( currentPath, im );
            }
        } );
        l.num( "t", thrown );
        loaded( l, thrown ? Image() : im );
        l.emit();
    }

    void loadNothing()
    {
        const bool nopath = chance( 50 );
        Line l( "load" );
        l.str( "fmt", "none" ).num( "nopath", nopath );
        const std::string path = nopath ? "" : chance( 50 ) ? scratch : scratch + "/absent";
        Image im;
        const int thrown = caught( [&]() { im = chance( 50 ) ? Bitmap_Operation::Load( path ) : Raw_Operation::Load<uint8_t>( path, 2, 3, 1 ); } );
        l.num( "t", thrown );
        loaded( l, thrown ? Image() : im );
        l.emit();
    }

    template <typename T>
    void saveRaw()
    {
        const penguinV::ImageTemplate<T> im = picture<T>( rndIn( 1, chance( 50 ) ? 4 : 17 ), rndIn( 1, 8 ), static_cast<uint8_t>( rndIn( 1, 4 ) ), sizeof( T ) == 1 ? 256 : 65536 );
        const Target t = target( ".raw" );
        Line l( "save" );
        l.str( "fmt", sizeof( T ) == 1 ? "raw8" : "raw16" ).num( "form", 1 ).str( "target", t.kind ).num( "al", im.alignment() );
        l.raw( "im", "{\"w\":" + std::to_string( im.width() ) + ",\"h\":" + std::to_string( im.height() ) + ",\"cc\":" + std::to_string( im.colorCount() ) + ",\"rows\":" + rows( im ) + "}" );
        l.num( "x", 0 ).num( "y", 0 ).num( "w", im.width() ).num( "h", im.height() );
        starting( l );
        const int thrown = caught( [&]() { Raw_Operation::Save<T>( t.path, im ); } );
        current = thrown || t.kind != "file" ? std::vector<uint8_t>() : bytesOf( t.path );
        currentPath = t.path;
        l.num( "t", thrown ).list( "f", current ).emit();
    }

    template <typename T>
    void loadRaw( uint32_t w, uint32_t h, uint8_t cc )
    {
        Line l( "load" );
        l.str( "fmt", sizeof( T ) == 1 ? "raw8" : "raw16" ).num( "rw", capped( w ) ).num( "rh", capped( h ) ).num( "rc", cc );
        starting( l );
        penguinV::ImageTemplate<T> im;
        const int thrown = caught( [&]() { im = Raw_Operation::Load<T>( currentPath, w, h, cc ); } );
        l.num( "t", thrown );
        loaded( l, im );
        l.emit();
    }

    void put( const std::vector<uint8_t> & v, const char * extension )
    {
        current = v;
        currentPath = scratch + "/put" + extension;
        write( currentPath, v );
        Line( "put" ).list( "f", v ).emit();
    }

    template <typename T>
    void loadSomeRaw()
    {
        const uint32_t n = static_cast<uint32_t>( current.size() ) / sizeof( T );
        uint32_t w = rndIn( 1, 6 ), h = rndIn( 1, 6 );
        uint8_t cc = static_cast<uint8_t>( rndIn( 1, 4 ) );
        switch ( rnd( 9 ) ) {
        case 0: // products which are multiples of 2^32, or almost
            w = 65536;
            h = 65536 + ( n > 0 && n < 1000 ? 0 : 1 );
            break;
        case 1:
            w = 0x40000000u;
            cc = 4;
            break;
        case 2:
            w = 0x80000000u + n;
            cc = 2;
            h = 1;
            break;
        case 3:
            ( rnd( 3 ) == 0 ? w : h ) = 0;
            break;
        case 4:
            cc = 0;
            break;
        case 5:
        case 6:
            if ( n > 0 ) {
                cc = n % 3 == 0 ? 3 : 1;
                w = n / cc;
                h = 1;
                for ( uint32_t k = 2; k < 9; ++k )
                    if ( w % k == 0 && chance( 40 ) ) {
                        w /= k;
                        h *= k;
                    }
            }
            break;
        case 7:
            h = 0x10000000u;
            w = 16;
            break;
        default:
            w = n;
            h = 0xFFFFFFFFu;
        }
        loadRaw<T>( w, h, cc );
    }

    template <typename T>
    void swapBytes()
    {
        penguinV::ImageTemplate<T> im = picture<T>( rndIn( 1, 6 ), rndIn( 1, 4 ), chance( 50 ) ? 1 : 3, sizeof( T ) == 1 ? 256 : 65536 );
        auto all = [&]() { return std::vector<uint32_t>( im.data(), im.data() + static_cast<size_t>( im.rowSize() ) * im.height() ); };
        Line l( "swap" );
        l.num( "bytes", sizeof( T ) ).list( "before", all() );
        Raw_Operation::LittleEndianToBigEndian( im );
        l.list( "after", all() ).emit();
    }

    void set( std::vector<uint8_t> & v, size_t at, uint32_t value, int bytes )
    {
        for ( int i = 0; i < bytes && at + static_cast<size_t>( i ) < v.size(); ++i )
            v[at + static_cast<size_t>( i )] = static_cast<uint8_t>( value >> ( 8 * i ) );
    }

    // a right bitmap file
    std::vector<uint8_t> bitmap( uint32_t w, int32_t h, uint32_t bits, uint32_t dib, uint32_t palette, bool sized, bool coloured )
    {
        const uint32_t rows = static_cast<uint32_t>( h < 0 ? -h : h ), row = ( w * ( bits / 8 ) + 3 ) / 4 * 4, off = 14 + dib + palette;
        std::vector<uint8_t> v( off + row * rows );
        v[0] = 'B';
        v[1] = 'M';
        set( v, 2, chance( 80 ) ? static_cast<uint32_t>( v.size() ) : rnd( 1000 ), 4 ); // some programs write wrong sizes
        set( v, 10, off, 4 );
        set( v, 14, dib, 4 );
        if ( dib == 12 ) {
            set( v, 18, w, 2 );
            set( v, 20, rows, 2 );
            set( v, 22, 1, 2 );
            set( v, 24, bits, 2 );
        }
        else {
            set( v, 18, w, 4 );
            set( v, 22, static_cast<uint32_t>( h ), 4 );
            set( v, 26, 1, 2 );
            set( v, 28, bits, 2 );
            set( v, 34, sized ? row * rows : 0, 4 );
            if ( chance( 30 ) )
                for ( size_t i = 38; i < 54; ++i )
                    v[i] = static_cast<uint8_t>( rnd( 256 ) ); // resolution and numbers of colours
        }
        for ( uint32_t i = 0; i < palette; ++i )
            v[14 + dib + i] = coloured || palette != 1024 ? static_cast<uint8_t>( rnd( 256 ) ) : i % 4 == 3 ? 0 : static_cast<uint8_t>( i / 4 );
        if ( coloured && chance( 30 ) ) { // one colour differs from grey only
            for ( uint32_t i = 0; i < palette; ++i )
                v[14 + dib + i] = i % 4 == 3 ? 0 : static_cast<uint8_t>( i / 4 );
            v[14 + dib + rnd( palette )] ^= 1;
        }
        for ( size_t i = off; i < v.size(); ++i )
            v[i] = static_cast<uint8_t>( rnd( 256 ) );
        return v;
    }

    int32_t farValue( int32_t v )
    {
        // the model's numbers wrap around at 4096
        if ( v >= 2000 )
            return static_cast<int32_t>( 0x80000000u + static_cast<uint32_t>( v - 2048 ) );
        if ( v >= 900 )
            return 0x40000000 + ( v - 1024 );
        return v;
    }

    void corrupt( std::vector<uint8_t> & v, const std::string & field, int32_t value )
    {
        const bool core = v[14] == 12;
        if ( field == "magic" )
            v[chance( 50 ) ? 0 : 1] ^= static_cast<uint8_t>( 1u << rnd( 8 ) );
        else if ( field == "dib" )
            set( v, 14, static_cast<uint32_t>( value ), 4 );
        else if ( field == "off" )
            set( v, 10, static_cast<uint32_t>( value ), 4 );
        else if ( field == "w" )
            set( v, 18, static_cast<uint32_t>( farValue( value ) ), core ? 2 : 4 );
        else if ( field == "h" )
            core ? set( v, 20, static_cast<uint32_t>( value ), 2 ) : set( v, 22, static_cast<uint32_t>( farValue( value ) ), 4 );
        else if ( field == "planes" )
            set( v, core ? 22 : 26, static_cast<uint32_t>( value ), 2 );
        else if ( field == "bits" )
            set( v, core ? 24 : 28, static_cast<uint32_t>( value ), 2 );
        else if ( field == "size" )
            set( v, 34, static_cast<uint32_t>( value ), core ? 0 : 4 );
        else if ( field == "length" ) {
            const size_t old = v.size();
            v.resize( static_cast<size_t>( value ) );
            for ( size_t i = old; i < v.size(); ++i )
                v[i] = static_cast<uint8_t>( rnd( 256 ) );
        }
    }

    void damaged()
    {
        static const uint32_t depth[] = { 8, 8, 24, 32 };
        const uint32_t bits = depth[rnd( 4 )], dib = chance( 30 ) ? 12 : 40, palettes[] = { 0, 1024, 1024, 64 };
        const uint32_t palette = palettes[rnd( bits == 8 ? 4 : chance( 80 ) ? 1 : 4 )];
        const int32_t h = static_cast<int32_t>( rndIn( 1, 6 ) ) * ( dib == 40 && chance( 40 ) ? -1 : 1 );
        std::vector<uint8_t> v = bitmap( rndIn( 1, 9 ), h, bits, dib, palette, chance( 50 ), palette == 1024 && chance( 60 ) );
        for ( uint32_t n = rnd( 4 ); n > 0; --n ) {
            switch ( rnd( 5 ) ) {
            case 0: // some byte of the headers
                v[rnd( static_cast<uint32_t>( std::min<size_t>( v.size(), 54 ) ) )] = static_cast<uint8_t>( chance( 50 ) ? rnd( 256 ) : rnd( 4 ) * 85 );
                break;
            case 1: {
                static const size_t at[] = { 2, 10, 14, 18, 22, 30, 34, 46 };
                static const uint32_t values[] = { 0, 1, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x40000000u, 0x40000001u, 65536, 54, 1078 };
                set( v, at[rnd( 8 )], values[rnd( 10 )], 4 );
                break;
            }
            case 2:
                v.resize( rnd( static_cast<uint32_t>( v.size() ) + 1 ) );
                break;
            case 3:
                v.resize( v.size() + rndIn( 1, 9 ) );
                break;
            default:
                set( v, 28, depth[rnd( 4 )], 2 );
            }
            if ( v.empty() )
                break;
        }
        put( v, ".bmp" );
        load( "bmp" );
    }

    // files of several megabytes are read in parts
    void big()
    {
        const bool raw = chance( 50 ), coloured = !raw && chance( 50 );
        const uint32_t w = 2000 + rnd( 600 ), h = 2200 + rnd( 300 );
        Image im( w, h, coloured ? 3 : 1, chance( 50 ) ? 4 : 1 ), out;
        for ( size_t i = 0; i < static_cast<size_t>( im.rowSize() ) * h; ++i )
            im.data()[i] = static_cast<uint8_t>( rnd( 256 ) );
        const std::string path = scratch + "/big";
        Line l( "big" );
        const int thrown = caught( [&]() {
            if ( raw ) {
                Raw_Operation::Save<uint8_t>( path, im );
                out = Raw_Operation::Load<uint8_t>( path, w, h, 1 );
            }
            else {
                Bitmap_Operation::Save( path, im );
                out = Bitmap_Operation::Load( path );
            }
        } );
        const size_t line = static_cast<size_t>( w ) * im.colorCount();
        int64_t differ = 0;
        if ( out.width() != w || out.height() != h || out.colorCount() != im.colorCount() )
            differ = -1;
        else
            for ( uint32_t y = 0; y < h; ++y )
                differ += memcmp( im.data() + static_cast<size_t>( y ) * im.rowSize(), out.data() + static_cast<size_t>( y ) * out.rowSize(), line ) != 0;
        l.str( "fmt", raw ? "raw8" : "bmp" ).num( "w", w ).num( "h", h ).num( "t", thrown ).num( "differ", differ );
        l.num( "length", static_cast<int64_t>( bytesOf( path ).size() ) );
        l.num( "expected", raw ? static_cast<int64_t>( w ) * h : static_cast<int64_t>( ( line + 3 ) / 4 * 4 * h + 54 + ( coloured ? 0 : 1024 ) ) );
        l.emit();
        remove( path.c_str() );
    }

    void history()
    {
        Line( "begin" ).emit();
        for ( uint32_t n = rndIn( 2, 6 ); n > 0; --n ) {
            switch ( rnd( 12 ) ) {
            case 0:
            case 1:
            case 2:
                if ( save( "bmp" ) )
                    load( "bmp" );
                break;
            case 3:
                if ( save( "png" ) )
                    load( "png" );
                break;
            case 4:
                if ( save( "jpeg" ) )
                    load( "jpeg" );
                break;
            case 5:
                saveRaw<uint8_t>();
                if ( !current.empty() )
                    loadSomeRaw<uint8_t>();
                break;
            case 6:
                saveRaw<uint16_t>();
                if ( !current.empty() )
                    loadSomeRaw<uint16_t>();
                break;
            case 7: {
                std::vector<uint8_t> v( chance( 20 ) ? 0 : rnd( 40 ) );
                for ( uint8_t & b : v )
                    b = static_cast<uint8_t>( rnd( 256 ) );
                put( v, ".raw" );
                loadSomeRaw<uint8_t>();
                loadSomeRaw<uint16_t>();
                break;
            }
            case 8:
                chance( 50 ) ? swapBytes<uint16_t>() : swapBytes<uint8_t>();
                break;
            case 9:
                chance( 50 ) ? loadNothing() : saveFull();
                break;
            default:
                damaged();
            }
        }
    }
}

int main( int argc, char ** argv )
{
    std::string path = "/dev/stdout", script;
    uint32_t histories = 0, damages = 0, bigs = 0;
    uint64_t seed = 1;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string k = argv[i], v = argv[i + 1];
        if ( k == "--seed" )
            seed = std::stoull( v );
        else if ( k == "--out" )
            path = v;
        else if ( k == "--histories" )
            histories = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--damaged" )
            damages = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--big" )
            bigs = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--script" )
            script = v;
        else
            return 2;
    }
    const char * s = getenv( "SCRATCH" );
    if ( !s )
        return 2;
    scratch = s;
    rec::out() = fopen( path.c_str(), "w" );
    if ( !rec::out() )
        return 2;
    rec::genState() = seed * 0x2545F4914F6CDD1Dull;
    alarm( 200 );
    for ( uint32_t i = 0; i < histories; ++i )
        history();
    Line( "begin" ).emit();
    for ( uint32_t i = 0; i < damages; ++i )
        damaged();
    for ( uint32_t i = 0; i < bigs; ++i )
        big();
    if ( !script.empty() ) {
        std::ifstream in( script );
        for ( std::string line; std::getline( in, line ); ) {
            std::istringstream is( line );
            int32_t w, h, bits, dib, palette, sized, coloured, value;
            std::string field;
            if ( !( is >> w >> h >> bits >> dib >> palette >> sized >> coloured >> field >> value ) )
                return 2;
            std::vector<uint8_t> v = bitmap( static_cast<uint32_t>( w ), h, static_cast<uint32_t>( bits ), static_cast<uint32_t>( dib ), static_cast<uint32_t>( palette ), sized != 0,
                                             coloured != 0 );
            corrupt( v, field, value );
            put( v, ".bmp" );
            load( "bmp" );
        }
    }
    Line( "end" ).emit();
    fclose( rec::out() );
    return 0;
}
