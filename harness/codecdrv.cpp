// Reads and writes PNG and JPEG files in a scratch directory and records what a decoder of its own finds in the files.
#include <algorithm>
#include <csetjmp>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <functional>
#include <sstream>

#include <jpeglib.h>
#include <png.h>

#include <zlib.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes( void );

#include "file/file_image.h"
#include "file/jpeg_image.h"
#include "file/png_image.h"
#include "image_buffer.h"
#include "penguinv_exception.h"
#include "recorder.h"

using penguinV::Image;
using rec::chance;
using rec::Line;
using rec::rnd;
using rec::rndIn;

namespace
{
    typedef std::vector<uint8_t> Bytes;
    std::string scratch;

    // what a file stores
    struct Stored
    {
        std::string state; // whole, doubtful, broken
        uint32_t w, h;
        int type, depth, channels, step; // step: first one of luminance
        bool known; // the samples are there
        std::vector<uint32_t> palette, samples;
    };

    Bytes bytesOf( const std::string & path )
    {
        Bytes v;
        if ( FILE * f = fopen( path.c_str(), "rb" ) ) {
            uint8_t block[4096];
            for ( size_t n; ( n = fread( block, 1, sizeof( block ), f ) ) > 0; )
                v.insert( v.end(), block, block + n );
            fclose( f );
        }
        return v;
    }

    void write( const std::string & path, const Bytes & v )
    {
        FILE * f = fopen( path.c_str(), "wb" );
        if ( !f || fwrite( v.data(), 1, v.size(), f ) != v.size() || fclose( f ) != 0 )
            exit( 2 );
    }

    // --- PNG

    struct Source
    {
        const Bytes * v;
        size_t at;
        int warnings;
    };
    void pngRead( png_structp png, png_bytep out, size_t n )
    {
        Source * s = static_cast<Source *>( png_get_io_ptr( png ) );
        if ( n > s->v->size() - s->at )
            png_error( png, "end of file" );
        memcpy( out, s->v->data() + s->at, n );
        s->at += n;
    }
    void pngWrite( png_structp png, png_bytep in, size_t n )
    {
        Bytes * v = static_cast<Bytes *>( png_get_io_ptr( png ) );
        v->insert( v->end(), in, in + n );
    }
    void pngFlush( png_structp ) {}
    void pngError( png_structp png, png_const_charp )
    {
        longjmp( png_jmpbuf( png ), 1 );
    }
    void pngWarning( png_structp png, png_const_charp )
    {
        static_cast<Source *>( png_get_error_ptr( png ) )->warnings++;
    }
    void ignored( png_structp, png_const_charp ) {}

    // nothing is converted but the samples of less than 8 bits get a byte each
    Stored readPng( const Bytes & v )
    {
        static Stored r;
        static std::vector<Bytes> lines;
        static std::vector<png_bytep> pointers;
        static Source source;
        static volatile int stage;
        r = Stored{ "broken", 0, 0, 0, 8, 1, 0, false, {}, {} };
        source = Source{ &v, 0, 0 };
        stage = 0;
        png_structp png = png_create_read_struct( PNG_LIBPNG_VER_STRING, &source, pngError, pngWarning );
        png_infop info = png_create_info_struct( png );
        if ( setjmp( png_jmpbuf( png ) ) == 0 ) {
            png_set_read_fn( png, &source, pngRead );
            png_read_info( png, info );
            r.w = png_get_image_width( png, info );
            r.h = png_get_image_height( png, info );
            r.type = png_get_color_type( png, info );
            r.depth = png_get_bit_depth( png, info );
            r.channels = png_get_channels( png, info );
            if ( static_cast<uint64_t>( r.w ) * r.h > 20000 ) {
                r.state = "huge";
                stage = 3;
                png_error( png, "huge" );
            }
            png_set_packing( png );
            png_set_interlace_handling( png );
            png_colorp colours;
            int n = 0;
            if ( r.type == PNG_COLOR_TYPE_PALETTE && png_get_PLTE( png, info, &colours, &n ) )
                for ( int i = 0; i < n; ++i ) {
                    r.palette.push_back( colours[i].red );
                    r.palette.push_back( colours[i].green );
                    r.palette.push_back( colours[i].blue );
                }
            png_read_update_info( png, info );
            lines.assign( r.h, Bytes( png_get_rowbytes( png, info ) ) );
            pointers.clear();
            for ( Bytes & b : lines )
                pointers.push_back( b.data() );
            stage = 1;
            png_read_image( png, pointers.data() );
            stage = 2;
            png_read_end( png, NULL );
            stage = 4;
        }
        png_destroy_read_struct( &png, &info, NULL );
        if ( stage == 3 || stage < 2 )
            return r;
        r.state = stage == 4 && source.warnings == 0 ? "whole" : "doubtful";
        r.known = true;
        for ( const Bytes & b : lines )
            for ( uint32_t i = 0; i < r.w * static_cast<uint32_t>( r.channels ); ++i ) {
                const uint32_t s = r.depth == 16 ? b[2 * i] * 256u + b[2 * i + 1] : b[i];
                if ( r.type == PNG_COLOR_TYPE_PALETTE && 3 * s >= r.palette.size() )
                    r.state = "doubtful";
                r.samples.push_back( s );
            }
        return r;
    }

    // a file of some kind with random contents
    Bytes makePng( int type, int depth, bool trns, bool interlaced, uint32_t w, uint32_t h )
    {
        static Bytes v;
        v.clear();
        Source none{ &v, 0, 0 };
        png_structp png = png_create_write_struct( PNG_LIBPNG_VER_STRING, &none, NULL, ignored );
        png_infop info = png_create_info_struct( png );
        png_set_write_fn( png, &v, pngWrite, pngFlush );
        png_set_IHDR( png, info, w, h, depth, type, interlaced ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT );
        const uint32_t channels = type == 2 ? 3u : type == 4 ? 2u : type == 6 ? 4u : 1u;
        const uint32_t colours = type == 3 ? rndIn( 1, 1u << depth ) : 0;
        if ( type == 3 || ( ( type == 2 || type == 6 ) && chance( 15 ) ) ) { // a suggested palette has no meaning
            png_color palette[256];
            const uint32_t n = type == 3 ? colours : rndIn( 1, 256 );
            for ( uint32_t i = 0; i < n; ++i )
                palette[i] = png_color{ static_cast<png_byte>( rnd( 256 ) ), static_cast<png_byte>( rnd( 256 ) ), static_cast<png_byte>( rnd( 256 ) ) };
            png_set_PLTE( png, info, palette, static_cast<int>( n ) );
        }
        if ( trns ) {
            png_byte alpha[256];
            for ( png_byte & a : alpha )
                a = static_cast<png_byte>( rnd( 256 ) );
            const uint16_t top = static_cast<uint16_t>( ( 1u << depth ) - 1 );
            png_color_16 key = { 0, static_cast<uint16_t>( rnd( top + 1u ) ), static_cast<uint16_t>( rnd( top + 1u ) ), static_cast<uint16_t>( rnd( top + 1u ) ), static_cast<uint16_t>( rnd( top + 1u ) ) };
            png_set_tRNS( png, info, type == 3 ? alpha : NULL, type == 3 ? static_cast<int>( rndIn( 1, colours ) ) : 0, &key );
        }
        if ( chance( 15 ) )
            png_set_gAMA( png, info, chance( 50 ) ? 0.45455 : 1.0 );
        else if ( chance( 10 ) )
            png_set_sRGB( png, info, static_cast<int>( rnd( 4 ) ) );
        if ( chance( 10 ) )
            png_set_pHYs( png, info, 2835, rndIn( 1, 2835 ), PNG_RESOLUTION_METER );
        if ( chance( 10 ) ) {
            png_color_16 back = { 0, 1, 0, 1, 0 };
            png_set_bKGD( png, info, &back );
        }
        static const int filters[] = { PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH, PNG_ALL_FILTERS };
        png_set_filter( png, 0, filters[rnd( 6 )] );
        png_set_compression_level( png, static_cast<int>( rnd( 10 ) ) );
        if ( chance( 30 ) )
            png_set_compression_buffer_size( png, 64 ); // many chunks
        png_write_info( png, info );
        const size_t row = ( static_cast<size_t>( w ) * channels * static_cast<size_t>( depth ) + 7 ) / 8;
        std::vector<Bytes> lines( h, Bytes( row ) );
        std::vector<png_bytep> pointers;
        const bool flat = chance( 15 );
        for ( Bytes & b : lines ) {
            for ( uint8_t & x : b )
                x = static_cast<uint8_t>( flat ? 0x55 : chance( 10 ) ? 255 * rnd( 2 ) : rnd( 256 ) );
            if ( type == 3 ) { // colours of the palette only
                std::fill( b.begin(), b.end(), static_cast<uint8_t>( 0 ) );
                for ( uint32_t i = 0; i < w; ++i ) {
                    const uint32_t bit = i * static_cast<uint32_t>( depth );
                    b[bit / 8] = static_cast<uint8_t>( b[bit / 8] | rnd( colours ) << ( 8 - depth - static_cast<int>( bit % 8 ) ) );
                }
            }
            pointers.push_back( b.data() );
        }
        png_write_image( png, pointers.data() );
        png_write_end( png, info );
        png_destroy_write_struct( &png, &info );
        return v;
    }

    // --- JPEG

    struct Jumping
    {
        jpeg_error_mgr base;
        jmp_buf jump;
        int warnings;
    };
    void jpegError( j_common_ptr info )
    {
        longjmp( reinterpret_cast<Jumping *>( info->err )->jump, 1 );
    }
    void jpegMessage( j_common_ptr info, int level )
    {
        if ( level < 0 )
            reinterpret_cast<Jumping *>( info->err )->warnings++;
    }

    Stored readJpeg( const Bytes & v )
    {
        static Stored r;
        static Bytes line;
        static Jumping error;
        static volatile int stage;
        r = Stored{ "broken", 0, 0, 0, 8, 1, 0, false, {}, {} };
        stage = 0;
        jpeg_decompress_struct info;
        info.err = jpeg_std_error( &error.base );
        error.base.error_exit = jpegError;
        error.base.emit_message = jpegMessage;
        error.warnings = 0;
        jpeg_create_decompress( &info );
        if ( setjmp( error.jump ) == 0 ) {
            if ( v.empty() )
                jpegError( reinterpret_cast<j_common_ptr>( &info ) );
            jpeg_mem_src( &info, const_cast<Bytes &>( v ).data(), v.size() );
            jpeg_read_header( &info, TRUE );
            r.w = info.image_width;
            r.h = info.image_height;
            if ( static_cast<uint64_t>( r.w ) * r.h > 20000 ) {
                r.state = "huge";
                stage = 3;
                jpegError( reinterpret_cast<j_common_ptr>( &info ) );
            }
            if ( info.quant_tbl_ptrs[0] )
                r.step = info.quant_tbl_ptrs[0]->quantval[0];
            jpeg_start_decompress( &info );
            r.channels = info.output_components;
            line.resize( static_cast<size_t>( info.output_width ) * static_cast<size_t>( info.output_components ) );
            while ( info.output_scanline < info.output_height ) {
                uint8_t * p = line.data();
                jpeg_read_scanlines( &info, &p, 1 );
                r.samples.insert( r.samples.end(), line.begin(), line.end() );
            }
            stage = 1;
            jpeg_finish_decompress( &info );
            stage = 2;
        }
        jpeg_destroy_decompress( &info );
        if ( stage == 0 || stage == 3 )
            return r;
        r.known = true;
        r.state = stage == 2 && error.warnings == 0 && ( r.channels == 1 || r.channels == 3 ) ? "whole" : "doubtful";
        return r;
    }

    Bytes makeJpeg( int channels, int sampling, bool progressive, uint32_t w, uint32_t h )
    {
        jpeg_compress_struct info;
        jpeg_error_mgr error;
        info.err = jpeg_std_error( &error );
        jpeg_create_compress( &info );
        unsigned char * memory = NULL;
        unsigned long size = 0;
        jpeg_mem_dest( &info, &memory, &size );
        info.image_width = w;
        info.image_height = h;
        info.input_components = channels;
        info.in_color_space = channels == 1 ? JCS_GRAYSCALE : JCS_RGB;
        jpeg_set_defaults( &info );
        if ( channels == 3 && chance( 15 ) )
            jpeg_set_colorspace( &info, JCS_RGB );
        jpeg_set_quality( &info, static_cast<int>( rndIn( 20, 100 ) ), chance( 80 ) ? TRUE : FALSE );
        info.comp_info[0].h_samp_factor = sampling;
        info.comp_info[0].v_samp_factor = chance( 50 ) ? sampling : 1;
        if ( progressive )
            jpeg_simple_progression( &info );
        if ( chance( 20 ) )
            info.restart_interval = rndIn( 1, 4 );
        if ( chance( 20 ) )
            info.optimize_coding = TRUE;
        if ( chance( 20 ) )
            info.write_JFIF_header = FALSE;
        jpeg_start_compress( &info, TRUE );
        if ( chance( 20 ) )
            jpeg_write_marker( &info, JPEG_COM, reinterpret_cast<const JOCTET *>( "comment" ), 7 );
        Bytes line( static_cast<size_t>( w ) * static_cast<size_t>( channels ) );
        const uint32_t noise = chance( 50 ) ? 255 : rndIn( 1, 60 );
        while ( info.next_scanline < h ) {
            for ( size_t i = 0; i < line.size(); ++i )
                line[i] = static_cast<uint8_t>( ( info.next_scanline * 7 + i * 5 + rnd( noise ) ) % 256 );
            uint8_t * p = line.data();
            jpeg_write_scanlines( &info, &p, 1 );
        }
        jpeg_finish_compress( &info );
        jpeg_destroy_compress( &info );
        Bytes v( memory, memory + size );
        free( memory );
        return v;
    }

    // --- damage

    uint32_t number( const Bytes & v, size_t at )
    {
        return static_cast<uint32_t>( v[at] ) << 24 | static_cast<uint32_t>( v[at + 1] ) << 16 | static_cast<uint32_t>( v[at + 2] ) << 8 | v[at + 3];
    }

    struct Chunk
    {
        size_t at, length; // of the data
        std::string name;
    };
    std::vector<Chunk> chunks( const Bytes & v )
    {
        std::vector<Chunk> r;
        for ( size_t at = 8; at + 12 <= v.size(); ) {
            const uint32_t n = number( v, at );
            if ( n > v.size() - at - 12 )
                break;
            r.push_back( Chunk{ at + 8, n, std::string( v.begin() + static_cast<long>( at ) + 4, v.begin() + static_cast<long>( at ) + 8 ) } );
            at += n + 12;
        }
        return r;
    }
    void sign( Bytes & v )
    {
        for ( const Chunk & c : chunks( v ) ) {
            const uint32_t crc = static_cast<uint32_t>( crc32( crc32( 0, NULL, 0 ), v.data() + c.at - 4, static_cast<uInt>( c.length + 4 ) ) );
            for ( size_t i = 0; i < 4; ++i )
                v[c.at + c.length + i] = static_cast<uint8_t>( crc >> ( 24 - 8 * i ) );
        }
    }
    size_t scanStart( const Bytes & v )
    {
        for ( size_t i = 2; i + 4 < v.size(); ) {
            if ( v[i] != 0xFF )
                break;
            const size_t n = v[i + 2] * 256u + v[i + 3];
            if ( v[i + 1] == 0xDA )
                return i + 2 + n;
            i += 2 + n;
        }
        return v.size() / 2;
    }

    void change( Bytes & v, size_t at )
    {
        if ( v.empty() )
            return;
        at = std::min( at, v.size() - 1 );
        v[at] = static_cast<uint8_t>( chance( 50 ) ? v[at] ^ ( 1u << rnd( 8 ) ) : rnd( 4 ) * 85 );
    }

    Bytes damagedAt( const std::string & fmt, Bytes v, const std::string & where )
    {
        const bool png = fmt == "png";
        size_t first, last;
        if ( png ) {
            first = last = 0;
            for ( const Chunk & c : chunks( v ) )
                if ( c.name == "IDAT" ) {
                    if ( first == 0 )
                        first = c.at;
                    last = c.at + c.length;
                }
        }
        else {
            first = scanStart( v );
            last = v.size() - 2;
        }
        const size_t middle = ( first + last ) / 2, header = png ? 16 + rnd( 13 ) : rndIn( 2, static_cast<uint32_t>( first ) - 1 );
        if ( where == "nothing" )
            return v;
        if ( where.compare( 0, 4, "cut-" ) == 0 ) {
            const std::string w = where.substr( 4 );
            v.resize( w == "signature" ? rnd( png ? 8 : 2 ) : w == "header" ? header : w == "early" ? first + rnd( 2 ) : w == "middle" ? middle : last - rnd( 3 ) );
            return v;
        }
        if ( where == "checksum" )
            change( v, first + rnd( static_cast<uint32_t>( last - first ) ) );
        else if ( where == "late" ) {
            if ( chance( 30 ) )
                v.resize( v.size() - 1 );
            else if ( chance( 50 ) )
                v.push_back( 0 );
            else
                change( v, last + rnd( 20 ) );
        }
        else {
            change( v, where == "signature" ? rnd( png ? 8 : 2 ) : where == "header" ? header : where == "early" ? first + rnd( 4 ) : where == "middle" ? middle : last - 1 - rnd( 4 ) );
            if ( png && where != "signature" )
                sign( v );
        }
        return v;
    }

    Bytes damagedSomehow( const std::string & fmt, Bytes v )
    {
        for ( uint32_t n = rndIn( 1, 3 ); n > 0 && !v.empty(); --n )
            switch ( rnd( 6 ) ) {
            case 0:
                v.resize( rnd( static_cast<uint32_t>( v.size() ) + 1 ) );
                break;
            case 1:
                change( v, rnd( 60 ) );
                break;
            case 2:
                v.insert( v.begin() + rnd( static_cast<uint32_t>( v.size() ) ), static_cast<uint8_t>( rnd( 256 ) ) );
                break;
            case 3:
                v.erase( v.begin() + rnd( static_cast<uint32_t>( v.size() ) ) );
                break;
            case 4:
                if ( fmt == "png" ) { // a chunk less or twice
                    const std::vector<Chunk> c = chunks( v );
                    if ( !c.empty() ) {
                        const Chunk & k = c[rnd( static_cast<uint32_t>( c.size() ) )];
                        const Bytes whole( v.begin() + static_cast<long>( k.at ) - 8, v.begin() + static_cast<long>( k.at + k.length ) + 4 );
                        if ( chance( 50 ) )
                            v.erase( v.begin() + static_cast<long>( k.at ) - 8, v.begin() + static_cast<long>( k.at + k.length ) + 4 );
                        else
                            v.insert( v.begin() + static_cast<long>( k.at ) - 8, whole.begin(), whole.end() );
                    }
                    break;
                } // fallthrough
            default:
                change( v, rnd( static_cast<uint32_t>( v.size() ) ) );
            }
        if ( fmt == "png" && chance( 70 ) )
            sign( v );
        return v;
    }

    // --- records

    std::string table( const std::vector<uint32_t> & v, size_t perRow )
    {
        std::string s = "[";
        for ( size_t i = 0; i < v.size(); ++i )
            s += ( i == 0 ? "[" : i % perRow == 0 ? "],[" : "," ) + std::to_string( v[i] );
        return s + ( v.empty() ? "]" : "]]" );
    }

    std::string described( const Image & im )
    {
        std::vector<uint32_t> v;
        const size_t n = static_cast<size_t>( im.width() ) * im.colorCount();
        const bool big = n * im.height() > 100000;
        if ( !big )
            for ( uint32_t y = 0; y < im.height(); ++y )
                v.insert( v.end(), im.data() + static_cast<size_t>( y ) * im.rowSize(), im.data() + static_cast<size_t>( y ) * im.rowSize() + n );
        return "{\"w\":" + std::to_string( im.width() ) + ",\"h\":" + std::to_string( im.height() ) + ",\"cc\":" + std::to_string( im.colorCount() ) + ",\"rows\":" + table( v, n ) + "}";
    }

    void reference( Line & l, const std::string & fmt, const Stored & r )
    {
        l.str( "state", r.state );
        std::string s = "{\"w\":" + std::to_string( r.known ? r.w : 0 ) + ",\"h\":" + std::to_string( r.known ? r.h : 0 );
        const size_t perRow = static_cast<size_t>( r.w ) * static_cast<size_t>( r.channels );
        if ( fmt == "png" )
            s += ",\"type\":" + std::to_string( r.type ) + ",\"depth\":" + std::to_string( r.depth ) + ",\"palette\":" + table( r.palette, 3 );
        else
            s += ",\"cc\":" + std::to_string( r.channels );
        l.raw( "ref", s + ",\"rows\":" + table( r.samples, perRow ) + "}" );
    }

    void starting( const Line & l )
    {
        Line before = l;
        const size_t a = before.s.find( ":\"" ) + 2, b = before.s.find( '"', a );
        before.s.replace( a, b - a, "start" );
        before.emit( true );
    }

    int caught( const std::function<void()> & f )
    {
        try {
            f();
        }
        catch ( const penguinVException & ) {
            return 1;
        }
        catch ( ... ) {
            return 2;
        }
        return 0;
    }

    int openFiles()
    {
        int n = 0;
        DIR * d = opendir( "/proc/self/fd" );
        while ( d && readdir( d ) )
            ++n;
        if ( d )
            closedir( d );
        return n;
    }

    // the operation three times: what it leaves behind
    int measured( Line & l, const std::function<void()> & f )
    {
        const int files = openFiles();
        const int thrown = caught( f );
        caught( f );
        const size_t before = __sanitizer_get_current_allocated_bytes();
        const int again = caught( f );
        const size_t after = __sanitizer_get_current_allocated_bytes();
        l.num( "t", thrown == again ? thrown : 3 ).num( "fds", openFiles() - files ).num( "kept", after > before ? 1 : 0 );
        return thrown;
    }

    const char * extension( const std::string & fmt )
    {
        return fmt == "png" ? ".png" : chance( 50 ) ? ".jpg" : ".jpeg";
    }

    void load( const std::string & fmt, const std::string & kind, const Bytes & v )
    {
        const Stored r = fmt == "png" ? readPng( v ) : readJpeg( v );
        if ( r.state == "huge" )
            return;
        const std::string path = scratch + "/given" + extension( fmt );
        write( path, v );
        const int how = static_cast<int>( rnd( 4 ) );
        Line l( "load" );
        l.str( "fmt", fmt ).str( "kind", kind ).num( "how", how ).num( "size", static_cast<int64_t>( v.size() ) );
        reference( l, fmt, r );
        starting( l );
        Image im( rndIn( 1, 5 ), rndIn( 1, 5 ), chance( 50 ) ? 3 : 1, chance( 50 ) ? 1 : 4 );
        const int thrown = measured( l, [&]() {
            switch ( how ) {
            case 0:
                im = fmt == "png" ? Png_Operation::Load( path ) : Jpeg_Operation::Load( path );
                break;
            case 1:
                fmt == "png" ? Png_Operation::Load( path, im ) : Jpeg_Operation::Load( path, im );
                break;
            case 2:
                im = File_Operation::Load( path );
                break;
            default:
                File_Operation::Load( path, im );
            }
        } );
        l.raw( "out", described( thrown ? Image() : im ) );
        l.emit();
        remove( path.c_str() );
    }

    void save( const std::string & fmt )
    {
        static const uint8_t counts[] = { 1, 3, 4 }, als[] = { 1, 2, 4, 8, 16 };
        static const char * targets[] = { "file", "file", "file", "file", "full", "nodir", "dir" };
        const std::string target = targets[rnd( 7 )];
        const bool big = target == "full" && chance( 50 );
        const uint8_t cc = counts[rnd( fmt == "png" ? 3 : 2 )];
        Image im( big ? rndIn( 200, 300 ) : rndIn( 1, 20 ), big ? rndIn( 50, 100 ) : rndIn( 1, 14 ), cc, als[rnd( 5 )] );
        for ( size_t i = 0; i < static_cast<size_t>( im.rowSize() ) * im.height(); ++i )
            im.data()[i] = static_cast<uint8_t>( rnd( 256 ) );
        uint32_t w = rndIn( 1, im.width() ), h = rndIn( 1, im.height() ), x = rnd( im.width() - w + 1 ), y = rnd( im.height() - h + 1 );
        const int form = target == "full" ? static_cast<int>( rnd( 2 ) ) : static_cast<int>( rnd( 4 ) );
        if ( form % 2 || big ) {
            x = y = 0;
            w = im.width();
            h = im.height();
        }
        int quality = Jpeg_Operation::GetImageQuality();
        if ( fmt == "jpeg" ) {
            quality = chance( 50 ) ? 100 : static_cast<int>( rndIn( 1, 100 ) );
            Jpeg_Operation::SetImageQuality( quality );
            // lossy: one colour, at the highest quality brighter and darker
            uint8_t base[3];
            for ( uint8_t & b : base )
                b = static_cast<uint8_t>( rndIn( 60, 195 ) );
            for ( uint32_t j = 0; j < h; ++j )
                for ( uint32_t i = 0; i < w; ++i ) {
                    const int n = quality == 100 ? static_cast<int>( rnd( 121 ) ) - 60 : 0;
                    for ( uint32_t c = 0; c < cc; ++c )
                        im.data()[( y + j ) * im.rowSize() + ( x + i ) * cc + c] = static_cast<uint8_t>( base[c] + n );
                }
        }
        const std::string path = target == "full" ? "/dev/full" : target == "dir" ? scratch : scratch + ( target == "nodir" ? "/no/such/directory" : "" ) + "/saved" + extension( fmt );
        Line l( "save" );
        l.str( "fmt", fmt ).num( "form", form ).str( "target", target ).num( "al", im.alignment() ).num( "q", quality );
        l.raw( "im", big ? "{\"w\":" + std::to_string( im.width() ) + ",\"h\":" + std::to_string( im.height() ) + ",\"cc\":" + std::to_string( cc ) + ",\"rows\":[]}" : described( im ) );
        l.num( "x", x ).num( "y", y ).num( "pw", w ).num( "ph", h );
        starting( l );
        measured( l, [&]() {
            switch ( form ) {
            case 0:
                fmt == "png" ? Png_Operation::Save( path, im, x, y, w, h ) : Jpeg_Operation::Save( path, im, x, y, w, h );
                break;
            case 1:
                fmt == "png" ? Png_Operation::Save( path, im ) : Jpeg_Operation::Save( path, im );
                break;
            case 2:
                target == "dir" ? ( fmt == "png" ? Png_Operation::Save( path, im, x, y, w, h ) : Jpeg_Operation::Save( path, im, x, y, w, h ) ) : File_Operation::Save( path, im, x, y, w, h );
                break;
            default:
                target == "dir" ? ( fmt == "png" ? Png_Operation::Save( path, im ) : Jpeg_Operation::Save( path, im ) ) : File_Operation::Save( path, im );
            }
        } );
        const Bytes v = target == "file" ? bytesOf( path ) : Bytes();
        const Stored r = fmt == "png" ? readPng( v ) : readJpeg( v );
        l.num( "step", r.step );
        reference( l, fmt, r );
        l.emit();
        if ( target == "file" )
            remove( path.c_str() );
    }

    void quality()
    {
        static const int some[] = { 0, 1, 2, 49, 50, 51, 99, 100, 101, -1, 1000, -100, 256, 257, 356, 2147483647 };
        const int q = chance( 50 ) ? some[rnd( 16 )] : static_cast<int>( rndIn( 1, 100 ) ), before = Jpeg_Operation::GetImageQuality();
        Line l( "quality" );
        l.num( "q", q ).num( "before", before );
        l.num( "t", caught( [&]() { Jpeg_Operation::SetImageQuality( q ); } ) ).num( "after", Jpeg_Operation::GetImageQuality() ).emit();
    }

    Bytes made( std::string & fmt, std::string & kind )
    {
        static const int types[] = { 0, 2, 3, 4, 6 }, deep[] = { 1, 2, 4, 8, 16 };
        const uint32_t side = chance( 50 ) ? 5 : 19, w = rndIn( 1, side + 6 ), h = rndIn( 1, side );
        fmt = chance( 65 ) ? "png" : "jpeg";
        if ( fmt == "png" ) {
            const int type = types[rnd( 5 )], depth = type == 0 ? deep[rnd( 5 )] : type == 3 ? deep[rnd( 4 )] : deep[3 + rnd( 2 )];
            const bool trns = type < 4 && chance( 40 ), interlaced = chance( 40 );
            kind = std::to_string( type ) + "/" + std::to_string( depth ) + ( trns ? "t" : "" ) + ( interlaced ? "i" : "" );
            return makePng( type, depth, trns, interlaced, w, h );
        }
        const int channels = chance( 40 ) ? 1 : 3, sampling = static_cast<int>( rndIn( 1, 2 ) );
        const bool progressive = chance( 30 );
        kind = std::to_string( channels ) + "/" + std::to_string( sampling ) + ( progressive ? "p" : "" );
        return makeJpeg( channels, sampling, progressive, w, h );
    }
}

int main( int argc, char ** argv )
{
    std::string path = "/dev/stdout", script;
    uint32_t valid = 0, damages = 0, saves = 0;
    uint64_t seed = 1;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string k = argv[i], v = argv[i + 1];
        if ( k == "--seed" )
            seed = std::stoull( v );
        else if ( k == "--out" )
            path = v;
        else if ( k == "--valid" )
            valid = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--damaged" )
            damages = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--saves" )
            saves = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--script" )
            script = v;
        else
            return 2;
    }
    const char * s = getenv( "SCRATCH" );
    if ( !s )
        return 2;
    scratch = s;
    rec::out() = fopen( path.c_str(), "w" );
    if ( !rec::out() )
        return 2;
    rec::genState() = seed * 0x2545F4914F6CDD1Dull;
    alarm( 200 );
    Line( "begin" ).emit();
    std::string fmt, kind;
    for ( uint32_t i = 0; i < valid; ++i ) {
        const Bytes v = made( fmt, kind );
        load( fmt, kind, v );
    }
    for ( uint32_t i = 0; i < damages; ++i ) {
        const Bytes v = made( fmt, kind );
        load( fmt, kind + " damaged", damagedSomehow( fmt, v ) );
    }
    for ( uint32_t i = 0; i < saves; ++i ) {
        if ( chance( 20 ) )
            quality();
        save( chance( 50 ) ? "png" : "jpeg" );
    }
    if ( !script.empty() ) {
        std::ifstream in( script );
        for ( std::string line; std::getline( in, line ); ) {
            std::istringstream is( line );
            int a, b, c, d;
            std::string where;
            if ( !( is >> fmt >> a >> b >> c >> d >> where ) )
                return 2;
            const uint32_t w = rndIn( 3, 24 ), h = rndIn( 2, 16 );
            const Bytes v = fmt == "png" ? makePng( a, b, c != 0, d != 0, w, h ) : makeJpeg( a, b, c != 0, w, h );
            load( fmt, line, damagedAt( fmt, v, where ) );
        }
    }
    Line( "end" ).emit();
    fclose( rec::out() );
    return 0;
}
