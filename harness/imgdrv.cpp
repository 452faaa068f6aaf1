// Drives the image function API of /repo with generated calls and records, for every call, the arguments
// and every observable effect (changed images, returned value, exception) as one ndjson line.
// The lines are judged by specs/ImageTrace.tla; nothing is judged here.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <sys/wait.h>
#include <unistd.h>

#include "filtering.h"
#include "function_pool.h"
#include "image_buffer.h"
#include "image_function.h"
#include "image_function_helper.h"
#include "image_function_simd.h"
#include "penguinv/penguinv.h"
#include "penguinv_exception.h"
#include "thread_pool.h"
#ifdef WITH_OPENCL
#include "opencl/image_buffer_opencl.h"
#include "opencl/image_function_opencl.h"
#include "opencl/opencl_device.h"
#include "opencl/opencl_helper.h"
#endif

using penguinV::Image;
using penguinV::Image16Bit;

namespace
{
    std::mt19937 rng;
    uint32_t rnd( uint32_t n )
    {
        return n == 0 ? 0 : static_cast<uint32_t>( rng() % n );
    }
    uint32_t rndIn( uint32_t a, uint32_t b )
    {
        return a + rnd( b - a + 1 );
    }
    bool chance( uint32_t percent )
    {
        return rnd( 100 ) < percent;
    }

    FILE * out = nullptr;
    uint64_t eventCount = 0;

    void append( std::string & s, int64_t v )
    {
        s += std::to_string( v );
    }

    // Image slots. A lane has 20 of them: 0..15 hold 8-bit images, 16..19 hold 16-bit images. Calls which run
    // at the same time use different lanes.
    const int laneSize = 20, laneMax = 4;
    const int slotCount = laneSize * laneMax;
    int lane = 0;
    Image img8Store[laneMax][16];
    Image16Bit img16Store[laneMax][4];
    bool is16Slot( int slot )
    {
        return slot % laneSize >= 16;
    }
    Image & at8( int slot )
    {
        return img8Store[slot / laneSize][slot % laneSize];
    }
    Image16Bit & at16( int slot )
    {
        return img16Store[slot / laneSize][slot % laneSize - 16];
    }

    struct Shadow
    {
        uint32_t w = 0, h = 0, rs = 0;
        uint8_t cc = 1, al = 1;
        std::vector<uint16_t> d;
        bool operator==( const Shadow & s ) const
        {
            return w == s.w && h == s.h && rs == s.rs && cc == s.cc && al == s.al && d == s.d;
        }
    };
    std::vector<Shadow> shadow( slotCount );

    template <typename T>
    Shadow takeShadow( const penguinV::ImageTemplate<T> & im )
    {
        Shadow s;
        s.w = im.width();
        s.h = im.height();
        s.rs = im.rowSize();
        s.cc = im.colorCount();
        s.al = im.alignment();
        if ( im.data() != nullptr )
            s.d.assign( im.data(), im.data() + static_cast<size_t>( im.rowSize() ) * im.height() );
        return s;
    }

    Shadow current( int slot )
    {
        return is16Slot( slot ) ? takeShadow( at16( slot ) ) : takeShadow( at8( slot ) );
    }

    void appendShadow( std::string & s, int slot, const Shadow & sh )
    {
        s += "{\"id\":";
        append( s, slot );
        s += ",\"w\":";
        append( s, sh.w );
        s += ",\"h\":";
        append( s, sh.h );
        s += ",\"cc\":";
        append( s, sh.cc );
        s += ",\"al\":";
        append( s, sh.al );
        s += ",\"rs\":";
        append( s, sh.rs );
        s += ",\"d\":[";
        for ( size_t i = 0; i < sh.d.size(); ++i ) {
            if ( i )
                s += ',';
            append( s, sh.d[i] );
        }
        s += "]}";
    }

    void emit( const std::string & line )
    {
        fputs( line.c_str(), out );
        fputc( '\n', out );
        ++eventCount;
    }

    template <typename T>
    void randomFill( penguinV::ImageTemplate<T> & im, int mode )
    {
        const size_t n = static_cast<size_t>( im.rowSize() ) * im.height();
        T * d = im.data();
        static const uint32_t edge[] = { 0, 1, 2, 3, 84, 85, 86, 126, 127, 128, 129, 170, 253, 254, 255 };
        const uint32_t base = rnd( 256 ), spread = rndIn( 1, 40 );
        for ( size_t i = 0; i < n; ++i ) {
            uint32_t v = 0;
            switch ( mode ) {
            case 0:
                v = rnd( 256 );
                break;
            case 1:
                v = edge[rnd( sizeof( edge ) / sizeof( edge[0] ) )];
                break;
            case 2:
                v = rnd( 2 ) ? 255 : 0;
                break;
            case 3:
                v = static_cast<uint32_t>( i * 7 + base ) & 255;
                break;
            case 4:
                v = std::min( 255u, base + rnd( spread ) );
                break;
            case 5:
                v = chance( 85 ) ? 0 : 255;
                break;
            case 7:
                v = 0;
                break;
            case 8:
                v = 255;
                break;
            default:
                v = chance( 85 ) ? 255 : 0;
                break;
            }
            if ( sizeof( T ) == 2 )
                v = ( v << 8 ) | rnd( 256 );
            d[i] = static_cast<T>( v );
        }
    }

    struct Profile
    {
        std::vector<std::string> ops;
        std::vector<std::string> variants;
        int invalidPercent = 0;
        uint32_t maxW = 14, maxH = 9;
        bool wide = false;
        bool tall = false; // hundreds of columns and few rows, or the other way round
        bool huge = false; // few calls on images of thousands of columns or hundreds of rows, often bright
        int conc = 1; // number of calls running at the same time
        int repeat = 1; // how many times every call runs: only a run which does something else than the first one is recorded
    } prof;

    int nextSlot8[laneMax] = {}, nextSlot16[laneMax] = {};

    int newImage( uint32_t w, uint32_t h, uint32_t cc, uint32_t al, int mode, bool wide16 = false )
    {
        int slot;
        if ( !wide16 ) {
            slot = lane * laneSize + nextSlot8[lane];
            nextSlot8[lane] = ( nextSlot8[lane] + 1 ) % 12; // 12..15 are reserved for returned images
            Image fresh( w, h, static_cast<uint8_t>( cc ), static_cast<uint8_t>( al ) );
            if ( !fresh.empty() )
                randomFill( fresh, mode );
            at8( slot ) = std::move( fresh );
        }
        else {
            slot = lane * laneSize + 16 + nextSlot16[lane];
            nextSlot16[lane] = ( nextSlot16[lane] + 1 ) % 3;
            Image16Bit fresh( w, h, static_cast<uint8_t>( cc ), static_cast<uint8_t>( al ) );
            if ( !fresh.empty() )
                randomFill( fresh, mode );
            at16( slot ) = std::move( fresh );
        }
        shadow[static_cast<size_t>( slot )] = current( slot );
        std::string s = "{\"e\":\"new\",\"im\":";
        appendShadow( s, slot, shadow[static_cast<size_t>( slot )] );
        s += "}";
        emit( s );
        return slot;
    }

    struct Call
    {
        std::string op, v;
        int f = 0; // 0 regions, 1 whole images, 2 whole image returning a new one, 3 region returning a new one
        std::vector<int> in, o;
        std::vector<uint32_t> ix, iy, ox, oy;
        uint32_t w = 0, h = 0, w2 = 0, h2 = 0; // w2, h2: output size where it differs
        std::vector<int64_t> p; // integer parameters
        std::vector<uint32_t> vx, vy; // vector parameters
        // effects
        int thrown = 0;
        std::vector<uint32_t> r;
        int lane = 0;
        // device copies (OpenCL): one per slot used by the call
        bool device = false;
        uint32_t deviceAlignment = 1;
        std::map<int, std::unique_ptr<Image>> onDevice;

        // dispatch: image types of the arguments before and after the call
        std::vector<int> typeIn, typeOut, typeAfter;

        Image & at( int slot )
        {
            return device ? *onDevice.at( slot ) : at8( slot );
        }
        const Image & I( size_t k )
        {
            return at( in[k] );
        }
        Image & O( size_t k )
        {
            return at( o[k] );
        }
        Image16Bit & O16( size_t k )
        {
            return at16( o[k] );
        }
        const Image16Bit & I16( size_t k )
        {
            return at16( in[k] );
        }
        void ret( Image && im )
        {
            const int slot = lane * laneSize + 15;
#ifdef WITH_OPENCL
            if ( device ) {
                at8( slot ) = Image_Function_OpenCL::ConvertFromOpenCL( im );
                o.assign( 1, slot );
                return;
            }
#endif
            if ( v == "disp" ) {
                typeAfter.assign( 1, im.type() );
                Image plain( im.width(), im.height(), im.colorCount(), im.alignment() );
                if ( !im.empty() )
                    std::copy( im.data(), im.data() + static_cast<size_t>( im.rowSize() ) * im.height(), plain.data() );
                at8( slot ) = std::move( plain );
                o.assign( 1, slot );
                return;
            }
            at8( slot ) = std::move( im );
            o.assign( 1, slot );
        }
        void ret( Image16Bit && im )
        {
            const int slot = lane * laneSize + 19;
            at16( slot ) = std::move( im );
            o.assign( 1, slot );
        }
        double gammaOf()
        {
            static const double g[] = { 0.0, 0.5, 1.0, 2.0, 3.0 };
            return p[3] * g[p[2]];
        }
        double aOf()
        {
            return static_cast<double>( p[0] ) / static_cast<double>( p[1] );
        }
        std::vector<uint8_t> table()
        {
            std::vector<uint8_t> t( p.size() );
            for ( size_t i = 0; i < p.size(); ++i )
                t[i] = static_cast<uint8_t>( p[i] );
            return t;
        }
    };

    typedef std::function<void( Call & )> Runner;
    std::map<std::string, std::map<std::string, Runner>> table;

#define TWO( V, N, F )                                                                                                                                                   \
    table[#F][V] = []( Call & c ) {                                                                                                                                      \
        switch ( c.f ) {                                                                                                                                                 \
        case 0:                                                                                                                                                          \
            N::F( c.I( 0 ), c.ix[0], c.iy[0], c.I( 1 ), c.ix[1], c.iy[1], c.O( 0 ), c.ox[0], c.oy[0], c.w, c.h );                                                        \
            break;                                                                                                                                                       \
        case 1:                                                                                                                                                          \
            N::F( c.I( 0 ), c.I( 1 ), c.O( 0 ) );                                                                                                                        \
            break;                                                                                                                                                       \
        case 2:                                                                                                                                                          \
            c.ret( N::F( c.I( 0 ), c.I( 1 ) ) );                                                                                                                         \
            break;                                                                                                                                                       \
        default:                                                                                                                                                         \
            c.ret( N::F( c.I( 0 ), c.ix[0], c.iy[0], c.I( 1 ), c.ix[1], c.iy[1], c.w, c.h ) );                                                                           \
            break;                                                                                                                                                       \
        }                                                                                                                                                                \
    };

// ... is the list of trailing arguments (with a leading comma when not empty)
#define ONE( V, NAME, N, F, ... )                                                                                                                                        \
    table[NAME][V] = []( Call & c ) {                                                                                                                                    \
        switch ( c.f ) {                                                                                                                                                 \
        case 0:                                                                                                                                                          \
            N::F( c.I( 0 ), c.ix[0], c.iy[0], c.O( 0 ), c.ox[0], c.oy[0], c.w, c.h __VA_ARGS__ );                                                                        \
            break;                                                                                                                                                       \
        case 1:                                                                                                                                                          \
            N::F( c.I( 0 ), c.O( 0 ) __VA_ARGS__ );                                                                                                                      \
            break;                                                                                                                                                       \
        case 2:                                                                                                                                                          \
            c.ret( N::F( c.I( 0 ) __VA_ARGS__ ) );                                                                                                                       \
            break;                                                                                                                                                       \
        default:                                                                                                                                                         \
            c.ret( N::F( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h __VA_ARGS__ ) );                                                                                           \
            break;                                                                                                                                                       \
        }                                                                                                                                                                \
    };
#define COMMA ,

    uint8_t u8( int64_t v )
    {
        return static_cast<uint8_t>( v );
    }

#define ONE_COMMON( V, N )                                                                                                                                               \
    ONE( V, "ConvertToRgb", N, ConvertToRgb )                                                                                                                            \
    ONE( V, "Invert", N, Invert )                                                                                                                                        \
    ONE( V, "Threshold", N, Threshold, COMMA u8( c.p[0] ) )                                                                                                              \
    ONE( V, "Threshold2", N, Threshold, COMMA u8( c.p[0] ) COMMA u8( c.p[1] ) )                                                                                          \
    ONE( V, "Flip", N, Flip, COMMA( c.p[0] != 0 ) COMMA( c.p[1] != 0 ) )

#define ONE_MORE( V, N )                                                                                                                                                 \
    ONE( V, "ConvertToGrayScale", N, ConvertToGrayScale )                                                                                                                \
    ONE( V, "ExtractChannel", N, ExtractChannel, COMMA u8( c.p[0] ) )                                                                                                    \
    ONE( V, "GammaCorrection", N, GammaCorrection, COMMA c.aOf() COMMA c.gammaOf() )                                                                                     \
    ONE( V, "LookupTable", N, LookupTable, COMMA c.table() )                                                                                                             \
    ONE( V, "Normalize", N, Normalize )

#define TWO_ALL( V, N )                                                                                                                                                  \
    TWO( V, N, AbsoluteDifference )                                                                                                                                      \
    TWO( V, N, BitwiseAnd ) TWO( V, N, BitwiseOr ) TWO( V, N, BitwiseXor ) TWO( V, N, Maximum ) TWO( V, N, Minimum ) TWO( V, N, Subtract )

#define HISTOGRAM( V, N )                                                                                                                                                \
    table["Histogram"][V] = []( Call & c ) {                                                                                                                             \
        switch ( c.f ) {                                                                                                                                                 \
        case 0:                                                                                                                                                          \
            c.r.assign( 7, 9 );                                                                                                                                          \
            N::Histogram( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h, c.r );                                                                                                   \
            break;                                                                                                                                                       \
        case 1:                                                                                                                                                          \
            c.r.assign( 256, 3 );                                                                                                                                        \
            N::Histogram( c.I( 0 ), c.r );                                                                                                                               \
            break;                                                                                                                                                       \
        case 2:                                                                                                                                                          \
            c.r = N::Histogram( c.I( 0 ) );                                                                                                                              \
            break;                                                                                                                                                       \
        default:                                                                                                                                                         \
            c.r = N::Histogram( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h );                                                                                                  \
            break;                                                                                                                                                       \
        }                                                                                                                                                                \
    };

#define PROJECTION( V, N )                                                                                                                                               \
    table["ProjectionProfile"][V] = []( Call & c ) {                                                                                                                     \
        switch ( c.f ) {                                                                                                                                                 \
        case 0:                                                                                                                                                          \
            c.r.assign( 5, 11 );                                                                                                                                         \
            N::ProjectionProfile( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h, c.p[0] != 0, c.r );                                                                              \
            break;                                                                                                                                                       \
        case 1:                                                                                                                                                          \
            N::ProjectionProfile( c.I( 0 ), c.p[0] != 0, c.r );                                                                                                          \
            break;                                                                                                                                                       \
        case 2:                                                                                                                                                          \
            c.r = N::ProjectionProfile( c.I( 0 ), c.p[0] != 0 );                                                                                                         \
            break;                                                                                                                                                       \
        default:                                                                                                                                                         \
            c.r = N::ProjectionProfile( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h, c.p[0] != 0 );                                                                             \
            break;                                                                                                                                                       \
        }                                                                                                                                                                \
    };

#define ISEQUAL( V, N )                                                                                                                                                  \
    table["IsEqual"][V] = []( Call & c ) {                                                                                                                               \
        bool b = ( c.f == 0 || c.f == 3 ) ? N::IsEqual( c.I( 0 ), c.ix[0], c.iy[0], c.I( 1 ), c.ix[1], c.iy[1], c.w, c.h ) : N::IsEqual( c.I( 0 ), c.I( 1 ) );            \
        c.r.assign( 1, b ? 1u : 0u );                                                                                                                                    \
    };

#define SUM( V, N )                                                                                                                                                      \
    table["Sum"][V] = []( Call & c ) {                                                                                                                                   \
        uint32_t s = ( c.f == 0 || c.f == 3 ) ? N::Sum( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h ) : N::Sum( c.I( 0 ) );                                                     \
        c.r.assign( 1, s );                                                                                                                                              \
    };
// Accumulate: p holds the initial contents of the result vector
#define ACCUMULATE( V, N )                                                                                                                                               \
    table["Accumulate"][V] = []( Call & c ) {                                                                                                                            \
        c.r.assign( c.p.begin(), c.p.end() );                                                                                                                            \
        if ( c.f == 0 || c.f == 3 )                                                                                                                                      \
            N::Accumulate( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h, c.r );                                                                                                  \
        else                                                                                                                                                             \
            N::Accumulate( c.I( 0 ), c.r );                                                                                                                              \
    };

#define RESIZE( V, N )                                                                                                                                                   \
    table["Resize"][V] = []( Call & c ) {                                                                                                                                \
        switch ( c.f ) {                                                                                                                                                 \
        case 0:                                                                                                                                                          \
            N::Resize( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h, c.O( 0 ), c.ox[0], c.oy[0], c.w2, c.h2 );                                                                   \
            break;                                                                                                                                                       \
        case 1:                                                                                                                                                          \
            N::Resize( c.I( 0 ), c.O( 0 ) );                                                                                                                             \
            break;                                                                                                                                                       \
        case 2:                                                                                                                                                          \
            c.ret( N::Resize( c.I( 0 ), c.w2, c.h2 ) );                                                                                                                  \
            break;                                                                                                                                                       \
        default:                                                                                                                                                         \
            c.ret( N::Resize( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h, c.w2, c.h2 ) );                                                                                      \
            break;                                                                                                                                                       \
        }                                                                                                                                                                \
    };

#define MERGE_SPLIT( V, N )                                                                                                                                              \
    table["Merge"][V] = []( Call & c ) {                                                                                                                                 \
        switch ( c.f ) {                                                                                                                                                 \
        case 0:                                                                                                                                                          \
            N::Merge( c.I( 0 ), c.ix[0], c.iy[0], c.I( 1 ), c.ix[1], c.iy[1], c.I( 2 ), c.ix[2], c.iy[2], c.O( 0 ), c.ox[0], c.oy[0], c.w, c.h );                         \
            break;                                                                                                                                                       \
        case 1:                                                                                                                                                          \
            N::Merge( c.I( 0 ), c.I( 1 ), c.I( 2 ), c.O( 0 ) );                                                                                                          \
            break;                                                                                                                                                       \
        case 2:                                                                                                                                                          \
            c.ret( N::Merge( c.I( 0 ), c.I( 1 ), c.I( 2 ) ) );                                                                                                           \
            break;                                                                                                                                                       \
        default:                                                                                                                                                         \
            c.ret( N::Merge( c.I( 0 ), c.ix[0], c.iy[0], c.I( 1 ), c.ix[1], c.iy[1], c.I( 2 ), c.ix[2], c.iy[2], c.w, c.h ) );                                           \
            break;                                                                                                                                                       \
        }                                                                                                                                                                \
    };                                                                                                                                                                   \
    table["Split"][V] = []( Call & c ) {                                                                                                                                 \
        if ( c.f == 0 || c.f == 3 )                                                                                                                                      \
            N::Split( c.I( 0 ), c.ix[0], c.iy[0], c.O( 0 ), c.ox[0], c.oy[0], c.O( 1 ), c.ox[1], c.oy[1], c.O( 2 ), c.ox[2], c.oy[2], c.w, c.h );                         \
        else                                                                                                                                                             \
            N::Split( c.I( 0 ), c.O( 0 ), c.O( 1 ), c.O( 2 ) );                                                                                                          \
    };

#define FILL( V, N )                                                                                                                                                     \
    table["Fill"][V] = []( Call & c ) {                                                                                                                                  \
        if ( c.f == 0 || c.f == 3 )                                                                                                                                      \
            N::Fill( c.O( 0 ), c.ox[0], c.oy[0], c.w, c.h, u8( c.p[0] ) );                                                                                               \
        else                                                                                                                                                             \
            N::Fill( c.O( 0 ), u8( c.p[0] ) );                                                                                                                           \
    };

#define SETPIXEL( V, N )                                                                                                                                                 \
    table["SetPixel"][V] = []( Call & c ) { N::SetPixel( c.O( 0 ), c.ox[0], c.oy[0], u8( c.p[0] ) ); };                                                                  \
    table["SetPixels"][V] = []( Call & c ) { N::SetPixel( c.O( 0 ), c.vx, c.vy, u8( c.p[0] ) ); };

#define COPY( V, N )                                                                                                                                                     \
    table["Copy"][V] = []( Call & c ) {                                                                                                                                  \
        switch ( c.f ) {                                                                                                                                                 \
        case 0:                                                                                                                                                          \
            N::Copy( c.I( 0 ), c.ix[0], c.iy[0], c.O( 0 ), c.ox[0], c.oy[0], c.w, c.h );                                                                                 \
            break;                                                                                                                                                       \
        case 1:                                                                                                                                                          \
            N::Copy( c.I( 0 ), c.O( 0 ) );                                                                                                                               \
            break;                                                                                                                                                       \
        default:                                                                                                                                                         \
            c.ret( N::Copy( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h ) );                                                                                                    \
            break;                                                                                                                                                       \
        }                                                                                                                                                                \
    };

#define DEPTH( V, N )                                                                                                                                                    \
    table["ConvertTo16Bit"][V] = []( Call & c ) {                                                                                                                        \
        switch ( c.f ) {                                                                                                                                                 \
        case 0:                                                                                                                                                          \
            N::ConvertTo16Bit( c.I( 0 ), c.ix[0], c.iy[0], c.O16( 0 ), c.ox[0], c.oy[0], c.w, c.h );                                                                     \
            break;                                                                                                                                                       \
        case 1:                                                                                                                                                          \
            N::ConvertTo16Bit( c.I( 0 ), c.O16( 0 ) );                                                                                                                   \
            break;                                                                                                                                                       \
        case 2:                                                                                                                                                          \
            c.ret( N::ConvertTo16Bit( c.I( 0 ) ) );                                                                                                                      \
            break;                                                                                                                                                       \
        default:                                                                                                                                                         \
            c.ret( N::ConvertTo16Bit( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h ) );                                                                                          \
            break;                                                                                                                                                       \
        }                                                                                                                                                                \
    };                                                                                                                                                                   \
    table["ConvertTo8Bit"][V] = []( Call & c ) {                                                                                                                         \
        switch ( c.f ) {                                                                                                                                                 \
        case 0:                                                                                                                                                          \
            N::ConvertTo8Bit( c.I16( 0 ), c.ix[0], c.iy[0], c.O( 0 ), c.ox[0], c.oy[0], c.w, c.h );                                                                      \
            break;                                                                                                                                                       \
        case 1:                                                                                                                                                          \
            N::ConvertTo8Bit( c.I16( 0 ), c.O( 0 ) );                                                                                                                    \
            break;                                                                                                                                                       \
        case 2:                                                                                                                                                          \
            c.ret( N::ConvertTo8Bit( c.I16( 0 ) ) );                                                                                                                     \
            break;                                                                                                                                                       \
        default:                                                                                                                                                         \
            c.ret( N::ConvertTo8Bit( c.I16( 0 ), c.ix[0], c.iy[0], c.w, c.h ) );                                                                                         \
            break;                                                                                                                                                       \
        }                                                                                                                                                                \
    };

    double shiftOf( int64_t v )
    {
        return static_cast<double>( v ) / 4.0;
    }
    double angleOf( int64_t v )
    {
        if ( v < 10 )
            return static_cast<double>( v ) * 1.57079632679489661923;
        const int64_t k = v - 10;
        double c = k < 8 ? 3 : 5, s = k < 8 ? 4 : 12;
        if ( k % 2 )
            std::swap( c, s );
        return std::atan2( ( k / 4 ) % 2 ? -s : s, ( k / 2 ) % 2 ? -c : c );
    }

    void registerAll()
    {
        {
            TWO_ALL( "ref", Image_Function )
            ONE_COMMON( "ref", Image_Function )
            ONE_MORE( "ref", Image_Function )
            ONE( "ref", "RgbToBgr", Image_Function, RgbToBgr )
            ONE( "ref", "RgbToRgba", Image_Function, RgbToRgba )
            ONE( "ref", "RgbaToRgb", Image_Function, RgbaToRgb )
            ONE( "ref", "Median", Image_Function, Median, COMMA static_cast<uint32_t>( c.p[0] ) )
            ONE( "ref", "Sobel", Image_Function, Sobel )
            ONE( "ref", "Prewitt", Image_Function, Prewitt )
            ONE( "ref", "Transpose", Image_Function, Transpose )
            ONE( "ref", "Shift", Image_Function, Shift, COMMA shiftOf( c.p[0] ) COMMA shiftOf( c.p[1] ) )
            HISTOGRAM( "ref", Image_Function )
            PROJECTION( "ref", Image_Function )
            ISEQUAL( "ref", Image_Function )
            SUM( "ref", Image_Function )
            ACCUMULATE( "ref", Image_Function )
            RESIZE( "ref", Image_Function )
            MERGE_SPLIT( "ref", Image_Function )
            FILL( "ref", Image_Function )
            SETPIXEL( "ref", Image_Function )
            COPY( "ref", Image_Function )
            DEPTH( "ref", Image_Function )
            table["GetPixel"]["ref"] = []( Call & c ) { c.r.assign( 1, Image_Function::GetPixel( c.I( 0 ), c.ix[0], c.iy[0] ) ); };
            table["GetThreshold"]["ref"]
                = []( Call & c ) { c.r.assign( 1, Image_Function::GetThreshold( std::vector<uint32_t>( c.p.begin(), c.p.end() ) ) ); };
            table["IsBinary"]["ref"] = []( Call & c ) {
                c.r.assign( 1, ( c.f == 0 || c.f == 3 ? Image_Function::IsBinary( c.I( 0 ), c.ix[0], c.iy[0], c.w, c.h ) : Image_Function::IsBinary( c.I( 0 ) ) ) ? 1u : 0u );
            };
            table["HistogramMask"]["ref"] = []( Call & c ) {
                switch ( c.f ) {
                case 0:
                    Image_Function::Histogram( c.I( 0 ), c.ix[0], c.iy[0], c.I( 1 ), c.ix[1], c.iy[1], c.w, c.h, c.r );
                    break;
                case 1:
                    Image_Function::Histogram( c.I( 0 ), c.I( 1 ), c.r );
                    break;
                case 2:
                    c.r = Image_Function::Histogram( c.I( 0 ), c.I( 1 ) );
                    break;
                default:
                    c.r = Image_Function::Histogram( c.I( 0 ), c.ix[0], c.iy[0], c.I( 1 ), c.ix[1], c.iy[1], c.w, c.h );
                    break;
                }
            };
            table["ReplaceChannel"]["ref"] = []( Call & c ) {
                if ( c.f == 0 || c.f == 3 )
                    Image_Function::ReplaceChannel( c.I( 0 ), c.ix[0], c.iy[0], c.O( 0 ), c.ox[0], c.oy[0], c.w, c.h, u8( c.p[0] ) );
                else
                    Image_Function::ReplaceChannel( c.I( 0 ), c.O( 0 ), u8( c.p[0] ) );
            };
            table["BinaryDilate"]["ref"] = []( Call & c ) {
                if ( c.f == 0 || c.f == 3 )
                    Image_Function::BinaryDilate( c.O( 0 ), c.ox[0], c.oy[0], c.w, c.h, static_cast<uint32_t>( c.p[0] ), static_cast<uint32_t>( c.p[1] ) );
                else
                    Image_Function::BinaryDilate( c.O( 0 ), static_cast<uint32_t>( c.p[0] ), static_cast<uint32_t>( c.p[1] ) );
            };
            table["BinaryErode"]["ref"] = []( Call & c ) {
                if ( c.f == 0 || c.f == 3 )
                    Image_Function::BinaryErode( c.O( 0 ), c.ox[0], c.oy[0], c.w, c.h, static_cast<uint32_t>( c.p[0] ), static_cast<uint32_t>( c.p[1] ) );
                else
                    Image_Function::BinaryErode( c.O( 0 ), static_cast<uint32_t>( c.p[0] ), static_cast<uint32_t>( c.p[1] ) );
            };
            // p: quarter turns, centres of the input and of the output
            table["Rotate"]["ref"] = []( Call & c ) {
                const double a = angleOf( c.p[0] );
                const double cxi = static_cast<double>( c.p[1] ) / 2, cyi = static_cast<double>( c.p[2] ) / 2;
                const double cxo = static_cast<double>( c.p[3] ) / 2, cyo = static_cast<double>( c.p[4] ) / 2;
                switch ( c.f ) {
                case 0:
                    Image_Function::Rotate( c.I( 0 ), c.ix[0], c.iy[0], cxi, cyi, c.O( 0 ), c.ox[0], c.oy[0], cxo, cyo, c.w, c.h, a );
                    break;
                case 1:
                    Image_Function::Rotate( c.I( 0 ), cxi, cyi, c.O( 0 ), cxo, cyo, a );
                    break;
                case 2:
                    c.ret( Image_Function::Rotate( c.I( 0 ), cxi, cyi, a ) );
                    break;
                default:
                    c.ret( Image_Function::Rotate( c.I( 0 ), c.ix[0], c.iy[0], cxi, cyi, c.w, c.h, a ) );
                    break;
                }
            };
        }
        for ( const char * v : { "cpu", "sse", "avx", "avx512" } ) {
            TWO_ALL( v, Image_Function_Simd )
            ONE_COMMON( v, Image_Function_Simd )
            ONE( v, "RgbToBgr", Image_Function_Simd, RgbToBgr )
            PROJECTION( v, Image_Function_Simd )
            SUM( v, Image_Function_Simd )
            ACCUMULATE( v, Image_Function_Simd )
            DEPTH( v, Image_Function_Simd )
        }
        {
            TWO_ALL( "pool", Function_Pool )
            ONE_COMMON( "pool", Function_Pool )
            ONE_MORE( "pool", Function_Pool )
            ONE( "pool", "RgbToBgr", Function_Pool, RgbToBgr )
            ONE( "pool", "Transpose", Function_Pool, Transpose )
            HISTOGRAM( "pool", Function_Pool )
            PROJECTION( "pool", Function_Pool )
            ISEQUAL( "pool", Function_Pool )
            SUM( "pool", Function_Pool )
            RESIZE( "pool", Function_Pool )
            MERGE_SPLIT( "pool", Function_Pool )
        }
        // "pv" calls with plain images only, "disp" with images of several types
        for ( const char * v : { "pv", "disp" } ) {
            TWO_ALL( v, penguinV )
            ONE_COMMON( v, penguinV )
            ONE_MORE( v, penguinV )
            ONE( v, "RgbToBgr", penguinV, RgbToBgr )
            ONE( v, "Transpose", penguinV, Transpose )
            HISTOGRAM( v, penguinV )
            PROJECTION( v, penguinV )
            ISEQUAL( v, penguinV )
            SUM( v, penguinV )
            ACCUMULATE( v, penguinV )
            RESIZE( v, penguinV )
            MERGE_SPLIT( v, penguinV )
            FILL( v, penguinV )
            SETPIXEL( v, penguinV )
            COPY( v, penguinV )
            table["GetPixel"][v] = []( Call & c ) { c.r.assign( 1, penguinV::GetPixel( c.I( 0 ), c.ix[0], c.iy[0] ) ); };
        }
        {
            table["GetThreshold"]["pv"] = []( Call & c ) { c.r.assign( 1, penguinV::GetThreshold( std::vector<uint32_t>( c.p.begin(), c.p.end() ) ) ); };
        }
#ifdef WITH_OPENCL
        {
            TWO_ALL( "ocl", Image_Function_OpenCL )
            ONE_COMMON( "ocl", Image_Function_OpenCL )
            ONE_MORE( "ocl", Image_Function_OpenCL )
            HISTOGRAM( "ocl", Image_Function_OpenCL )
            PROJECTION( "ocl", Image_Function_OpenCL )
            ISEQUAL( "ocl", Image_Function_OpenCL )
            FILL( "ocl", Image_Function_OpenCL )
            SETPIXEL( "ocl", Image_Function_OpenCL )
            COPY( "ocl", Image_Function_OpenCL )
            table["GetThreshold"]["ocl"]
                = []( Call & c ) { c.r.assign( 1, Image_Function_OpenCL::GetThreshold( std::vector<uint32_t>( c.p.begin(), c.p.end() ) ) ); };
        }
#endif
    }

    bool simdAvailable( const std::string & v )
    {
        simd::EnableSimd( true );
        if ( v == "avx512" )
            return simd::actualSimdType() == simd::avx512_function;
        simd::EnableAvx512( false );
        if ( v == "avx" )
            return simd::actualSimdType() == simd::avx_function;
        simd::EnableAvx( false );
        if ( v == "sse" )
            return simd::actualSimdType() == simd::sse_function;
        return true;
    }

    void setSimd( const std::string & v )
    {
        simd::EnableSimd( false );
        if ( v == "avx512" )
            simd::EnableAvx512( true );
        else if ( v == "avx" )
            simd::EnableAvx( true );
        else if ( v == "sse" )
            simd::EnableSse( true );
        else if ( v != "cpu" )
            simd::EnableSimd( true );
    }

    int threads = 0;

    // ---------------------------------------------------------------------------------------------------------
    // generation of calls

    uint32_t alignmentOf()
    {
        static const uint32_t al[] = { 1, 1, 2, 3, 4, 4, 5, 8, 16, 32 };
        return al[rnd( 10 )];
    }

    uint32_t dimX()
    {
        if ( prof.huge )
            return chance( 70 ) ? rndIn( 4000, chance( 20 ) ? 40000 : 20000 ) : rndIn( 20, 70 );
        if ( prof.tall ) {
            static const uint32_t base[] = { 256, 257, 255, 300, 512, 513, 260, 600, 129 };
            return chance( 50 ) ? base[rnd( 9 )] + rnd( 4 ) : rndIn( 1, 6 );
        }
        if ( prof.wide ) {
            switch ( rnd( 4 ) ) {
            case 0:
                return rndIn( 1, 40 );
            case 1: {
                static const uint32_t base[] = { 16, 32, 48, 64, 96, 128 };
                return base[rnd( 6 )] + rnd( 3 ) - 1u;
            }
            default:
                return rndIn( 1, 150 );
            }
        }
        return chance( 20 ) ? rndIn( 1, 3 ) : rndIn( 1, prof.maxW );
    }
    uint32_t dimY( uint32_t width )
    {
        if ( prof.huge )
            return width > 1000 ? rndIn( 1, 2 ) : rndIn( 250, 700 );
        if ( prof.tall ) {
            static const uint32_t base[] = { 256, 257, 255, 300, 512, 513, 260, 600, 129 };
            return width > 100 ? rndIn( 1, 5 ) : base[rnd( 9 )] + rnd( 4 );
        }
        if ( prof.wide )
            return rndIn( 1, 4 );
        return chance( 20 ) ? rndIn( 1, 3 ) : rndIn( 1, prof.maxH );
    }

    int contentMode( bool binary )
    {
        static const int any[] = { 0, 0, 0, 1, 1, 3, 4, 4, 2, 5 };
        static const int bin[] = { 2, 5, 6, 2, 5, 6, 7, 8 };
        if ( prof.huge && !binary && chance( 60 ) )
            return chance( 50 ) ? 8 : 6;
        return binary ? bin[rnd( 8 )] : any[rnd( 10 )];
    }

    // creates an image able to hold a region of w x h and chooses the region
    int place( uint32_t w, uint32_t h, uint32_t cc, bool whole, uint32_t & x, uint32_t & y, bool binary, bool wide16 = false )
    {
        uint32_t W = w, H = h;
        if ( !whole ) {
            W += chance( 40 ) ? 0 : rndIn( 1, 6 );
            if ( prof.wide && chance( 30 ) )
                W += rndIn( 20, 100 ); // room for a whole vector beside the region
            H += chance( 40 ) ? 0 : rndIn( 1, 3 );
        }
        x = rnd( W - w + 1 );
        y = rnd( H - h + 1 );
        if ( chance( 25 ) ) {
            x = W - w;
            y = H - h;
        }
        // occasionally reuse an image that is already there
        if ( chance( 25 ) ) {
            for ( int attempt = 0; attempt < 4; ++attempt ) {
                const int s = lane * laneSize + ( wide16 ? 16 + static_cast<int>( rnd( 3 ) ) : static_cast<int>( rnd( 12 ) ) );
                const Shadow & sh = shadow[static_cast<size_t>( s )];
                if ( sh.cc == cc && !sh.d.empty() && ( whole ? ( sh.w == w && sh.h == h ) : ( sh.w >= w && sh.h >= h ) ) && !binary ) {
                    x = rnd( sh.w - w + 1 );
                    y = rnd( sh.h - h + 1 );
                    return s;
                }
            }
        }
        return newImage( W, H, cc, alignmentOf(), contentMode( binary ), wide16 );
    }

    uint32_t anyCc()
    {
        static const uint32_t cc[] = { 1, 1, 3, 4 };
        return cc[rnd( 4 )];
    }

    bool isTwo( const std::string & op )
    {
        return op == "AbsoluteDifference" || op == "BitwiseAnd" || op == "BitwiseOr" || op == "BitwiseXor" || op == "Maximum" || op == "Minimum" || op == "Subtract";
    }

    // which operations allow the output to be the very same image and region as the input
    bool aliasable( const std::string & op )
    {
        return isTwo( op ) || op == "Invert" || op == "Threshold" || op == "Threshold2" || op == "LookupTable" || op == "GammaCorrection" || op == "Normalize" || op == "Copy";
    }

    Call generate( const std::string & op, const std::string & v )
    {
        Call c;
        c.op = op;
        c.v = v;
        c.lane = lane;
        static const int forms[] = { 0, 0, 0, 1, 2, 3 };
        c.f = forms[rnd( 6 )];
        const bool whole = c.f == 1 || c.f == 2;
        const bool returns = c.f >= 2;
        const uint32_t w0 = dimX();
        uint32_t w = w0, h = dimY( w0 );
        std::vector<uint32_t> inCc, outCc;
        bool binary = false, in16 = false, out16 = false;
        uint32_t common = anyCc();

        if ( isTwo( op ) || op == "IsEqual" ) {
            inCc = { common, common };
            if ( op != "IsEqual" )
                outCc = { common };
        }
        else if ( op == "Invert" || op == "Copy" || op == "Normalize" || op == "LookupTable" || op == "GammaCorrection" || op == "Resize" || op == "ConvertTo16Bit"
                  || op == "ConvertTo8Bit" ) {
            inCc = { common };
            outCc = { common };
            in16 = op == "ConvertTo8Bit";
            out16 = op == "ConvertTo16Bit";
        }
        else if ( op == "Flip" || op == "Threshold" || op == "Threshold2" || op == "Median" || op == "Sobel" || op == "Prewitt" || op == "Transpose" || op == "Shift"
                  || op == "Rotate" ) {
            inCc = { 1 };
            outCc = { 1 };
        }
        else if ( op == "ConvertToGrayScale" || op == "ExtractChannel" ) {
            inCc = { common };
            outCc = { 1 };
        }
        else if ( op == "ConvertToRgb" ) {
            inCc = { common };
            outCc = { 3 };
        }
        else if ( op == "RgbToBgr" ) {
            inCc = { 3 };
            outCc = { 3 };
        }
        else if ( op == "RgbToRgba" ) {
            inCc = { 3 };
            outCc = { 4 };
        }
        else if ( op == "RgbaToRgb" ) {
            inCc = { 4 };
            outCc = { 3 };
        }
        else if ( op == "Merge" ) {
            inCc = { 1, 1, 1 };
            outCc = { 3 };
        }
        else if ( op == "Split" ) {
            inCc = { 3 };
            outCc = { 1, 1, 1 };
        }
        else if ( op == "ReplaceChannel" ) {
            inCc = { 1 };
            outCc = { 3 };
        }
        else if ( op == "Histogram" || op == "ProjectionProfile" || op == "Accumulate" ) {
            inCc = { common };
        }
        else if ( op == "HistogramMask" ) {
            inCc = { common, 1 };
        }
        else if ( op == "Sum" || op == "IsBinary" || op == "GetPixel" ) {
            inCc = { 1 };
            binary = op == "IsBinary" && chance( 60 );
        }
        else if ( op == "Fill" ) {
            outCc = { common };
        }
        else if ( op == "SetPixel" || op == "SetPixels" ) {
            outCc = { 1 };
        }
        else if ( op == "BinaryDilate" || op == "BinaryErode" ) {
            outCc = { 1 };
            binary = true;
        }

        uint32_t wOut = w, hOut = h;
        if ( op == "Resize" ) {
            wOut = dimX();
            hOut = dimY( w );
            if ( chance( 30 ) )
                wOut = w * rndIn( 1, 3 );
            if ( chance( 30 ) )
                hOut = h * rndIn( 1, 3 );
        }
        if ( op == "Transpose" )
            std::swap( wOut, hOut );
        const bool bigKernel = op == "Median" && prof.tall && chance( 40 );
        if ( bigKernel ) { // more than 255 values of a kernel
            w = rndIn( 18, 22 );
            h = rndIn( 18, 22 );
        }
        if ( ( op == "Median" || op == "Sobel" || op == "Prewitt" ) ) {
            w = std::max( w, 3u );
            h = std::max( h, 3u );
            wOut = w;
            hOut = h;
        }

        c.w = w;
        c.h = h;
        c.w2 = wOut;
        c.h2 = hOut;

        for ( size_t k = 0; k < inCc.size(); ++k ) {
            uint32_t x = 0, y = 0;
            // masks and equality candidates
            int s;
            if ( op == "IsEqual" && k == 1 && chance( 60 ) ) {
                // a second image equal to the first one in the region, except possibly for one pixel
                s = place( w, h, inCc[k], whole, x, y, false );
                if ( s != c.in[0] ) {
                    Image & b = at8( s );
                    const Image & a = at8( c.in[0] );
                    for ( uint32_t j = 0; j < h; ++j )
                        for ( uint32_t i = 0; i < w * inCc[k]; ++i )
                            b.data()[( y + j ) * b.rowSize() + x * inCc[k] + i] = a.data()[( c.iy[0] + j ) * a.rowSize() + c.ix[0] * inCc[k] + i];
                    if ( chance( 50 ) )
                        b.data()[( y + rnd( h ) ) * b.rowSize() + x * inCc[k] + rnd( w * inCc[k] )] ^= static_cast<uint8_t>( 1u << rnd( 8 ) );
                    shadow[static_cast<size_t>( s )] = current( s );
                    std::string line = "{\"e\":\"new\",\"im\":";
                    appendShadow( line, s, shadow[static_cast<size_t>( s )] );
                    emit( line + "}" );
                }
            }
            else {
                s = place( w, h, inCc[k], whole, x, y, binary || ( op == "HistogramMask" && k == 1 && chance( 50 ) ), in16 );
            }
            c.in.push_back( s );
            c.ix.push_back( x );
            c.iy.push_back( y );
        }
        if ( !returns || op == "Split" || op == "ReplaceChannel" || op == "Fill" || op == "SetPixel" || op == "SetPixels" || op == "BinaryDilate" || op == "BinaryErode" ) {
            for ( size_t k = 0; k < outCc.size(); ++k ) {
                uint32_t x = 0, y = 0;
                int s = -1;
                if ( aliasable( op ) && !in16 && !out16 && chance( 20 ) && v != "ocl" ) {
                    const size_t which = rnd( static_cast<uint32_t>( c.in.size() ) );
                    s = c.in[which];
                    x = c.ix[which];
                    y = c.iy[which];
                    // the other input must not be the same image at another position
                    for ( size_t j = 0; j < c.in.size(); ++j )
                        if ( c.in[j] == s && ( c.ix[j] != x || c.iy[j] != y ) )
                            s = -1;
                }
                for ( int attempt = 0; s < 0; ++attempt ) {
                    s = place( wOut, hOut, outCc[k], op == "Resize" || op == "Transpose" ? c.f == 1 : whole, x, y, binary, out16 );
                    for ( int used : c.in )
                        if ( used == s )
                            s = -1;
                    for ( int used : c.o )
                        if ( used == s )
                            s = -1;
                }
                c.o.push_back( s );
                c.ox.push_back( x );
                c.oy.push_back( y );
            }
        }

        // parameters
        if ( op == "Threshold" )
            c.p = { chance( 50 ) ? static_cast<int64_t>( ( std::vector<int>{ 0, 0, 1, 127, 128, 254, 255, 255 } )[rnd( 8 )] ) : static_cast<int64_t>( rnd( 256 ) ) };
        else if ( op == "Threshold2" ) {
            int64_t a = rnd( 256 ), b = rnd( 256 );
            if ( chance( 20 ) )
                b = a;
            if ( chance( 15 ) )
                a = 0;
            if ( chance( 15 ) )
                b = 255;
            c.p = { std::min( a, b ), std::max( a, b ) };
        }
        else if ( op == "Flip" )
            c.p = { rnd( 2 ), rnd( 2 ) };
        else if ( op == "ExtractChannel" )
            c.p = { rnd( inCc[0] ) };
        else if ( op == "ReplaceChannel" )
            c.p = { rnd( 3 ) };
        else if ( op == "GammaCorrection" )
            c.p = { rndIn( 0, 6 ), rndIn( 1, 4 ), rnd( 5 ), 1 };
        else if ( op == "LookupTable" ) {
            c.p.resize( 256 );
            const int mode = static_cast<int>( rnd( 2 ) );
            for ( size_t i = 0; i < 256; ++i )
                c.p[i] = mode ? rnd( 256 ) : static_cast<int64_t>( ( i * 5 + 3 ) & 255 );
        }
        else if ( op == "Median" ) {
            std::vector<int64_t> ks;
            for ( uint32_t k = 3; k < w && k < h && k <= ( bigKernel ? 21u : 7u ); k += 2 )
                ks.push_back( k );
            c.p = { ks.empty() ? 3 : ks[rnd( static_cast<uint32_t>( ks.size() ) )] };
        }
        else if ( op == "ProjectionProfile" )
            c.p = { rnd( 2 ) };
        else if ( op == "Accumulate" ) {
            c.p.resize( static_cast<size_t>( w ) * h * inCc[0] );
            for ( int64_t & x : c.p )
                x = chance( 50 ) ? rnd( 100000 ) : 0;
        }
        else if ( op == "Fill" || op == "SetPixel" || op == "SetPixels" )
            c.p = { rnd( 256 ) };
        else if ( op == "BinaryDilate" || op == "BinaryErode" )
            c.p = { chance( 20 ) ? rnd( w + 2 ) : rnd( 5 ), chance( 20 ) ? rnd( h + 2 ) : rnd( 5 ) };
        else if ( op == "Shift" ) {
            c.p = { static_cast<int64_t>( rnd( 8 * w ) ) - 4 * static_cast<int64_t>( w ) + 4, static_cast<int64_t>( rnd( 8 * h ) ) - 4 * static_cast<int64_t>( h ) + 4 };
            for ( int64_t & x : c.p )
                if ( chance( 50 ) )
                    x = x / 4 * 4;
            if ( chance( 20 ) )
                c.p[rnd( 2 )] = 0;
            if ( chance( 96 ) )
                c.p[0] = std::min<int64_t>( std::max<int64_t>( c.p[0], -4 * ( static_cast<int64_t>( w ) - 1 ) ), 4 * ( static_cast<int64_t>( w ) - 1 ) );
            if ( chance( 96 ) )
                c.p[1] = std::min<int64_t>( std::max<int64_t>( c.p[1], -4 * ( static_cast<int64_t>( h ) - 1 ) ), 4 * ( static_cast<int64_t>( h ) - 1 ) );
        }
        else if ( op == "Rotate" ) {
            c.p = { chance( 45 ) ? 10 + static_cast<int64_t>( rnd( 16 ) ) : static_cast<int64_t>( rnd( 5 ) ) - 2, static_cast<int64_t>( rnd( 2 * w + 4 ) ), static_cast<int64_t>( rnd( 2 * h + 4 ) ),
                    static_cast<int64_t>( rnd( 2 * w + 4 ) ), static_cast<int64_t>( rnd( 2 * h + 4 ) ) };
            if ( chance( 50 ) )
                for ( size_t k = 1; k < 5; ++k )
                    c.p[k] = c.p[k] / 2 * 2;
            if ( chance( 40 ) ) { // about the same point
                c.p[3] = c.p[1];
                c.p[4] = c.p[2];
            }
            if ( returns ) {
                c.p[3] = c.p[1];
                c.p[4] = c.p[2];
            }
        }
        else if ( op == "GetThreshold" ) {
            c.p.assign( 256, 0 );
            const uint32_t n = rndIn( 1, 10 ), lo = rnd( 256 ), span = rndIn( 1, 256 );
            for ( uint32_t i = 0; i < n; ++i )
                ++c.p[( lo + rnd( span ) ) & 255];
            const int64_t scale = chance( 50 ) ? 1 : rndIn( 2, 500 );
            for ( int64_t & x : c.p )
                x *= scale;
        }
        if ( op == "GetPixel" ) {
            const Shadow & sh = shadow[static_cast<size_t>( c.in[0] )];
            c.ix[0] = rnd( sh.w );
            c.iy[0] = rnd( sh.h );
        }
        if ( op == "SetPixel" || op == "SetPixels" ) {
            const Shadow & sh = shadow[static_cast<size_t>( c.o[0] )];
            c.ox[0] = rnd( sh.w );
            c.oy[0] = rnd( sh.h );
            const uint32_t n = rndIn( 1, 6 );
            for ( uint32_t i = 0; i < n && op == "SetPixels"; ++i ) {
                c.vx.push_back( rnd( sh.w ) );
                c.vy.push_back( rnd( sh.h ) );
            }
        }
        return c;
    }

    const uint32_t big[] = { 0xFFFFFFFFu, 0xFFFFFFFEu, 0x80000000u, 0x7FFFFFFFu, 0xFFFFFFF0u };

    // makes one argument of the call invalid (the specification decides whether it really is)
    void spoil( Call & c )
    {
        const uint32_t kind = rnd( 10 );
        const size_t args = c.in.size() + c.o.size();
        const size_t which = args == 0 ? 0 : rnd( static_cast<uint32_t>( args ) );
        const bool isIn = which < c.in.size();
        const size_t k = isIn ? which : which - c.in.size();
        auto replace = [&]( uint32_t w, uint32_t h, uint32_t cc ) {
            int & slot = isIn ? c.in[k] : c.o[k];
            const bool is16 = is16Slot( slot );
            int s;
            for ( ;; ) {
                s = newImage( w, h, cc, alignmentOf(), contentMode( false ), is16 );
                bool used = false;
                for ( int x : c.in )
                    used = used || x == s;
                for ( int x : c.o )
                    used = used || x == s;
                if ( !used )
                    break;
            }
            slot = s;
        };
        if ( args > 0 && kind < 3 ) {
            const Shadow sh = shadow[static_cast<size_t>( isIn ? c.in[k] : c.o[k] )];
            if ( kind == 0 )
                replace( 0, 0, sh.cc ); // empty image
            else if ( kind == 1 ) {
                static const uint32_t ccs[] = { 1, 2, 3, 4, 5 };
                replace( sh.w, sh.h, ccs[rnd( 5 )] );
            }
            else
                replace( std::max( 1u, sh.w + rnd( 3 ) - 1 ), std::max( 1u, sh.h + rnd( 3 ) - 1 ), sh.cc );
            return;
        }
        if ( args > 0 && kind < 7 ) {
            const Shadow sh = shadow[static_cast<size_t>( isIn ? c.in[k] : c.o[k] )];
            uint32_t & x = isIn ? c.ix[k] : c.ox[k];
            uint32_t & y = isIn ? c.iy[k] : c.oy[k];
            switch ( rnd( 7 ) ) {
            case 0:
                x = sh.w - std::min( sh.w, c.w ) + 1 + rnd( 2 );
                break;
            case 1:
                y = sh.h - std::min( sh.h, c.h ) + 1 + rnd( 2 );
                break;
            case 2:
                x = big[rnd( 5 )];
                break;
            case 3:
                y = big[rnd( 5 )];
                break;
            case 4:
                c.w = 0;
                break;
            case 5:
                c.h = 0;
                break;
            default:
                if ( chance( 50 ) )
                    c.w = chance( 50 ) ? big[rnd( 5 )] : c.w + 1 + rnd( 6 );
                else
                    c.h = chance( 50 ) ? big[rnd( 5 )] : c.h + 1 + rnd( 6 );
                break;
            }
            if ( c.op != "Resize" && c.op != "Transpose" ) {
                c.w2 = c.w;
                c.h2 = c.h;
            }
            else if ( c.op == "Transpose" ) {
                c.w2 = c.h;
                c.h2 = c.w;
            }
            return;
        }
        // parameters
        if ( c.op == "Threshold2" )
            std::swap( c.p[0], c.p[1] );
        else if ( c.op == "ExtractChannel" || c.op == "ReplaceChannel" )
            c.p[0] = rnd( 8 );
        else if ( c.op == "GammaCorrection" ) {
            if ( chance( 50 ) )
                c.p[0] = -static_cast<int64_t>( rndIn( 1, 4 ) );
            else {
                c.p[2] = rndIn( 1, 4 );
                c.p[3] = -1;
            }
        }
        else if ( c.op == "LookupTable" )
            c.p.resize( chance( 50 ) ? 255 : ( chance( 50 ) ? 257 : rnd( 300 ) ), 1 );
        else if ( c.op == "Median" )
            c.p[0] = rnd( 14 );
        else if ( c.op == "Accumulate" )
            c.p.resize( c.p.size() + ( chance( 50 ) ? 1 : -1 ) );
        else if ( c.op == "SetPixels" ) {
            if ( chance( 40 ) )
                ( chance( 50 ) ? c.vx : c.vy ).pop_back();
            else if ( chance( 60 ) )
                ( chance( 50 ) ? c.vx : c.vy )[rnd( static_cast<uint32_t>( c.vx.size() ) )] = chance( 50 ) ? 0xFFFFFFFFu : shadow[static_cast<size_t>( c.o[0] )].w + 20u;
            else {
                c.vx.clear();
                c.vy.clear();
            }
        }
        else if ( c.op == "Shift" )
            c.p[rnd( 2 )] += ( chance( 50 ) ? 4 : -4 ) * static_cast<int64_t>( c.w + c.h + 2 );
        else if ( c.op == "GetThreshold" )
            c.p.resize( chance( 50 ) ? 255 : 257 );
        else if ( c.op == "Resize" && c.f != 1 ) {
            if ( chance( 50 ) )
                c.w2 = 0;
            else
                c.h2 = 0;
        }
    }


    int64_t clip( uint32_t v )
    {
        return v > 0x3FFFFFFFu ? 0x3FFFFFFF : static_cast<int64_t>( v );
    }

    template <typename T>
    void list( std::string & s, const char * name, const std::vector<T> & v )
    {
        s += ",\"";
        s += name;
        s += "\":[";
        for ( size_t i = 0; i < v.size(); ++i ) {
            if ( i )
                s += ',';
            append( s, static_cast<int64_t>( v[i] ) );
        }
        s += "]";
    }
    void listClip( std::string & s, const char * name, const std::vector<uint32_t> & v )
    {
        std::vector<int64_t> t;
        for ( uint32_t x : v )
            t.push_back( clip( x ) );
        list( s, name, t );
    }

#include "dispatch.inc"

#ifdef WITH_OPENCL
    bool refused( const std::function<void()> & f )
    {
        try {
            f();
        }
        catch ( const penguinVException & ) {
            return true;
        }
        return false;
    }

    // transfers between images of different geometry, and of empty ones, are refused
    bool transfersRefused( const Image & host, const Image & device )
    {
        const penguinV::ImageOpenCL none;
        const Image noHost;
        const uint32_t w = host.width(), h = host.height();
        Image other( w, h, host.colorCount() );
        switch ( rnd( 4 ) ) {
        case 0:
            other.resize( w + 1, h );
            break;
        case 1:
            other.resize( w, h + 1 );
            break;
        case 2:
            other.resize( h, w );
            break;
        default:
            other.setColorCount( host.colorCount() == 1 ? 3 : 1 );
        }
        if ( other.empty() || ( other.width() == w && other.height() == h && other.colorCount() == host.colorCount() ) )
            return true;
        other.fill( 5 );
        penguinV::ImageOpenCL toDevice( other.width(), other.height(), other.colorCount() ), empty;
        return refused( [&]() { Image_Function_OpenCL::ConvertFromOpenCL( device, other ); } ) && refused( [&]() { Image_Function_OpenCL::ConvertToOpenCL( host, toDevice ); } )
               && refused( [&]() { Image_Function_OpenCL::ConvertToOpenCL( host, empty ); } ) && refused( [&]() { Image_Function_OpenCL::ConvertToOpenCL( noHost ); } )
               && refused( [&]() { Image_Function_OpenCL::ConvertFromOpenCL( none ); } ) && refused( [&]() { Image_Function_OpenCL::ConvertToOpenCL( noHost, toDevice ); } );
    }
#endif

    void execute( Call & c )
    {
        try {
#ifdef WITH_OPENCL
            if ( c.v == "ocl" ) {
                for ( const std::vector<int> * slots : { &c.in, &c.o } )
                    for ( int s : *slots )
                        if ( !c.onDevice.count( s ) ) {
                            const Image & host = at8( s );
                            if ( c.deviceAlignment == 1 ) {
                                std::unique_ptr<Image> made( new Image( Image_Function_OpenCL::ConvertToOpenCL( host ) ) );
                                c.onDevice[s] = std::move( made );
                                continue;
                            }
                            std::unique_ptr<Image> d( new penguinV::ImageOpenCL( host.width(), host.height(), host.colorCount(),
                                                                                 static_cast<uint8_t>( c.deviceAlignment ) ) );
                            Image_Function_OpenCL::ConvertToOpenCL( host, *d );
                            c.onDevice[s] = std::move( d );
                        }
                c.device = true;
                if ( chance( 3 ) && !c.onDevice.empty() && !transfersRefused( at8( c.onDevice.begin()->first ), *c.onDevice.begin()->second ) ) {
                    c.thrown = 3;
                    return;
                }
            }
#endif
            if ( c.v == "disp" )
                dispatch::prepare( c );
            table[c.op][c.v]( c );
        }
        catch ( const penguinVException & ) {
            c.thrown = 1;
        }
        catch ( const std::exception & ) {
            c.thrown = 2;
        }
        catch ( ... ) {
            c.thrown = 3;
        }
        if ( c.v == "disp" ) {
            dispatch::fetch( c );
            return;
        }
#ifdef WITH_OPENCL
        // everything comes back from the device, whatever the call did
        for ( auto & d : c.onDevice ) {
            Image & host = at8( d.first );
            const Image & dev = *d.second;
            if ( dev.empty() || dev.width() != host.width() || dev.height() != host.height() || dev.colorCount() != host.colorCount() )
                host = dev.empty() ? Image() : Image_Function_OpenCL::ConvertFromOpenCL( dev );
            else
                Image_Function_OpenCL::ConvertFromOpenCL( dev, host );
        }
#endif
    }

    std::string head( const Call & c )
    {
        std::string s = "{\"e\":\"call\",\"op\":\"" + c.op + "\",\"v\":\"" + c.v + "\",\"f\":" + std::to_string( c.f );
        list( s, "i", c.in );
        list( s, "o", c.o );
        listClip( s, "ix", c.ix );
        listClip( s, "iy", c.iy );
        listClip( s, "ox", c.ox );
        listClip( s, "oy", c.oy );
        s += ",\"w\":" + std::to_string( clip( c.w ) ) + ",\"h\":" + std::to_string( clip( c.h ) ) + ",\"w2\":" + std::to_string( clip( c.w2 ) )
             + ",\"h2\":" + std::to_string( clip( c.h2 ) );
        list( s, "p", c.p );
        listClip( s, "vx", c.vx );
        listClip( s, "vy", c.vy );
        s += ",\"th\":" + std::to_string( threads );
        if ( c.v == "disp" ) {
            list( s, "ti", c.typeIn );
            list( s, "to", c.typeOut );
        }
        return s;
    }

    std::string finish( Call & c )
    {
        const int firstSlot = c.lane * laneSize;
        std::string s = head( c );
        if ( c.thrown && c.op != "Accumulate" )
            c.r.clear();
        s += ",\"t\":" + std::to_string( c.thrown );
        listClip( s, "r", c.r );
        s += ",\"ch\":[";
        bool first = true;
        for ( int i = firstSlot; i < firstSlot + laneSize; ++i ) {
            const bool isRet = c.f >= 2 && !c.thrown && !c.o.empty() && c.o[0] == i && ( i % laneSize == 19 || i % laneSize == 15 );
            Shadow now = current( i );
            if ( isRet || !( now == shadow[static_cast<size_t>( i )] ) ) {
                if ( !first )
                    s += ",";
                first = false;
                appendShadow( s, i, now );
                shadow[static_cast<size_t>( i )] = now;
            }
        }
        s += "]";
        if ( c.v == "disp" )
            s += dispatch::effects( c );
        s += "}";
        return s;
    }
}

namespace
{
    // the same call again and again: as long as it does the same as before there is nothing to record
    void repeatCall( Call & c )
    {
        const int thrown = c.thrown;
        const std::vector<uint32_t> r = c.r;
        int recorded = 0;
        for ( int n = 1; n < prof.repeat && recorded < 3; ++n ) {
            c.thrown = 0;
            c.r.clear();
            execute( c );
            bool same = c.thrown == thrown && ( c.thrown || c.r == r );
            for ( size_t i = 0; same && i < c.o.size(); ++i )
                same = current( c.o[i] ) == shadow[static_cast<size_t>( c.o[i] )];
            if ( !same || n + 1 == prof.repeat ) {
                std::string begin = head( c );
                begin.replace( begin.find( "\"call\"" ), 6, "\"begin\"" );
                emit( begin + "}" );
                emit( finish( c ) );
                ++recorded;
            }
        }
    }

    void dispatchCall( const std::string & op, const std::vector<int> & types )
    {
        setSimd( chance( 50 ) ? "all" : "cpu" );
        Call c = generate( op, "disp" );
        if ( chance( static_cast<uint32_t>( prof.invalidPercent ) ) )
            spoil( c );
        dispatch::choose( c, types );
        std::string begin = head( c );
        begin.replace( begin.find( "\"call\"" ), 6, "\"begin\"" );
        emit( begin + "}" );
        fflush( out ); // so that a crash leaves the calls that crashed
        execute( c );
        emit( finish( c ) );
    }

    // one registration history of the process-wide registry: random, or the given words of a scenario
    void dispatchEpisode( const std::vector<std::pair<std::string, std::string>> & pairs, uint32_t events, const std::string & scenario )
    {
        dispatch::base = ImageTypeManager::instance().functionTable( 0 );
        dispatch::start();
        if ( scenario.empty() ) {
            for ( uint32_t n = rnd( 12 ); n > 0; --n )
                dispatch::randomRegistration();
            for ( uint32_t n = 0; n < events; ++n ) {
                if ( chance( 15 ) )
                    dispatch::randomRegistration();
                else
                    dispatchCall( pairs[rnd( static_cast<uint32_t>( pairs.size() ) )].first, {} );
            }
            return;
        }
        std::istringstream words( scenario );
        std::string w;
        while ( words >> w ) {
            int a = 0, b = 0, c = 0, d = 0;
            if ( w == "R" ) { // type, generation, forced, with functions or without
                words >> a >> b >> c >> d;
                dispatch::registerTable( a, b, c != 0, std::vector<bool>( dispatch::fieldCount, d != 0 ) );
            }
            else if ( w == "C" ) {
                words >> a >> b;
                dispatch::registerConverter( a, b, static_cast<int>( rnd( 3 ) ) );
            }
            else if ( w == "E" ) {
                words >> a;
                dispatch::enable( a != 0 );
            }
        }
        // every combination of types
        for ( int i = 0; i < 27; ++i ) {
            std::string op = pairs[rnd( static_cast<uint32_t>( pairs.size() ) )].first;
            dispatchCall( op, { i % 3, i / 3 % 3, i / 9 } );
        }
    }

    // every episode runs in a process of its own because nothing can be removed from the registry
    int dispatchEpisodes( const std::vector<std::pair<std::string, std::string>> & pairs, uint32_t seed, uint32_t events, uint32_t episodes, const std::string & script )
    {
        std::vector<std::string> scenarios( episodes );
        if ( !script.empty() ) {
            std::ifstream f( script );
            scenarios.clear();
            for ( std::string line; std::getline( f, line ); )
                scenarios.push_back( line + " " );
        }
        for ( size_t i = 0; i < scenarios.size(); ++i ) {
            fflush( out );
            const pid_t child = fork();
            if ( child < 0 )
                return 2;
            if ( child == 0 ) {
                rng.seed( seed * 7919u + static_cast<uint32_t>( i ) );
                dispatchEpisode( pairs, events, scenarios[i] );
                fclose( out );
                _exit( 0 );
            }
            int status = 0;
            if ( waitpid( child, &status, 0 ) != child )
                return 2;
            if ( !WIFEXITED( status ) || WEXITSTATUS( status ) != 0 ) {
                fprintf( stderr, "episode %zu ended with status %d\n", i, status );
                return 1;
            }
        }
        emit( "{\"e\":\"end\"}" );
        fclose( out );
        return 0;
    }
}

int main( int argc, char ** argv )
{
    uint32_t seed = 1, events = 100, episodes = 1;
    std::string script;
    std::string path = "/dev/stdout", ops, variants;
    bool randomThreads = false;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string k = argv[i], val = argv[i + 1];
        if ( k == "--seed" )
            seed = static_cast<uint32_t>( std::stoul( val ) );
        else if ( k == "--events" )
            events = static_cast<uint32_t>( std::stoul( val ) );
        else if ( k == "--out" )
            path = val;
        else if ( k == "--ops" )
            ops = val;
        else if ( k == "--variants" )
            variants = val;
        else if ( k == "--invalid" )
            prof.invalidPercent = std::stoi( val );
        else if ( k == "--episodes" )
            episodes = static_cast<uint32_t>( std::stoul( val ) );
        else if ( k == "--script" )
            script = val;
        else if ( k == "--huge" )
            prof.huge = val == "1";
        else if ( k == "--tall" )
            prof.tall = val == "1";
        else if ( k == "--wide" )
            prof.wide = val == "1";
        else if ( k == "--maxw" )
            prof.maxW = static_cast<uint32_t>( std::stoul( val ) );
        else if ( k == "--maxh" )
            prof.maxH = static_cast<uint32_t>( std::stoul( val ) );
        else if ( k == "--repeat" )
            prof.repeat = std::stoi( val );
        else if ( k == "--conc" )
            prof.conc = std::min( std::max( 1, std::stoi( val ) ), laneMax );
        else {
            fprintf( stderr, "unknown option %s\n", k.c_str() );
            return 2;
        }
    }
    out = fopen( path.c_str(), "w" );
    if ( !out )
        return 2;
    setvbuf( out, nullptr, _IOFBF, 1 << 20 );
    rng.seed( seed );
    registerAll();
#ifdef WITH_OPENCL
    multiCL::enableDeviceSupport( true, true );
    multiCL::OpenCLDeviceManager::instance().initializeDevices();
#endif

    auto splitList = []( const std::string & s ) {
        std::vector<std::string> r;
        size_t b = 0;
        while ( b < s.size() ) {
            size_t e = s.find( ',', b );
            if ( e == std::string::npos )
                e = s.size();
            r.push_back( s.substr( b, e - b ) );
            b = e + 1;
        }
        return r;
    };
    prof.variants = splitList( variants );
    std::vector<std::string> wanted = splitList( ops );
    std::vector<std::pair<std::string, std::string>> pairs; // operation x variant that exist
    for ( const std::string & v : prof.variants ) {
        if ( ( v == "sse" || v == "avx" || v == "avx512" ) && !simdAvailable( v ) ) {
            fprintf( stderr, "unavailable %s\n", v.c_str() );
            continue;
        }
        for ( auto & t : table )
            if ( t.second.count( v ) && ( wanted.empty() || std::find( wanted.begin(), wanted.end(), t.first ) != wanted.end() ) )
                pairs.push_back( { t.first, v } );
    }
    if ( pairs.empty() ) {
        fprintf( stderr, "nothing to do\n" );
        return 2;
    }
    for ( const std::string & v : prof.variants )
        randomThreads = randomThreads || v == "pool";

    if ( prof.variants.size() == 1 && prof.variants[0] == "disp" )
        return dispatchEpisodes( pairs, seed, events, episodes, script );

    std::vector<std::pair<std::string, std::string>> order;
    for ( uint32_t n = 0; n < events; ++n ) {
        if ( order.empty() ) {
            order = pairs;
            std::shuffle( order.begin(), order.end(), rng );
        }
        const std::pair<std::string, std::string> pick = order.back();
        order.pop_back();

        if ( randomThreads && ( threads == 0 || chance( 30 ) ) ) {
            threads = static_cast<int>( rndIn( 1, 9 ) );
            ThreadPoolMonoid::instance().resize( static_cast<size_t>( threads ) );
        }
        static const char * sets[] = { "all", "cpu", "sse", "avx" };
        setSimd( pick.second == "pool" || pick.second == "pv" ? sets[rnd( 4 )] : pick.second );

        std::vector<Call> calls;
        for ( lane = 0; lane < prof.conc; ++lane ) {
            calls.push_back( generate( lane == 0 ? pick.first : pairs[rnd( static_cast<uint32_t>( pairs.size() ) )].first, pick.second ) );
            Call & c = calls.back();
            if ( table[c.op].count( pick.second ) == 0 ) {
                calls.pop_back();
                continue;
            }
            if ( chance( static_cast<uint32_t>( prof.invalidPercent ) ) )
                spoil( c );
            if ( pick.second == "ocl" && chance( 30 ) )
                c.deviceAlignment = alignmentOf();
            std::string begin = head( c );
            begin.replace( begin.find( "\"call\"" ), 6, "\"begin\"" );
            emit( begin + "}" );
        }
        lane = 0;
        fflush( out ); // so that a crash leaves the calls that crashed
        if ( calls.size() == 1 )
            execute( calls[0] );
        else {
            std::vector<std::thread> callers;
            for ( Call & c : calls )
                callers.emplace_back( [&c]() { execute( c ); } );
            for ( std::thread & t : callers )
                t.join();
        }
        for ( Call & c : calls )
            emit( finish( c ) );
        if ( prof.repeat > 1 && calls.size() == 1 )
            repeatCall( calls[0] );
    }
    emit( "{\"e\":\"end\"}" );
    fclose( out );
    return 0;
}
