// Runs histories of operations on image objects (src/image_buffer.h) and records every image after every operation.
// A script is a line of operations "op slot [slot] numbers ;". Without a file of scripts histories are generated from the seed.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

// of the AddressSanitizer runtime
extern "C" {
int __sanitizer_install_malloc_and_free_hooks( void ( *mallocHook )( const volatile void *, size_t ), void ( *freeHook )( const volatile void * ) );
size_t __sanitizer_get_allocated_size( const volatile void * p );
int __sanitizer_get_ownership( const volatile void * p );
}

#include "image_buffer.h"
#include "penguinv_exception.h"

using namespace penguinV;

namespace
{
    FILE * out = nullptr;
    std::mt19937 rng;
    uint32_t rnd( uint32_t n )
    {
        return static_cast<uint32_t>( rng() % n );
    }
    bool chance( uint32_t p )
    {
        return rnd( 100 ) < p;
    }

    // number of heap blocks allocated minus those released while counting is on
    bool counting = false;
    int64_t blocks = 0;
    void onMalloc( const volatile void *, size_t )
    {
        blocks += counting ? 1 : 0;
    }
    void onFree( const volatile void * p )
    {
        blocks -= counting && p ? 1 : 0;
    }

    // memory of images of type 7
    std::map<void *, size_t> ledger;
    int ledgerBad = 0;

    template <typename T>
    struct Ledger : public ImageTemplate<T>
    {
        Ledger( uint32_t w, uint32_t h, uint8_t cc, uint8_t al )
            : ImageTemplate<T>( 0, 0 )
        {
            this->_setType( 7, get, put, copyMemory, setMemory );
            this->setColorCount( cc );
            this->setAlignment( al );
            this->resize( w, h );
        }
        static T * get( size_t n )
        {
            const bool c = counting;
            counting = false;
            T * p = new T[n];
            for ( size_t i = 0; i < n; ++i )
                p[i] = static_cast<T>( 0xA5A5 + i );
            ledger[p] = n;
            counting = c;
            return p;
        }
        static void put( T * p )
        {
            const bool c = counting;
            counting = false;
            if ( ledger.erase( p ) == 0 )
                ++ledgerBad;
            else
                delete[] p;
            counting = c;
        }
        static void copyMemory( T * to, T * from, size_t bytes )
        {
            if ( ledger.count( to ) == 0 || ledger.count( from ) == 0 || ledger[to] * sizeof( T ) < bytes || ledger[from] * sizeof( T ) < bytes )
                ++ledgerBad;
            else
                memcpy( to, from, bytes );
        }
        static void setMemory( T * p, T v, size_t bytes )
        {
            if ( ledger.count( p ) == 0 || ledger[p] * sizeof( T ) < bytes || bytes % sizeof( T ) != 0 )
                ++ledgerBad;
            else
                for ( size_t i = 0; i < bytes / sizeof( T ); ++i )
                    p[i] = v;
        }
    };

    const int slotCount = 4;
    size_t reserved = 0;

    template <typename T>
    struct World
    {
        ImageTemplate<T> * im[slotCount] = {};
        std::string last[slotCount];
        std::map<const T *, int> ids;
        int nextId = 1;

        int idOf( const T * p )
        {
            if ( !p )
                return 0;
            auto i = ids.find( p );
            if ( i != ids.end() )
                return i->second;
            return ids[p] = nextId++;
        }

        std::string dump( int s )
        {
            std::string r = "{\"id\":" + std::to_string( s );
            const ImageTemplate<T> * m = im[s];
            auto put = [&r]( const char * k, int64_t v ) { r += std::string( ",\"" ) + k + "\":" + std::to_string( std::min<int64_t>( v, 40000 ) ); };
            put( "live", m ? 1 : 0 );
            put( "ty", m ? m->type() : 0 );
            put( "w", m ? m->width() : 0 );
            put( "h", m ? m->height() : 0 );
            put( "cc", m ? m->colorCount() : 1 );
            put( "al", m ? m->alignment() : 1 );
            put( "rs", m ? m->rowSize() : 0 );
            const T * d = m ? m->data() : nullptr;
            put( "b", idOf( d ) );
            size_t n = m && d && m->height() < 10000 && m->rowSize() < 10000 ? static_cast<size_t>( m->height() ) * m->rowSize() : 0;
            int64_t have = -1;
            if ( d && m->type() == 7 )
                have = ledger.count( const_cast<T *>( d ) ) ? static_cast<int64_t>( ledger[const_cast<T *>( d )] ) : -2;
            else if ( d && reserved == 0 )
                have = __sanitizer_get_ownership( d ) ? static_cast<int64_t>( __sanitizer_get_allocated_size( d ) / sizeof( T ) ) : -2;
            put( "n", d ? have : -1 );
            r += ",\"d\":[";
            for ( size_t i = 0; i < n && i < 4096; ++i )
                r += ( i ? "," : "" ) + std::to_string( static_cast<int>( d[i] ) );
            return r + "]}";
        }
    };

    struct Op
    {
        std::string name;
        int s = 0, t = 0;
        std::vector<uint32_t> a;
    };

    bool twoSlots( const std::string & n )
    {
        return n == "cctor" || n == "mctor" || n == "casg" || n == "copy" || n == "masg" || n == "swap" || n == "eq" || n == "gen";
    }

    // Kinds of width which need more than 32 bits: in the script the width is written 4000000000 + kind
    template <typename T>
    void history( const std::vector<Op> & ops )
    {
        World<T> world;
        auto & im = world.im;
        blocks = 0;
        counting = true;
        if ( reserved )
            cpu_Memory::MemoryAllocator::instance().reserve( reserved );
        const int64_t base = blocks;
        counting = false;
        fprintf( out, "{\"e\":\"begin\",\"bits\":%d,\"res\":%zu}\n", static_cast<int>( sizeof( T ) * 8 ), reserved );
        for ( int s = 0; s < slotCount; ++s )
            world.last[s] = world.dump( s );
        for ( const Op & op : ops ) {
            auto A = [&op]( size_t k ) { return k < op.a.size() ? op.a[k] : 0u; };
            auto B = [&op]( size_t k ) { return static_cast<uint8_t>( k < op.a.size() ? op.a[k] : 0u ); };
            const bool makes = op.name == "new" || op.name == "cctor" || op.name == "mctor" || op.name == "gen";
            if ( ( im[op.s] != nullptr ) == makes || ( twoSlots( op.name ) && ( !im[op.t] || ( makes && op.s == op.t ) ) ) )
                continue; // cannot be called
            int x = 0, r = 0, b = 0, hu = 0;
            std::string dat = "[]";
            T * given = nullptr;
            // a row which needs more than 32 bits
            const size_t at = op.name == "new" || op.name == "assign" ? 1 : 0;
            if ( ( op.name == "new" || op.name == "resize" || op.name == "mutate" || op.name == "assign" ) && A( at ) > 4000000000u ) {
                const uint8_t cc = op.name == "new" || op.name == "mutate" ? B( at + 2 ) : op.name == "assign" ? B( 3 ) : im[op.s]->colorCount();
                const uint8_t al = op.name == "new" || op.name == "mutate" ? B( at + 3 ) : op.name == "assign" ? B( 4 ) : im[op.s]->alignment();
                const uint64_t row = al == 0 ? 0 : ( static_cast<uint64_t>( A( at ) ) * cc + al - 1u ) / al * al;
                hu = row > UINT32_MAX ? 1 : op.name == "mutate" ? 2 : 0;
                if ( hu == 0 || A( at + 1 ) == 0 || cc == 0 )
                    continue;
            }
            if ( op.name == "assign" && A( 0 ) ) {
                const bool ledgered = im[op.s]->type() == 7;
                const size_t n = hu ? 8 : static_cast<size_t>( A( 2 ) ) * ( ( A( 1 ) * B( 3 ) + std::max<uint32_t>( B( 4 ), 1u ) - 1 ) / std::max<uint32_t>( B( 4 ), 1u ) * std::max<uint32_t>( B( 4 ), 1u ) );
                counting = true;
                given = ledgered ? Ledger<T>::get( std::max<size_t>( n, 1 ) ) : cpu_Memory::MemoryAllocator::instance().allocate<T>( std::max<size_t>( n, 1 ) );
                counting = false;
                dat = "[";
                for ( size_t i = 0; i < std::max<size_t>( n, 1 ); ++i ) {
                    given[i] = static_cast<T>( rnd( 65536 ) );
                    if ( i < n )
                        dat += ( i ? "," : "" ) + std::to_string( static_cast<int>( given[i] ) );
                }
                dat += "]";
                world.ids.erase( given );
                b = world.idOf( given );
            }
            ImageTemplate<T> * m = im[op.s];
            ImageTemplate<T> * o = im[op.t];
            const uint8_t typeBefore = m ? m->type() : 0;
            counting = true;
            try {
                if ( op.name == "new" ) {
                    if ( op.a[0] == 7 )
                        im[op.s] = new Ledger<T>( A( 1 ), A( 2 ), B( 3 ), B( 4 ) );
                    else
                        im[op.s] = new ImageTemplate<T>( A( 1 ), A( 2 ), B( 3 ), B( 4 ) );
                }
                else if ( op.name == "del" ) {
                    im[op.s] = nullptr;
                    delete m;
                }
                else if ( op.name == "cctor" )
                    im[op.s] = new ImageTemplate<T>( *o );
                else if ( op.name == "mctor" )
                    im[op.s] = new ImageTemplate<T>( std::move( *o ) );
                else if ( op.name == "gen" )
                    im[op.s] = new ImageTemplate<T>( o->generate( A( 0 ), A( 1 ), B( 2 ), B( 3 ) ) );
                else if ( op.name == "casg" )
                    *m = *o;
                else if ( op.name == "copy" )
                    m->copy( *o );
                else if ( op.name == "masg" )
                    *m = std::move( *o );
                else if ( op.name == "swap" )
                    m->swap( *o );
                else if ( op.name == "eq" )
                    r = *m == *o ? 1 : 0;
                else if ( op.name == "resize" )
                    m->resize( A( 0 ), A( 1 ) );
                else if ( op.name == "cc" )
                    m->setColorCount( B( 0 ) );
                else if ( op.name == "al" )
                    m->setAlignment( B( 0 ) );
                else if ( op.name == "clear" )
                    m->clear();
                else if ( op.name == "assign" )
                    m->assign( given, A( 1 ), A( 2 ), B( 3 ), B( 4 ) );
                else if ( op.name == "mutate" )
                    r = m->mutate( A( 0 ), A( 1 ), B( 2 ), B( 3 ) ) ? 1 : 0;
                else if ( op.name == "fill" )
                    m->fill( static_cast<T>( A( 0 ) ) );
                else if ( op.name == "set" ) {
                    if ( !m->empty() && A( 0 ) < m->height() * m->rowSize() )
                        m->data()[A( 0 )] = static_cast<T>( A( 1 ) );
                }
                else {
                    fprintf( stderr, "unknown operation %s\n", op.name.c_str() );
                    exit( 2 );
                }
            }
            catch ( const penguinVException & ) {
                x = 1;
            }
            catch ( ... ) {
                x = 2;
            }
            if ( given && x ) { // still belongs to the caller
                if ( typeBefore == 7 )
                    Ledger<T>::put( given );
                else
                    cpu_Memory::MemoryAllocator::instance().free( given );
            }
            counting = false;
            // what is not in use any more may come again as something new
            std::map<const T *, int> used;
            for ( int s = 0; s < slotCount; ++s )
                if ( im[s] && im[s]->data() )
                    used[im[s]->data()] = world.idOf( im[s]->data() );
            world.ids = used;

            std::string line = "{\"e\":\"op\",\"op\":\"" + op.name + "\",\"s\":" + std::to_string( op.s ) + ",\"t\":" + std::to_string( op.t ) + ",\"a\":[";
            for ( size_t k = op.name == "assign" ? 1 : 0; k < op.a.size(); ++k ) {
                uint32_t v = op.a[k] > 4000000000u ? 1000000u : op.a[k];
                if ( op.name == "fill" || ( op.name == "set" && k == 1 ) )
                    v = static_cast<T>( v );
                line += ( line.back() == '[' ? "" : "," ) + std::to_string( v );
            }
            line += "],\"hu\":" + std::to_string( hu ) + ",\"x\":" + std::to_string( x ) + ",\"r\":" + std::to_string( r ) + ",\"b\":" + std::to_string( b ) + ",\"dat\":" + dat + ",\"st\":[";
            for ( int s = 0; s < slotCount; ++s ) {
                const std::string now = world.dump( s );
                if ( now != world.last[s] ) {
                    line += ( line.back() == '[' ? "" : "," ) + now;
                    world.last[s] = now;
                }
            }
            line += "],\"lv\":" + std::to_string( ledger.size() ) + ",\"lb\":" + std::to_string( ledgerBad ) + "}\n";
            fputs( line.c_str(), out );
            fflush( out );
        }
        counting = true;
        for ( int s = 0; s < slotCount; ++s )
            delete im[s];
        counting = false;
        fprintf( out, "{\"e\":\"end\",\"leak\":%lld}\n", static_cast<long long>( blocks - base + static_cast<int64_t>( ledger.size() ) + ledgerBad ) );
        for ( auto & p : ledger )
            delete[] static_cast<T *>( p.first );
        ledger.clear();
        ledgerBad = 0;
    }

    std::vector<Op> parse( const std::string & line )
    {
        std::vector<Op> ops;
        std::stringstream ss( line );
        std::string w;
        while ( ss >> w ) {
            if ( w == ";" )
                continue;
            Op op;
            op.name = w;
            ss >> op.s;
            op.t = op.s;
            if ( twoSlots( w ) )
                ss >> op.t;
            while ( ss >> w ) {
                const bool last = w.back() == ';';
                if ( last )
                    w.pop_back();
                if ( !w.empty() )
                    op.a.push_back( static_cast<uint32_t>( strtoul( w.c_str(), nullptr, 10 ) ) );
                if ( last )
                    break;
            }
            ops.push_back( op );
        }
        return ops;
    }

    std::vector<Op> generate( int length )
    {
        static const uint32_t colours[] = { 1, 1, 2, 3, 4, 7 };
        static const uint32_t alignments[] = { 1, 1, 2, 3, 4, 8, 255 };
        auto side = [] { return chance( 4 ) ? 0u : 1u + rnd( chance( 80 ) ? 4 : 9 ); };
        auto colour = [] { return chance( 3 ) ? 0u : colours[rnd( 6 )]; };
        auto align = [] { return chance( 3 ) ? 0u : alignments[rnd( chance( 95 ) ? 6 : 7 )]; };
        auto width = [&side] { return chance( 2 ) ? 4294967295u - rnd( 3 ) : side(); };
        std::vector<Op> ops;
        for ( int i = 0; i < length; ++i ) {
            Op op;
            op.s = static_cast<int>( rnd( slotCount ) );
            op.t = static_cast<int>( rnd( slotCount ) );
            switch ( rnd( 19 ) ) {
            case 0:
            case 1:
                op.name = "new";
                op.a = { chance( 35 ) ? 7u : 0u, width(), side(), colour(), align() };
                break;
            case 2:
                op.name = chance( 50 ) ? "del" : "clear";
                break;
            case 3:
                op.name = "cctor";
                break;
            case 4:
                op.name = "mctor";
                break;
            case 5:
                op.name = "casg";
                break;
            case 6:
                op.name = "copy";
                break;
            case 7:
                op.name = "masg";
                break;
            case 8:
                op.name = "swap";
                break;
            case 9:
                op.name = "eq";
                break;
            case 10:
            case 11:
                op.name = "resize";
                op.a = { width(), side() };
                break;
            case 12:
                op.name = "cc";
                op.a = { colour() };
                break;
            case 13:
                op.name = "al";
                op.a = { align() };
                break;
            case 14:
                op.name = "assign";
                op.a = { chance( 95 ) ? 1u : 0u, width(), side(), colour(), align() };
                break;
            case 15: {
                op.name = "mutate";
                op.a = { width(), side(), colour(), align() };
                if ( op.a[1] == 0 )
                    op.a[1] = 1;
                if ( op.a[0] == 0 )
                    op.a[0] = 1;
                if ( chance( 15 ) ) // row sizes whose product with the height is 2^32
                    op.a = { 4294967288u, 536870912u, 1, chance( 50 ) ? 1u : 8u };
                break;
            }
            case 16:
                op.name = "fill";
                op.a = { rnd( 65536 ) };
                break;
            case 17:
                op.name = "set";
                op.a = { rnd( 30 ), rnd( 65536 ) };
                break;
            default:
                op.name = "gen";
                op.a = { side(), side(), colour(), align() };
            }
            if ( !twoSlots( op.name ) )
                op.t = op.s;
            ops.push_back( op );
        }
        return ops;
    }
}

int main( int argc, char ** argv )
{
    uint64_t seed = 1, histories = 100;
    uint32_t part = 1;
    std::string file, scripts;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string a = argv[i], v = argv[i + 1];
        if ( a == "--seed" )
            seed = strtoull( v.c_str(), nullptr, 10 );
        else if ( a == "--histories" )
            histories = strtoull( v.c_str(), nullptr, 10 );
        else if ( a == "--out" )
            file = v;
        else if ( a == "--scripts" )
            scripts = v;
        else if ( a == "--part" ) // one of this many lines
            part = static_cast<uint32_t>( atoi( v.c_str() ) );
    }
    out = file.empty() ? stdout : fopen( file.c_str(), "w" );
    if ( !out )
        return 2;
    rng.seed( static_cast<uint32_t>( seed ) );
    {
        Ledger<uint8_t> a( 1, 1, 1, 1 );
        Ledger<uint16_t> b( 1, 1, 1, 1 );
        Image c( 1, 1 );
        Image16Bit d( 1, 1 );
    }
    __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree );

    uint64_t done = 0;
    if ( !scripts.empty() ) {
        std::ifstream in( scripts );
        std::string line;
        for ( uint64_t n = seed; std::getline( in, line ); ++n )
            if ( n % part == 0 ) {
                if ( chance( 50 ) )
                    history<uint8_t>( parse( line ) );
                else
                    history<uint16_t>( parse( line ) );
                ++done;
            }
    }
    else {
        for ( ; done < histories; ++done ) {
            const std::vector<Op> ops = generate( 10 + static_cast<int>( rnd( 40 ) ) );
            static const size_t sizes[] = { 64, 100, 1000, 4096 };
            // the reserved memory stays for the rest of the run, then it is changed now and then
            if ( done >= histories / 2 && ( reserved == 0 || chance( 10 ) ) )
                reserved = sizes[rnd( 4 )];
            if ( chance( 50 ) )
                history<uint8_t>( ops );
            else
                history<uint16_t>( ops );
        }
    }
    fclose( out );
    printf( "STATS histories=%llu\n", static_cast<unsigned long long>( done ) );
    return 0;
}
