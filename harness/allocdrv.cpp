// Runs histories of reserve, allocate and free on the memory pool and records where each block lies.
// Built twice: with AddressSanitizer for histories of one thread, and with -DVSCHED and the scheduler of vsched.cpp for several.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

#include "allocapi.h"
#ifdef VSCHED
#include "vsched.h"
#else
#include <csignal>
extern "C" void __sanitizer_set_death_callback( void ( *callback )() );
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( *mallocHook )( const volatile void *, size_t ), void ( *freeHook )( const volatile void * ) );
#endif

namespace
{
    FILE * out = nullptr;
    uint64_t lines = 0;
    uint64_t genState = 1;
    uint32_t rnd( uint32_t n )
    {
        genState += 0x9E3779B97F4A7C15ull;
        uint64_t z = genState;
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return static_cast<uint32_t>( ( z ^ ( z >> 31 ) ) % n );
    }
    bool chance( uint32_t p )
    {
        return rnd( 100 ) < p;
    }

    char * buffer = nullptr;
    size_t used = 0;
    const size_t bufferSize = 1 << 22;

    void flushEvents()
    {
        fwrite( buffer, 1, used, out );
        fflush( out );
        used = 0;
    }

    template <typename... A>
    void event( const char * f, A... a )
    {
        if ( used + 300 > bufferSize )
            return;
        used += static_cast<size_t>( snprintf( buffer + used, bufferSize - used, f, a... ) );
        ++lines;
    }

    bool concurrent = false;
    int64_t balance = 0;

#ifdef VSCHED
    int failures = 0;
    void failed( vsched::Failure what, const char * detail )
    {
        static const char * name[] = { "deadlock", "endless", "freed", "race", "badunlock", "destroyed" };
        if ( failures++ < 3 ) {
            event( "{\"e\":\"%s\"}\n", name[static_cast<int>( what )] );
            fprintf( stderr, "FAILURE %s: %s\n", name[static_cast<int>( what )], detail );
        }
        if ( what != vsched::Failure::DataRace && what != vsched::Failure::BadUnlock ) {
            event( "{\"e\":\"abandoned\"}\n" );
            flushEvents();
            fprintf( stderr, "ABANDONED lines=%llu\n", static_cast<unsigned long long>( lines ) );
            _exit( 42 );
        }
    }
    void setReserving( bool on )
    {
        vsched::setTag( on ? 1 : 0 );
    }
    bool blockOf( void * p, const void *& start, size_t & size, int & tag )
    {
        return vsched::blockOf( p, start, size, tag );
    }
#else
    bool recording = false;
    bool reserving = false;
    struct Block
    {
        size_t size;
        int tag;
    };
    std::map<uintptr_t, Block> * heap = nullptr;
    void onMalloc( const volatile void * p, size_t n )
    {
        if ( recording && p ) {
            recording = false;
            ( *heap )[reinterpret_cast<uintptr_t>( p )] = { n, reserving ? 1 : 0 };
            recording = true;
            ++balance;
        }
    }
    void onFree( const volatile void * p )
    {
        if ( recording && p ) {
            recording = false;
            heap->erase( reinterpret_cast<uintptr_t>( p ) );
            recording = true;
            --balance;
        }
    }
    void setReserving( bool on )
    {
        reserving = on;
    }
    bool blockOf( void * p, const void *& start, size_t & size, int & tag )
    {
        auto i = heap->upper_bound( reinterpret_cast<uintptr_t>( p ) );
        if ( i == heap->begin() )
            return false;
        --i;
        if ( i->first + i->second.size <= reinterpret_cast<uintptr_t>( p ) )
            return false;
        start = reinterpret_cast<const void *>( i->first );
        size = i->second.size;
        tag = i->second.tag;
        return true;
    }
#endif
    struct Recording
    {
        Recording()
        {
#ifndef VSCHED
            recording = true;
#endif
        }
        ~Recording()
        {
#ifndef VSCHED
            recording = false;
#endif
        }
    };

    struct Live
    {
        int id;
        void * p;
        size_t len;
        int es;
        const void * start;
    };

    Pool * pool = nullptr;
    int nextId = 0, nextBlock = 0;
    std::map<const void *, int> * blockIds = nullptr;

    uint8_t pattern( int id, size_t i )
    {
        return static_cast<uint8_t>( id * 37 + static_cast<int>( i ) * 11 + 5 );
    }

    void reserve( size_t n, int t )
    {
        event( "{\"e\":\"rescall\",\"n\":%zu,\"t\":%d,\"c\":%d}\n", n, t, concurrent ? 1 : 0 );
        int x = 0;
        {
            Recording r;
            setReserving( true );
            x = poolReserve( pool, n );
            setReserving( false );
        }
        event( "{\"e\":\"resret\",\"n\":%zu,\"t\":%d,\"x\":%d,\"c\":%d}\n", n, t, x, concurrent ? 1 : 0 );
    }

    void allocate( size_t len, int es, std::vector<Live> & mine, int t )
    {
        void * p = nullptr;
        int x = 0;
        {
            Recording r;
            x = poolAllocate( pool, es, len / static_cast<size_t>( es ), p );
        }
        const int id = nextId++;
        const void * start = nullptr;
        size_t size = 0;
        int tag = 0, known = 0;
        if ( x == 0 && blockOf( p, start, size, tag ) ) {
            known = 1;
            if ( !blockIds->count( start ) || start == p )
                ( *blockIds )[start] = nextBlock++;
        }
        const int64_t off = known ? static_cast<const char *>( p ) - static_cast<const char *>( start ) : 0;
        if ( known && tag == 0 && off != 0 )
            known = 2;
        event( "{\"e\":\"alloc\",\"id\":%d,\"len\":%zu,\"es\":%d,\"t\":%d,\"x\":%d,\"known\":%d,\"pool\":%d,\"blk\":%d,\"off\":%lld,\"cap\":%zu,\"al\":%d,\"c\":%d}\n", id, len, es, t,
               x, known, known && tag ? 1 : 0, known ? ( *blockIds )[start] : -1, static_cast<long long>( off ), size, reinterpret_cast<uintptr_t>( p ) % static_cast<size_t>( es ) == 0 ? 1 : 0,
               concurrent ? 1 : 0 );
        if ( x != 0 )
            return;
        if ( known == 1 && static_cast<size_t>( off ) + len <= size )
            for ( size_t i = 0; i < len; ++i )
                static_cast<uint8_t *>( p )[i] = pattern( id, i );
        mine.push_back( { id, p, len, es, start } );
    }

    // a number of elements whose size in bytes does not fit
    void allocateHuge( int es, int t )
    {
        void * p = nullptr;
        int x = 0;
        {
            Recording r;
            x = poolAllocate( pool, es, SIZE_MAX / static_cast<size_t>( es ) + 2u + rnd( 20 ), p );
        }
        event( "{\"e\":\"huge\",\"t\":%d,\"x\":%d}\n", t, x );
        if ( x == 0 ) {
            Recording r;
            poolFree( pool, es, p );
        }
    }

    void release( size_t index, std::vector<Live> & mine, int t )
    {
        const Live b = mine[index];
        mine.erase( mine.begin() + static_cast<std::ptrdiff_t>( index ) );
        const void * start = nullptr;
        size_t size = 0;
        int tag = 0;
        bool intact = blockOf( b.p, start, size, tag ) && start == b.start;
        for ( size_t i = 0; intact && i < b.len; ++i )
            intact = static_cast<uint8_t *>( b.p )[i] == pattern( b.id, i );
        event( "{\"e\":\"free\",\"id\":%d,\"t\":%d,\"ok\":%d,\"c\":%d}\n", b.id, t, intact ? 1 : 0, concurrent ? 1 : 0 );
        int x = 0;
        {
            Recording r;
            x = poolFree( pool, b.es, b.p );
        }
        if ( x != 0 )
            event( "{\"e\":\"freethrows\"}\n" );
    }

    void releaseAll( std::vector<Live> & mine )
    {
        while ( !mine.empty() )
            release( rnd( static_cast<uint32_t>( mine.size() ) ), mine, 0 );
    }

    // the same requests, from memory which is not in use
    void probe( const std::vector<std::pair<size_t, int>> & requests )
    {
        std::vector<Live> mine;
        for ( const auto & r : requests )
            allocate( r.first, r.second, mine, 0 );
        releaseAll( mine );
    }

    int elementFor( size_t len )
    {
        static const int sizes[] = { 1, 2, 4, 8 };
        const int es = sizes[rnd( 4 )];
        return len % static_cast<size_t>( es ) == 0 ? es : 1;
    }

    size_t someLength( size_t size )
    {
        switch ( rnd( 5 ) ) {
        case 0:
            return 1 + rnd( 4 );
        case 1:
            return 1 + rnd( static_cast<uint32_t>( size ) + 2 );
        case 2:
            return static_cast<size_t>( 1 ) << rnd( 8 );
        case 3:
            return size / 2 + rnd( 3 ) + 1;
        default:
            return 1 + rnd( static_cast<uint32_t>( size / 4 + 2 ) );
        }
    }

    std::vector<std::pair<size_t, int>> someRequests( size_t size )
    {
        std::vector<std::pair<size_t, int>> r;
        const uint32_t n = 1 + rnd( 8 );
        for ( uint32_t i = 0; i < n; ++i ) {
            const size_t len = someLength( size );
            r.push_back( { len, elementFor( len ) } );
        }
        if ( chance( 50 ) )
            std::sort( r.begin(), r.end(), []( const std::pair<size_t, int> & a, const std::pair<size_t, int> & b ) { return a.first > b.first; } );
        return r;
    }

    size_t someSize()
    {
        switch ( rnd( 5 ) ) {
        case 0:
            return 1 + rnd( 9 );
        case 1:
            return static_cast<size_t>( 1 ) << rnd( 11 );
        case 2:
            return 1 + rnd( 64 );
        default:
            return 1 + rnd( 1024 );
        }
    }

    void open( bool withPool )
    {
        used = 0;
        nextId = 0;
        nextBlock = 0;
        balance = 0;
        concurrent = false;
        blockIds->clear();
        event( "{\"e\":\"begin\"}\n" );
        if ( withPool ) {
            Recording r;
            pool = poolNew();
        }
    }

    void close()
    {
        {
            Recording r;
            poolDelete( pool );
        }
        pool = nullptr;
        event( "{\"e\":\"end\",\"leak\":%lld}\n", static_cast<long long>( balance ) );
        flushEvents();
    }

    struct Op
    {
        char what; // r a f h
        size_t n;
        int es;
    };

    void perform( const std::vector<Op> & ops, std::vector<Live> & mine, int t, bool byId )
    {
        for ( const Op & op : ops ) {
            if ( op.what == 'r' )
                reserve( op.n, t );
            else if ( op.what == 'a' )
                allocate( op.n, op.es, mine, t );
            else if ( op.what == 'h' )
                allocateHuge( op.es, t );
            else if ( op.what == 'f' && !mine.empty() ) {
                if ( !byId )
                    release( op.n % mine.size(), mine, t );
                else
                    for ( size_t i = 0; i < mine.size(); ++i )
                        if ( mine[i].id == static_cast<int>( op.n ) ) {
                            release( i, mine, t );
                            break;
                        }
            }
        }
    }

    std::vector<Op> someOps( size_t size, int n, bool reserving )
    {
        std::vector<Op> ops;
        for ( int i = 0; i < n; ++i ) {
            const uint32_t k = rnd( 100 );
            if ( k < 4 && reserving )
                ops.push_back( { 'r', chance( 20 ) ? 0 : chance( 30 ) ? size : someSize(), 1 } );
            else if ( k < 6 )
                ops.push_back( { 'h', 0, 1 << ( 1 + rnd( 3 ) ) } );
            else if ( k < 55 ) {
                const size_t len = someLength( size );
                ops.push_back( { 'a', len, elementFor( len ) } );
            }
            else
                ops.push_back( { 'f', rnd( 1000 ), 1 } );
        }
        return ops;
    }

    std::vector<Op> parse( const std::string & line )
    {
        std::vector<Op> ops;
        std::stringstream ss( line );
        std::string w, semicolon;
        size_t n;
        while ( ss >> w >> n >> semicolon )
            ops.push_back( { w[0], n, 1 } );
        return ops;
    }
}

int main( int argc, char ** argv )
{
    uint64_t seed = 1, histories = 100;
    uint32_t part = 1;
    std::string file, scripts;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string a = argv[i], v = argv[i + 1];
        if ( a == "--seed" )
            seed = strtoull( v.c_str(), nullptr, 10 );
        else if ( a == "--histories" )
            histories = strtoull( v.c_str(), nullptr, 10 );
        else if ( a == "--out" )
            file = v;
        else if ( a == "--scripts" )
            scripts = v;
        else if ( a == "--part" )
            part = static_cast<uint32_t>( atoi( v.c_str() ) );
    }
    out = file.empty() ? stdout : fopen( file.c_str(), "w" );
    if ( !out )
        return 2;
    buffer = static_cast<char *>( malloc( bufferSize ) );
    genState = seed * 7919u + 13u;
    blockIds = new std::map<const void *, int>;
    uint64_t done = 0;
    (void)part;

#ifdef VSCHED
    vsched::onFailure = failed;
    uint64_t steps = 0, choices = 0;
    std::vector<uint64_t> hashes;
    std::vector<std::vector<Op>> programs;
    size_t size = 1;
    std::vector<std::pair<size_t, int>> requests;
    for ( ; done < histories; ++done ) {
        if ( done % 4 == 0 ) {
            size = chance( 20 ) ? 1 + rnd( 16 ) : 1 + rnd( 400 );
            requests = someRequests( size );
            programs.clear();
            const uint32_t n = 2 + rnd( 2 );
            for ( uint32_t i = 0; i < n; ++i )
                programs.push_back( someOps( size, 2 + static_cast<int>( rnd( 7 ) ), false ) );
            if ( chance( 40 ) ) // the main thread reserves other memory meanwhile
                programs[0] = { { 'a', 1 + rnd( 8 ), 1 }, { 'r', chance( 30 ) ? 0 : someSize() % 500, 1 }, { 'f', 0, 1 }, { 'r', 1 + someSize() % 500, 1 }, { 'a', 1 + rnd( 30 ), 1 } };
        }
        vsched::Options o;
        o.seed = seed * 1000003u + done;
        static const vsched::Strategy strategies[] = { vsched::Strategy::Random, vsched::Strategy::Sticky, vsched::Strategy::Pct, vsched::Strategy::Sticky };
        o.strategy = strategies[rnd( 4 )];
        o.switchPercent = 5 + rnd( 60 );
        o.changePoints = 1 + rnd( 4 );
        o.expectedSteps = 20 + rnd( 200 );
        failures = 0;
        open( false );
        vsched::begin( o );
        pool = poolNew();
        reserve( size, 0 );
        probe( requests );
        std::vector<std::vector<Live>> mine( programs.size() );
        concurrent = true;
        {
            std::vector<std::thread> threads;
            for ( size_t i = 1; i < programs.size(); ++i )
                threads.emplace_back( [i, &mine, &programs] { perform( programs[i], mine[i], static_cast<int>( i ), false ); } );
            perform( programs[0], mine[0], 0, false );
            for ( std::thread & t : threads )
                t.join();
        }
        concurrent = false;
        for ( auto & m : mine )
            releaseAll( m );
        probe( requests );
        poolDelete( pool );
        event( "{\"e\":\"end\",\"leak\":0}\n" );
        vsched::end();
        flushEvents();
        steps += vsched::steps();
        choices += vsched::switches();
        hashes.push_back( vsched::hash() ^ ( done / 4 * 0x9E3779B97F4A7C15ull ) );
    }
    std::sort( hashes.begin(), hashes.end() );
    printf( "STATS histories=%llu steps=%llu choices=%llu distinct=%zu\n", static_cast<unsigned long long>( done ), static_cast<unsigned long long>( steps ),
            static_cast<unsigned long long>( choices ), static_cast<size_t>( std::unique( hashes.begin(), hashes.end() ) - hashes.begin() ) );
#else
    heap = new std::map<uintptr_t, Block>;
    __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree );
    // what was recorded is kept when the process dies or hangs
    __sanitizer_set_death_callback( flushEvents );
    signal( SIGALRM, []( int ) {
        flushEvents();
        _exit( 98 );
    } );
    const char * tier = getenv( "VERIF_TIER_USED" );
    alarm( tier && strcmp( tier, "thorough" ) == 0 ? 150 : 30 );
    auto complete = [&]( const std::vector<Op> & ops, bool byId ) {
        open( true );
        std::vector<Live> mine;
        size_t size = 0;
        for ( const Op & op : ops )
            if ( op.what == 'r' && op.n > 0 )
                size = op.n; // most likely
        perform( ops, mine, 0, byId );
        releaseAll( mine );
        // what the pool can do once everything has been freed, compared with what it can do when new
        std::vector<std::pair<size_t, int>> requests = size ? someRequests( size ) : std::vector<std::pair<size_t, int>>();
        for ( const Op & op : ops )
            if ( op.what == 'a' && requests.size() < 12 && chance( 50 ) )
                requests.push_back( { op.n, op.es } );
        if ( size ) {
            std::vector<std::pair<size_t, int>> descending = requests;
            std::sort( descending.begin(), descending.end(), []( const std::pair<size_t, int> & a, const std::pair<size_t, int> & b ) { return a.first > b.first; } );
            probe( descending );
            probe( requests );
            reserve( size + 1, 0 );
            reserve( size, 0 );
            probe( requests );
            probe( requests );
            perform( ops, mine, 0, false );
            releaseAll( mine );
            reserve( size + 1, 0 );
            reserve( size, 0 );
            probe( requests );
            for ( const Op & op : ops )
                if ( op.what != 'r' )
                    perform( { op }, mine, 0, false );
            releaseAll( mine );
            probe( requests );
        }
        close();
        ++done;
    };
    if ( !scripts.empty() ) {
        std::ifstream in( scripts );
        std::string line;
        for ( uint64_t n = seed; std::getline( in, line ); ++n )
            if ( n % part == 0 )
                complete( parse( line ), true );
    }
    else
        while ( done < histories ) {
            const size_t size = someSize();
            std::vector<Op> ops = { { 'r', size, 1 } };
            if ( chance( 10 ) )
                ops.insert( ops.begin(), { 'a', 1 + rnd( 20 ), 1 } );
            const std::vector<Op> more = someOps( size, 5 + static_cast<int>( rnd( 40 ) ), true );
            ops.insert( ops.end(), more.begin(), more.end() );
            complete( ops, false );
        }
    printf( "STATS histories=%llu\n", static_cast<unsigned long long>( done ) );
#endif
    fclose( out );
    return 0;
}
