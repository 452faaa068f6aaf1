// Runs client programs against the real thread pool under the scheduler of vsched.cpp and records what can be observed of the pool:
// calls and returns of its operations, starts and ends of tasks, and failures detected by the scheduler.
//
// A scenario is a line of text:
//   threads <n> singleton <0|1> ; <op> <op> ... ; <op> ... ; ...
// The first program runs in the main thread which also creates and destroys the pool, the others in threads of their own; program i
// owns provider i. Operations:
//   run:<n>:<barrier>:<mask>:<yields>   run n tasks; those in mask throw; tasks of a barrier wait for each other
//   wait   new   del (destroy the provider)   delw (destroy the provider, its destructor removes its tasks and waits)
//   clear  remove:<provider>  resize:<n>  stop  empty  add0   destroy (the pool, providers forget it)
//   copy (make a copy of the provider and destroy it)   assign (give it the value of a new provider)   become (go on with a copy of it)
//   hold:<n>  release    run n tasks which end only after release; both belong to the program's own provider
//   fp:<kind>:<size>  call of a multi-threaded image function; odd kinds are calls with invalid arguments
#include "vsched.h"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

#include "function_pool.h"
#include "image_function.h"
#include "penguinv_exception.h"
#include "thread_pool.h"

namespace
{
    FILE * out = nullptr;
    uint64_t lines = 0;

    // ---------------------------------------------------------------- events
    // The buffer belongs to one execution; it is written out at its end, or at a failure.
    char * buffer = nullptr;
    size_t used = 0;
    const size_t bufferSize = 1 << 22;
    uint32_t eventCount = 0;

    void event( const char * e, int p, int k, int n, int x )
    {
        if ( used + 200 > bufferSize )
            return;
        used += static_cast<size_t>( snprintf( buffer + used, bufferSize - used, "{\"e\":\"%s\",\"t\":%d,\"p\":%d,\"k\":%d,\"n\":%d,\"x\":%d}\n", e, vsched::self(), p, k, n, x ) );
        ++eventCount;
        ++lines;
    }

    void flushEvents()
    {
        fwrite( buffer, 1, used, out );
        fflush( out );
        used = 0;
    }

    // every failure is an event of its own; after these the execution cannot go on
    int failures = 0;
    void failed( vsched::Failure what, const char * detail )
    {
        static const char * name[] = { "deadlock", "endless", "freed", "race", "badunlock", "destroyed" };
        if ( failures++ < 3 ) {
            event( name[static_cast<int>( what )], 0, 0, 0, 0 );
            fprintf( stderr, "FAILURE %s: %s\n", name[static_cast<int>( what )], detail );
        }
        if ( what != vsched::Failure::DataRace && what != vsched::Failure::BadUnlock ) {
            event( "abandoned", 0, 0, 0, 0 );
            flushEvents();
            fprintf( stderr, "ABANDONED lines=%llu\n", static_cast<unsigned long long>( lines ) );
            _exit( 42 );
        }
    }

    // ---------------------------------------------------------------- scenario
    struct Op
    {
        std::string name;
        int a[4] = { 0, 0, 0, 0 };
    };

    struct Scenario
    {
        int threads = 1;
        int singleton = 0;
        std::vector<std::vector<Op>> programs;
        std::string text;
    };

    Scenario parse( const std::string & line )
    {
        Scenario s;
        s.text = line;
        std::stringstream ss( line );
        std::string w;
        bool head = true;
        while ( ss >> w ) {
            if ( w == "threads" && head )
                ss >> s.threads;
            else if ( w == "singleton" && head )
                ss >> s.singleton;
            else if ( w == ";" ) {
                s.programs.push_back( {} );
                head = false;
            }
            else {
                Op op;
                std::stringstream ws( w );
                std::string part;
                std::getline( ws, op.name, ':' );
                for ( int i = 0; i < 4 && std::getline( ws, part, ':' ); ++i )
                    op.a[i] = atoi( part.c_str() );
                s.programs.back().push_back( op );
            }
        }
        return s;
    }

    // ---------------------------------------------------------------- generation
    uint64_t genState = 1;
    uint32_t rnd( uint32_t n )
    {
        genState += 0x9E3779B97F4A7C15ull;
        uint64_t z = genState;
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return static_cast<uint32_t>( ( z ^ ( z >> 31 ) ) % n );
    }
    bool chance( uint32_t percent )
    {
        return rnd( 100 ) < percent;
    }

    std::string format( const char * f, ... )
    {
        char b[200];
        va_list l;
        va_start( l, f );
        vsnprintf( b, sizeof( b ), f, l );
        va_end( l );
        return b;
    }

    std::string clientProgram( int maxThreads, bool throwing, bool barriers, bool quiets, int rounds )
    {
        std::string s;
        for ( int r = 0; r < rounds; ++r ) {
            const bool barrier = barriers && chance( 25 );
            const int n = barrier ? 1 + static_cast<int>( rnd( static_cast<uint32_t>( maxThreads ) ) ) : 1 + static_cast<int>( rnd( chance( 80 ) ? 4 : 9 ) );
            const int mask = throwing && chance( 45 ) ? 1 + static_cast<int>( rnd( ( 1u << n ) - 1u ) ) : 0;
            s += format( "run:%d:%d:%d:%d ", n, barrier ? 1 : quiets && chance( 25 ) ? 3 : 0, mask, static_cast<int>( rnd( 3 ) ) );
            if ( chance( 10 ) )
                s += "empty ";
            if ( chance( 8 ) )
                s += chance( 60 ) ? "copy " : "assign ";
            s += "wait ";
            if ( chance( 6 ) )
                s += "wait ";
            if ( chance( 6 ) )
                s += chance( 60 ) ? "become " : "assign ";
            if ( chance( 30 ) )
                s += chance( 50 ) ? "del new " : "delw new ";
        }
        if ( chance( 20 ) )
            s += format( "run:%d:0:0:1 delw ", 1 + static_cast<int>( rnd( 5 ) ) );
        else if ( chance( 50 ) )
            s += "del ";
        return s;
    }

    std::string generate( const std::string & focus )
    {
        const int threads = 1 + static_cast<int>( rnd( chance( 70 ) ? 3 : 5 ) );
        const bool singleton = chance( 15 );
        const int clients = 1 + static_cast<int>( rnd( 3 ) );
        std::string s;
        if ( focus == "tasks" ) { // no life cycle operations
            s = format( "threads %d singleton %d ; ", threads, singleton ? 1 : 0 );
            if ( chance( 50 ) )
                s += clientProgram( threads, chance( 60 ), clients == 1, true, 1 + static_cast<int>( rnd( 3 ) ) );
            for ( int i = 1; i < clients; ++i )
                s += "; " + clientProgram( threads, chance( 60 ), false, true, 1 + static_cast<int>( rnd( 3 ) ) );
            return s;
        }
        if ( focus == "large" ) { // many tasks, threads, rounds or clients
            const uint32_t kind = rnd( 5 );
            const int many = kind == 0 ? 6 + static_cast<int>( rnd( 35 ) ) : 1 + static_cast<int>( rnd( 3 ) );
            s = format( "threads %d singleton %d ; ", many, singleton ? 1 : 0 );
            if ( kind == 0 ) // all threads are needed
                return s + format( "run:%d:%d:%d:0 wait run:%d:0:1:1 wait ", many, chance( 70 ) ? 1 : 0, static_cast<int>( rnd( 4 ) ), 1 + static_cast<int>( rnd( 60 ) ) );
            if ( kind == 1 ) {
                for ( int i = 0; i < 1 + static_cast<int>( rnd( 2 ) ); ++i )
                    s += format( "%srun:%d:0:%d:0 wait run:2:0:0:0 wait ", i == 0 ? "" : "; ", chance( 50 ) ? 250 + static_cast<int>( rnd( 20 ) ) : 10 + static_cast<int>( rnd( 120 ) ), chance( 50 ) ? static_cast<int>( rnd( 1u << 30 ) ) : 0 );
                return s;
            }
            if ( kind == 2 )
                return s + clientProgram( many, chance( 60 ), true, true, 8 + static_cast<int>( rnd( 25 ) ) );
            for ( int i = 0; i < 4 + static_cast<int>( rnd( 4 ) ); ++i )
                s += ( i == 0 ? "" : "; " ) + clientProgram( many, chance( 60 ), false, false, 1 + static_cast<int>( rnd( 3 ) ) );
            if ( kind == 4 ) { // the sizes change by a lot
                s = format( "threads %d singleton %d ; ", many, singleton ? 1 : 0 );
                for ( int i = 0; i < 3; ++i ) {
                    const int size = chance( 50 ) ? 1 + static_cast<int>( rnd( 40 ) ) : 1 + static_cast<int>( rnd( 4 ) );
                    s += format( "%sresize:%d run:%d:2:0:0 wait ", chance( 30 ) ? "stop " : "", size, size );
                }
            }
            return s;
        }
        if ( focus == "fp" ) {
            s = format( "threads %d singleton 1 ; ", threads );
            for ( int i = 0; i < clients; ++i ) {
                if ( i > 0 )
                    s += "; ";
                const int calls = 1 + static_cast<int>( rnd( 3 ) );
                for ( int c = 0; c < calls; ++c )
                    s += format( "fp:%d:%d ", static_cast<int>( rnd( 8 ) ), 2 + static_cast<int>( rnd( 8 ) ) );
            }
            return s;
        }
        // life cycle
        switch ( rnd( 5 ) ) {
        case 0: { // a sequence of sizes, nothing else happens meanwhile
            s = format( "threads %d singleton %d ; ", static_cast<int>( rnd( 4 ) ), singleton ? 1 : 0 );
            const int steps = 2 + static_cast<int>( rnd( 4 ) );
            int current = 0;
            for ( int i = 0; i < steps; ++i ) {
                if ( chance( 30 ) ) {
                    s += "stop ";
                    if ( chance( 40 ) )
                        s += "run:2:0:0:0 ";
                }
                if ( chance( 10 ) )
                    s += "add0 ";
                if ( chance( 8 ) )
                    s += "resize:0 ";
                current = 1 + static_cast<int>( rnd( 5 ) );
                s += format( "resize:%d ", current );
                const bool all = chance( 70 );
                if ( chance( 85 ) )
                    s += format( "run:%d:%d:0:1 wait ", all ? current : 3, all ? 2 : 0 );
            }
            return s;
        }
        case 1: { // tasks held by the main thread's provider, others queue behind them
            s = format( "threads %d singleton 0 ; hold:%d ", threads, threads );
            const int n = 1 + static_cast<int>( rnd( 3 ) );
            bool grows = false;
            for ( int i = 0; i < n; ++i ) {
                const uint32_t k = rnd( 5 );
                grows = grows || k == 3;
                s += k == 0 ? std::string( "clear " ) : k == 1 ? format( "remove:%d ", 1 + static_cast<int>( rnd( 2 ) ) ) : k == 2 ? std::string( "empty " ) : k == 3 ? std::string( "resize:6 " ) : std::string( "" );
            }
            s += "release wait ";
            for ( int i = 0; i < 1 + static_cast<int>( rnd( 2 ) ); ++i ) {
                s += format( "; behind run:%d:0:0:0 ", 1 + static_cast<int>( rnd( 4 ) ) );
                s += chance( 50 ) ? ( grows ? "delw " : "delq " ) : "wait ";
                if ( chance( 50 ) )
                    s += format( "new run:%d:0:0:0 wait ", 1 + static_cast<int>( rnd( 3 ) ) );
            }
            return s;
        }
        default: {
            s = format( "threads %d singleton %d ; ", threads, singleton ? 1 : 0 );
            const int n = 1 + static_cast<int>( rnd( 3 ) );
            for ( int i = 0; i < n; ++i ) {
                switch ( rnd( 6 ) ) {
                case 0:
                    s += "clear ";
                    break;
                case 1:
                    s += format( "remove:%d ", 1 + static_cast<int>( rnd( static_cast<uint32_t>( clients ) ) ) );
                    break;
                case 2:
                case 3:
                    s += format( "resize:%d ", 1 + static_cast<int>( rnd( 5 ) ) );
                    break;
                case 4:
                    s += "stop ";
                    if ( chance( 80 ) )
                        s += format( "resize:%d ", 1 + static_cast<int>( rnd( 4 ) ) );
                    break;
                default:
                    s += "empty ";
                }
            }
            if ( !singleton && chance( 20 ) )
                s += "destroy ";
            for ( int i = 0; i < clients; ++i )
                s += "; " + clientProgram( threads, chance( 30 ), false, false, 1 + static_cast<int>( rnd( 2 ) ) );
            return s;
        }
        }
    }

    // ---------------------------------------------------------------- state of an execution, read and changed by the thread that runs
    struct Provider;
    ThreadPool * pool = nullptr;
    bool poolGone = false;
    int adding = 0; // threads inside of run
    bool lifecycle = false; // an operation which must not overlap run
    bool relax = false; // barriers do not wait any longer
    bool held = false;
    int heldStarted = 0, heldWanted = -1;
    int queuedDeletes = 0; // providers still to be destroyed while their tasks are queued
    std::vector<Provider *> provider;
    std::vector<int> users; // operations of other threads which use the provider

    struct Round
    {
        int n = 0;
        int barrier = 0;
        int mask = 0;
        int yields = 0;
        int arrived = 0;
        bool hold = false;
    };

    struct Provider
    {
        int index = 0;
        Round round;
        bool waits = false; // the destructor removes the tasks and waits
        virtual ~Provider() {}
        virtual void run( int n ) = 0;
        virtual bool wait() = 0;
        virtual void forget() = 0;
        virtual Provider * copy() const = 0;
        virtual void assign() = 0;
        virtual AbstractTaskProvider & base() = 0;

        void body( size_t id )
        {
            const int k = static_cast<int>( id );
            event( "start", index, k, 0, 0 );
            ++round.arrived;
            for ( int i = 0; i < round.yields; ++i )
                vsched::point();
            if ( round.barrier == 1 )
                vsched::waitUntil( [this] { return round.arrived >= round.n || relax; } );
            else if ( round.barrier == 2 ) // all threads are needed
                vsched::waitUntil( [this] { return round.arrived >= round.n; } );
            else if ( round.barrier == 3 ) { // nothing else can happen before the task ends
                vsched::waitQuiet();
                event( "quiet", index, k, 0, 0 );
            }
            if ( round.hold ) {
                ++heldStarted;
                vsched::waitUntil( [] { return !held; } );
            }
            const bool throws = k < 31 && ( ( round.mask >> k ) & 1 );
            event( "finish", index, k, 0, throws ? 1 : 0 );
            if ( throws ) {
                switch ( ( k + round.n ) % 3 ) {
                case 0:
                    throw penguinVException( "task" );
                case 1:
                    throw std::runtime_error( "task" );
                default:
                    throw 5;
                }
            }
        }
    };

    struct OwnProvider : public Provider, public TaskProvider
    {
        OwnProvider( int i, ThreadPool * p )
            : TaskProvider( p )
        {
            index = i;
        }
        ~OwnProvider() override
        {
            if ( waits ) {
                if ( !poolGone )
                    pool->remove( this );
                _wait();
            }
        }
        void _task( size_t id ) override
        {
            body( id );
        }
        void run( int n ) override
        {
            _run( static_cast<size_t>( n ) );
        }
        bool wait() override
        {
            return _wait();
        }
        void forget() override
        {
            setThreadPool( nullptr );
        }
        Provider * copy() const override
        {
            return new OwnProvider( *this );
        }
        void assign() override
        {
            const OwnProvider other( index, poolGone ? nullptr : pool );
            TaskProvider::operator=( other );
        }
        AbstractTaskProvider & base() override
        {
            return *this;
        }
    };

    struct SharedProvider : public Provider, public TaskProviderSingleton
    {
        explicit SharedProvider( int i )
        {
            index = i;
        }
        ~SharedProvider() override
        {
            if ( waits ) {
                pool->remove( this );
                _wait();
            }
        }
        void _task( size_t id ) override
        {
            body( id );
        }
        void run( int n ) override
        {
            _run( static_cast<size_t>( n ) );
        }
        bool wait() override
        {
            return _wait();
        }
        void forget() override {}
        Provider * copy() const override
        {
            return new SharedProvider( *this );
        }
        void assign() override
        {
            const SharedProvider other( index );
            TaskProviderSingleton::operator=( other );
        }
        AbstractTaskProvider & base() override
        {
            return *this;
        }
    };

    const Scenario * current = nullptr;
    bool wantLifecycleGate = false;

    Provider * makeProvider( int i )
    {
        return current->singleton ? static_cast<Provider *>( new SharedProvider( i ) ) : static_cast<Provider *>( new OwnProvider( i, poolGone ? nullptr : pool ) );
    }

    int outcomeOf( const std::function<void()> & f )
    {
        try {
            f();
            return 0;
        }
        catch ( const penguinVException & ) {
            return 1;
        }
        catch ( ... ) {
            return 2;
        }
    }

    // the operations which must not overlap run; a user orders them with a lock of his own
    void beginLifecycle()
    {
        vsched::waitUntil( [] { return adding == 0 && !lifecycle; } );
        lifecycle = true;
        relax = true;
        vsched::order();
    }
    void endLifecycle()
    {
        vsched::order();
        lifecycle = false;
    }
    void beginRun()
    {
        if ( wantLifecycleGate ) {
            vsched::waitUntil( [] { return !lifecycle; } );
            ++adding;
            vsched::order();
        }
        else
            ++adding;
    }
    void endRun()
    {
        if ( wantLifecycleGate )
            vsched::order();
        --adding;
    }

    void deleteProvider( int me )
    {
        vsched::waitUntil( [me] { return users[static_cast<size_t>( me )] == 0 && ( !wantLifecycleGate || !lifecycle ); } );
        if ( wantLifecycleGate ) {
            // the destruction of the pool and this one must not overlap
            ++adding;
            vsched::order();
        }
        Provider * p = provider[static_cast<size_t>( me )];
        provider[static_cast<size_t>( me )] = nullptr;
        if ( p ) {
            if ( poolGone )
                p->forget();
            event( "delcall", me, 0, 0, 0 );
            delete p;
            event( "delret", me, 0, 0, 0 );
        }
        if ( wantLifecycleGate ) {
            vsched::order();
            --adding;
        }
    }

    // ---------------------------------------------------------------- multi-threaded image functions
    using penguinV::Image;

    Image pattern( uint32_t w, uint32_t h, uint8_t colours, uint32_t salt )
    {
        Image image( w, h, colours );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w * colours; ++x )
                image.data()[y * image.rowSize() + x] = static_cast<uint8_t>( x * 37u + y * 101u + salt * 13u );
        return image;
    }

    bool same( const Image & a, const Image & b )
    {
        if ( a.width() != b.width() || a.height() != b.height() || a.colorCount() != b.colorCount() )
            return false;
        for ( uint32_t y = 0; y < a.height(); ++y )
            if ( memcmp( a.data() + y * a.rowSize(), b.data() + y * b.rowSize(), a.width() * a.colorCount() ) != 0 )
                return false;
        return true;
    }

    // returns 1 when the result is right, 0 when it is wrong
    int functionPoolCall( int kind, uint32_t size, uint32_t salt )
    {
        switch ( kind ) {
        case 0: {
            const Image a = pattern( size * 3, size, 1, salt ), b = pattern( size * 3, size, 1, salt + 5 );
            return same( Function_Pool::AbsoluteDifference( a, b ), Image_Function::AbsoluteDifference( a, b ) ) ? 1 : 0;
        }
        case 2: {
            const Image a = pattern( size, size * 2, 1, salt );
            return Function_Pool::Sum( a ) == Image_Function::Sum( a ) ? 1 : 0;
        }
        case 4: {
            const Image a = pattern( size, size, 3, salt );
            return Function_Pool::Histogram( a ) == Image_Function::Histogram( a ) ? 1 : 0;
        }
        case 6: {
            const Image a = pattern( size * 2, size, 1, salt );
            return same( Function_Pool::Resize( a, size * 3, size + 1 ), Image_Function::Resize( a, size * 3, size + 1 ) ) ? 1 : 0;
        }
        // refused by the threads of the pool: grey-scale images are required
        case 1: {
            const Image a = pattern( size, size, 3, salt );
            Function_Pool::Sum( a );
            return 0;
        }
        case 3: {
            const Image a = pattern( size, size, 3, salt );
            Function_Pool::Threshold( a, 100 );
            return 0;
        }
        case 5: {
            const Image a = pattern( size, size, 4, salt );
            Image b( size, size, 4 );
            Function_Pool::Flip( a, b, true, true );
            return 0;
        }
        default: {
            const Image a = pattern( size, size, 3, salt );
            Function_Pool::LookupTable( a, std::vector<uint8_t>( 7, 0 ) );
            return 0;
        }
        }
    }

    // ---------------------------------------------------------------- programs
    bool has( const Scenario & s, const char * name )
    {
        for ( const auto & p : s.programs )
            for ( const Op & op : p )
                if ( op.name == name )
                    return true;
        return false;
    }

    void runProgram( int me, const std::vector<Op> & ops )
    {
        Provider *& own = provider[static_cast<size_t>( me )];
        for ( const Op & op : ops ) {
            if ( op.name == "run" || op.name == "hold" ) {
                if ( !own )
                    own = makeProvider( me );
                beginRun();
                if ( !poolGone ) {
                    Round & r = own->round;
                    r = Round();
                    r.n = op.a[0];
                    if ( op.name == "run" ) {
                        r.barrier = op.a[1];
                        r.mask = op.a[2];
                        r.yields = op.a[3];
                    }
                    else {
                        r.hold = true;
                        held = true;
                        heldWanted = r.n;
                    }
                    event( "runcall", me, 0, r.n, 0 );
                    const int outcome = outcomeOf( [&] { own->run( op.a[0] ); } );
                    event( "runret", me, 0, op.a[0], outcome );
                }
                endRun();
                if ( op.name == "hold" && !poolGone )
                    vsched::waitUntil( [] { return heldStarted == heldWanted; } );
            }
            else if ( op.name == "behind" )
                vsched::waitUntil( [] { return heldWanted > 0 && heldStarted == heldWanted; } );
            else if ( op.name == "release" ) {
                vsched::waitUntil( [] { return heldStarted == heldWanted && queuedDeletes == 0; } );
                held = false;
            }
            else if ( op.name == "wait" ) {
                if ( own ) {
                    event( "waitcall", me, 0, 0, 0 );
                    const bool ok = own->wait();
                    event( "waitret", me, 0, 0, ok ? 1 : 0 );
                }
            }
            else if ( op.name == "new" ) {
                if ( own )
                    deleteProvider( me );
                own = makeProvider( me );
            }
            else if ( op.name == "del" || op.name == "delq" ) {
                deleteProvider( me );
                if ( op.name == "delq" )
                    --queuedDeletes;
            }
            else if ( op.name == "delw" ) {
                if ( own ) {
                    own->waits = true;
                    deleteProvider( me );
                }
            }
            else if ( op.name == "copy" || op.name == "assign" || op.name == "become" ) {
                if ( own ) {
                    beginRun();
                    Provider * other = nullptr;
                    if ( op.name == "assign" )
                        own->assign();
                    else {
                        other = own->copy();
                        if ( poolGone )
                            other->forget();
                        if ( op.name == "copy" ) {
                            delete other;
                            other = nullptr;
                        }
                    }
                    endRun();
                    if ( other ) {
                        deleteProvider( me );
                        own = other;
                    }
                }
            }
            else if ( op.name == "clear" ) {
                relax = true;
                event( "clearcall", 0, 0, 0, 0 );
                const int x = outcomeOf( [&] { pool->clear(); } );
                event( "clearret", 0, 0, 0, x );
            }
            else if ( op.name == "remove" ) {
                const size_t i = static_cast<size_t>( op.a[0] );
                if ( i < provider.size() && provider[i] ) {
                    ++users[i];
                    relax = true;
                    event( "removecall", op.a[0], 0, 0, 0 );
                    const int x = outcomeOf( [&] { pool->remove( &provider[i]->base() ); } );
                    event( "removeret", op.a[0], 0, 0, x );
                    --users[i];
                }
            }
            else if ( op.name == "resize" || op.name == "stop" ) {
                beginLifecycle();
                const bool stop = op.name == "stop";
                event( stop ? "stopcall" : "resizecall", 0, 0, op.a[0], 0 );
                const int x = outcomeOf( [&] {
                    if ( stop )
                        pool->stop();
                    else
                        pool->resize( static_cast<size_t>( op.a[0] ) );
                } );
                event( stop ? "stopret" : "resizeret", 0, static_cast<int>( pool->threadCount() ), op.a[0], x );
                endLifecycle();
            }
            else if ( op.name == "empty" ) {
                const bool gate = has( *current, "destroy" );
                if ( gate )
                    beginRun();
                if ( !poolGone ) {
                    event( "emptycall", 0, 0, 0, 0 );
                    const bool e = pool->empty();
                    event( "emptyret", 0, 0, 0, e ? 1 : 0 );
                }
                if ( gate )
                    endRun();
            }
            else if ( op.name == "add0" ) {
                if ( !own )
                    own = makeProvider( me );
                const int x = outcomeOf( [&] { pool->add( &own->base(), 0 ); } );
                event( "add0", me, 0, 0, x );
            }
            else if ( op.name == "destroy" ) {
                beginLifecycle();
                event( "destroycall", 0, 0, 0, 0 );
                poolGone = true;
                delete pool;
                event( "destroyret", 0, 0, 0, 0 );
                endLifecycle();
            }
            else if ( op.name == "fp" ) {
                event( "fpcall", me, op.a[0], 0, 0 );
                int right = 0;
                const int x = outcomeOf( [&] { right = functionPoolCall( op.a[0], static_cast<uint32_t>( op.a[1] ), static_cast<uint32_t>( me ) ); } );
                event( "fpret", me, op.a[0], right, x );
            }
            vsched::point();
        }
    }

    void execute( const Scenario & s, const vsched::Options & options, bool calls )
    {
        current = &s;
        used = 0;
        poolGone = lifecycle = relax = held = false;
        adding = 0;
        heldStarted = 0;
        heldWanted = -1;
        queuedDeletes = 0;
        for ( const auto & p : s.programs )
            for ( const Op & op : p )
                queuedDeletes += op.name == "delq" ? 1 : 0;
        failures = 0;
        eventCount = 0;
        wantLifecycleGate = has( s, "resize" ) || has( s, "stop" ) || has( s, "destroy" );
        provider.assign( s.programs.size(), nullptr );
        users.assign( s.programs.size(), 0 );
        if ( s.singleton )
            ThreadPoolMonoid::instance().stop();

        vsched::begin( options );
        event( "begin", s.singleton, 0, s.threads, static_cast<int>( s.programs.size() ) );
        event( "resizecall", 0, 0, s.threads, 0 );
        if ( s.singleton ) {
            pool = &ThreadPoolMonoid::instance();
            if ( s.threads > 0 )
                pool->resize( static_cast<size_t>( s.threads ) );
        }
        else {
            pool = new ThreadPool( static_cast<size_t>( s.threads ) );
        }
        event( "resizeret", 0, static_cast<int>( pool->threadCount() ), s.threads, s.threads == 0 ? 3 : 0 );
        {
            std::vector<std::thread> clients;
            if ( !calls )
                for ( size_t i = 0; i < s.programs.size(); ++i )
                    provider[i] = makeProvider( static_cast<int>( i ) );
            for ( size_t i = 1; i < s.programs.size(); ++i )
                clients.emplace_back( [&s, i] { runProgram( static_cast<int>( i ), s.programs[i] ); } );
            if ( !s.programs.empty() )
                runProgram( 0, s.programs[0] );
            for ( std::thread & t : clients )
                t.join();
            for ( size_t i = 0; i < provider.size(); ++i )
                deleteProvider( static_cast<int>( i ) );
        }
        if ( s.singleton ) {
            event( "stopcall", 0, 0, 0, 0 );
            pool->stop();
            event( "stopret", 0, static_cast<int>( pool->threadCount() ), 0, 0 );
        }
        else if ( !poolGone ) {
            event( "destroycall", 0, 0, 0, 0 );
            poolGone = true;
            delete pool;
            event( "destroyret", 0, 0, 0, 0 );
        }
        event( "end", 0, static_cast<int>( vsched::managedThreads() ), 0, 0 );
        vsched::end();
        flushEvents();
    }
}

int main( int argc, char ** argv )
{
    uint64_t seed = 1;
    uint64_t executions = 1000;
    uint32_t schedules = 4;
    std::string focus = "tasks", file, scenarioFile, single;
    bool verbose = false;
    for ( int i = 1; i < argc; ++i ) {
        const std::string a = argv[i];
        const std::string v = i + 1 < argc ? argv[i + 1] : "";
        if ( a == "--seed" )
            seed = strtoull( v.c_str(), nullptr, 10 ), ++i;
        else if ( a == "--executions" )
            executions = strtoull( v.c_str(), nullptr, 10 ), ++i;
        else if ( a == "--schedules" )
            schedules = static_cast<uint32_t>( atoi( v.c_str() ) ), ++i;
        else if ( a == "--focus" )
            focus = v, ++i;
        else if ( a == "--out" )
            file = v, ++i;
        else if ( a == "--scenarios" )
            scenarioFile = v, ++i;
        else if ( a == "--scenario" )
            single = v, ++i;
        else if ( a == "--verbose" )
            verbose = true;
    }
    out = file.empty() ? stdout : fopen( file.c_str(), "w" );
    if ( !out )
        return 3;
    buffer = static_cast<char *>( malloc( bufferSize ) );
    vsched::onFailure = failed;
    genState = seed * 7919u + 13u;

    std::vector<std::string> given;
    if ( !scenarioFile.empty() ) {
        std::ifstream in( scenarioFile );
        std::string line;
        while ( std::getline( in, line ) )
            if ( !line.empty() )
                given.push_back( line );
    }
    if ( !single.empty() )
        given.push_back( single );

    uint64_t done = 0, steps = 0, switches = 0;
    std::vector<uint64_t> hashes;
    Scenario s;
    for ( uint64_t e = 0; e < executions; ++e ) {
        if ( e % schedules == 0 ) {
            if ( given.empty() )
                s = parse( generate( focus ) );
            else
                s = parse( given[( e / schedules + seed ) % given.size()] );
        }
        vsched::Options o;
        o.seed = seed * 1000003u + e;
        static const vsched::Strategy strategies[] = { vsched::Strategy::Random, vsched::Strategy::Sticky, vsched::Strategy::Pct, vsched::Strategy::Sticky, vsched::Strategy::RoundRobin };
        o.strategy = strategies[rnd( 5 )];
        static const uint32_t percents[] = { 3, 10, 30, 60 };
        o.switchPercent = percents[rnd( 4 )];
        o.changePoints = 1 + rnd( 5 );
        o.expectedSteps = 50 + rnd( 600 );
        o.spurious = chance( 30 );
        o.arena = !s.singleton;
        if ( verbose )
            fprintf( stderr, "EXECUTION %llu seed %llu: %s\n", static_cast<unsigned long long>( e ), static_cast<unsigned long long>( o.seed ), s.text.c_str() );
        execute( s, o, has( s, "fp" ) );
        if ( verbose )
            fprintf( stderr, "  steps %llu events %u\n", static_cast<unsigned long long>( vsched::steps() ), eventCount );
        ++done;
        steps += vsched::steps();
        switches += vsched::switches();
        hashes.push_back( vsched::hash() ^ std::hash<std::string>()( s.text ) );
    }
    fclose( out );
    std::sort( hashes.begin(), hashes.end() );
    const size_t distinct = static_cast<size_t>( std::unique( hashes.begin(), hashes.end() ) - hashes.begin() );
    printf( "STATS executions=%llu steps=%llu choices=%llu distinct=%zu lines=%llu\n", static_cast<unsigned long long>( done ), static_cast<unsigned long long>( steps ),
            static_cast<unsigned long long>( switches ), distinct, static_cast<unsigned long long>( lines ) );
    return 0;
}
