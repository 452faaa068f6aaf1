// Uses the real thread pool with real threads in numbers the scheduled executions do not reach: many rounds, many tasks per round,
// many pools. Only sums are recorded; the schedules are those of the operating system.
#include <atomic>
#include <memory>
#include <stdexcept>
#include <thread>

#include "penguinv_exception.h"
#include "recorder.h"
#include "thread_pool.h"

using rec::chance;
using rec::Line;
using rec::rnd;
using rec::rndIn;

namespace
{
    thread_local bool isClient = false;
    std::atomic<int64_t> running( 0 ), highest( 0 );

    struct Sums
    {
        std::atomic<int64_t> ran{ 0 }, wrong{ 0 }, off{ 0 }, late{ 0 };
        int64_t rounds = 0, missed = 0, repeated = 0, failed = 0, falsely = 0, silent = 0;
    };

    template <typename Base>
    struct Provider : public Base
    {
        template <typename... Args>
        explicit Provider( Args... a )
            : Base( a... )
        {}
        Sums * sums = nullptr;
        size_t n = 0;
        std::vector<uint8_t> times;
        std::atomic<bool> open{ false };
        int64_t thrower = -1;

        void _task( size_t id ) override
        {
            const int64_t now = ++running;
            int64_t seen = highest;
            while ( seen < now && !highest.compare_exchange_weak( seen, now ) ) {
            }
            ++sums->ran;
            if ( isClient )
                ++sums->off;
            if ( !open )
                ++sums->late;
            if ( id >= n )
                ++sums->wrong;
            else if ( times[id] < 255 )
                ++times[id]; // a task of its own for each id
            const bool throws = static_cast<int64_t>( id ) == thrower;
            if ( !open )
                ++sums->late;
            --running;
            if ( throws ) {
                if ( id % 2 )
                    throw 5;
                throw std::runtime_error( "task" );
            }
        }

        void round( size_t count, int64_t throwing )
        {
            n = count;
            times.assign( count, 0 );
            thrower = throwing;
            open = true;
            this->_run( count );
            const bool fine = this->_wait();
            open = false;
            ++sums->rounds;
            for ( const uint8_t t : times ) {
                sums->missed += t == 0;
                sums->repeated += t > 1;
            }
            sums->failed += !fine;
            sums->falsely += !fine && throwing < 0;
            sums->silent += fine && throwing >= 0;
        }
    };

    struct Work
    {
        size_t threads, clients, rounds, tasks, every; // every: which rounds throw, 0 for none
        bool singleton;
    };

    template <typename Base, typename... Args>
    void client( const Work & w, Sums & s, uint64_t salt, Args... a )
    {
        isClient = true;
        Provider<Base> p( a... );
        p.sums = &s;
        for ( size_t r = 0; r < w.rounds; ++r )
            p.round( w.tasks, w.every && ( r % w.every ) == salt % w.every ? static_cast<int64_t>( ( r + salt ) % w.tasks ) : -1 );
    }

    void emit( const char * e, const Work & w, const std::vector<std::unique_ptr<Sums>> & sums )
    {
        Line l( e );
        l.num( "threads", static_cast<int64_t>( w.threads ) ).num( "rounds", static_cast<int64_t>( w.rounds ) ).num( "tasks", static_cast<int64_t>( w.tasks ) ).num( "every", static_cast<int64_t>( w.every ) ).num( "singleton", w.singleton ).num( "high", highest );
        std::string s = "[";
        for ( size_t i = 0; i < sums.size(); ++i ) {
            const Sums & c = *sums[i];
            Line x( "client" );
            x.num( "rounds", c.rounds ).num( "ran", c.ran ).num( "wrong", c.wrong ).num( "off", c.off ).num( "late", c.late ).num( "missed", c.missed ).num( "repeated", c.repeated ).num( "failed", c.failed ).num( "falsely", c.falsely ).num( "silent", c.silent ).num( "salt", static_cast<int64_t>( i ) );
            s += ( i ? "," : "" ) + x.s + "}";
        }
        l.raw( "clients", s + "]" ).emit( true );
    }

    void rounds( Work w )
    {
        highest = 0;
        std::vector<std::unique_ptr<Sums>> sums;
        std::unique_ptr<ThreadPool> pool;
        if ( w.singleton )
            ThreadPoolMonoid::instance().resize( w.threads );
        else
            pool.reset( new ThreadPool( w.threads ) );
        std::vector<std::thread> clients;
        for ( size_t c = 0; c < w.clients; ++c ) {
            sums.emplace_back( new Sums );
            Sums & s = *sums.back();
            clients.emplace_back( [&w, &s, &pool, c]() { w.singleton ? client<TaskProviderSingleton>( w, s, c ) : client<TaskProvider>( w, s, c, pool.get() ); } );
        }
        for ( std::thread & t : clients )
            t.join();
        pool.reset();
        emit( "rounds", w, sums );
    }

    // pools which come and go, and change their size between the rounds
    void lives( Work w )
    {
        highest = 0;
        std::vector<std::unique_ptr<Sums>> sums;
        sums.emplace_back( new Sums );
        std::thread t( [&]() {
            isClient = true;
            std::unique_ptr<ThreadPool> pool;
            Provider<TaskProvider> p;
            p.sums = sums[0].get();
            for ( size_t r = 0; r < w.rounds; ++r ) {
                if ( !pool || r % 3 == 0 ) {
                    pool.reset();
                    pool.reset( new ThreadPool( 1 + r % w.threads ) );
                    p.setThreadPool( pool.get() );
                }
                else
                    pool->resize( 1 + ( r * 7 ) % w.threads );
                p.round( w.tasks, w.every && r % w.every == 0 ? static_cast<int64_t>( r % w.tasks ) : -1 );
            }
            p.setThreadPool( nullptr );
            pool.reset();
        } );
        t.join();
        emit( "lives", w, sums );
    }
}

int main( int argc, char ** argv )
{
    std::string path = "/dev/stdout";
    uint32_t events = 10;
    uint64_t seed = 1;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string k = argv[i], v = argv[i + 1];
        if ( k == "--seed" )
            seed = std::stoull( v );
        else if ( k == "--out" )
            path = v;
        else if ( k == "--events" )
            events = static_cast<uint32_t>( std::stoul( v ) );
        else
            return 2;
    }
    rec::out() = fopen( path.c_str(), "w" );
    if ( !rec::out() )
        return 2;
    rec::genState() = seed * 0x2545F4914F6CDD1Dull;
    Line( "begin" ).emit( true );
    for ( uint32_t i = 0; i < events; ++i ) {
        Work w;
        w.threads = chance( 50 ) ? rndIn( 1, 4 ) : rndIn( 2, 24 );
        w.clients = rndIn( 1, 3 );
        w.every = chance( 40 ) ? 0 : rndIn( 1, 9 );
        w.singleton = chance( 40 );
        switch ( i % 5 ) {
        case 0: // many rounds
            w.threads = rndIn( 1, 3 );
            w.clients = 1;
            w.rounds = 66000 + rnd( 3000 );
            w.tasks = 1;
            break;
        case 1:
            w.rounds = 500 + rnd( 2000 );
            w.tasks = rndIn( 1, 6 );
            break;
        case 2: // many tasks
            w.rounds = rndIn( 1, 3 );
            w.tasks = 65536 + rnd( 70000 );
            break;
        case 3:
            w.rounds = rndIn( 5, 60 );
            w.tasks = rndIn( 200, 3000 );
            break;
        default:
            w.rounds = 200 + rnd( 300 );
            w.tasks = rndIn( 1, 12 );
        }
        Line( "start" ).num( "kind", i % 5 ).num( "threads", static_cast<int64_t>( w.threads ) ).num( "clients", static_cast<int64_t>( w.clients ) ).num( "rounds", static_cast<int64_t>( w.rounds ) ).num( "tasks", static_cast<int64_t>( w.tasks ) ).emit( true );
        i % 5 == 4 ? lives( w ) : rounds( w );
    }
    Line( "end" ).emit();
    fclose( rec::out() );
    fflush( nullptr );
    _exit( 0 ); // the pool of the application is not part of this
}
