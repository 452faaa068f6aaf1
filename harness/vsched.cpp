#include "vsched.h"

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace
{
    using vsched::Failure;

    const int maxThreads = 160;

    // ---------------------------------------------------------------- real functions
    template <typename F>
    F real( const char * name )
    {
        return reinterpret_cast<F>( dlsym( RTLD_NEXT, name ) );
    }
    template <typename F>
    F realVersion( const char * name, const char * version )
    {
        void * p = dlvsym( RTLD_NEXT, name, version );
        return reinterpret_cast<F>( p ? p : dlsym( RTLD_NEXT, name ) );
    }

    struct Semaphore
    {
        std::atomic<int> value{ 0 };

        void post()
        {
            value.store( 1 );
            syscall( SYS_futex, &value, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0 );
        }
        void wait()
        {
            while ( value.exchange( 0 ) == 0 )
                syscall( SYS_futex, &value, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0 );
        }
    };

    struct Clock
    {
        uint32_t c[maxThreads];
        void clear()
        {
            memset( c, 0, sizeof( c ) );
        }
        void join( const Clock & o )
        {
            for ( int i = 0; i < maxThreads; ++i )
                if ( o.c[i] > c[i] )
                    c[i] = o.c[i];
        }
    };

    enum class State
    {
        Free,
        Runnable,
        Blocked, // on a mutex, a join or a condition of the harness
        Waiting, // on a condition variable
        Done
    };

    struct Thread
    {
        State state = State::Free;
        Semaphore sem;
        pthread_t handle{};
        const void * object = nullptr; // what it waits for
        const std::function<bool()> * condition = nullptr;
        bool timed = false;
        bool timedOut = false;
        bool quiet = false;
        bool joined = false;
        uint32_t priority = 0;
        Clock clock;
        void * ( *routine )( void * ) = nullptr;
        void * arg = nullptr;
        int id = 0;
    };

    Thread threads[maxThreads];
    int threadCount = 0;
    bool active = false;
    thread_local int selfId = -1;
    thread_local int nested = 0; // > 0: inside of the runtime

    struct Guard
    {
        Guard()
        {
            ++nested;
        }
        ~Guard()
        {
            --nested;
        }
    };

    bool managed()
    {
        return active && selfId >= 0 && nested == 0;
    }

    vsched::Options opt;
    uint64_t rngState = 1;
    uint64_t stepCount = 0, switchCount = 0, choiceHash = 0;
    std::vector<uint64_t> changeAt;
    uint32_t lowPriority = 0;
    bool fair = false;

    uint64_t next64()
    {
        rngState += 0x9E3779B97F4A7C15ull;
        uint64_t z = rngState;
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31 );
    }

    // ---------------------------------------------------------------- synchronisation objects
    struct Sync
    {
        const void * address = nullptr;
        int owner = -1; // mutex
        int depth = 0;
        int kind = 0;
        Clock clock;
    };
    const size_t syncSize = 4096;
    Sync * syncs = nullptr;
    size_t syncUsed = 0;
    std::vector<size_t> * usedSlots = nullptr;

    Sync & syncOf( const void * address )
    {
        size_t i = ( reinterpret_cast<uintptr_t>( address ) >> 3 ) * 0x9E3779B97F4A7C15ull >> 40;
        for ( i %= syncSize;; i = ( i + 1 ) % syncSize ) {
            if ( syncs[i].address == address )
                return syncs[i];
            if ( syncs[i].address == nullptr ) {
                syncs[i].address = address;
                syncs[i].owner = -1;
                syncs[i].depth = 0;
                syncs[i].clock.clear();
                usedSlots->push_back( i );
                if ( ++syncUsed > syncSize / 2 ) {
                    fprintf( stderr, "vsched: too many synchronisation objects\n" );
                    _exit( 3 );
                }
                return syncs[i];
            }
        }
    }

    // ---------------------------------------------------------------- arena
    const size_t arenaSize = 1 << 20;
    alignas( 64 ) char arena[arenaSize];
    size_t arenaUsed = 0;
    struct ArenaBlock
    {
        size_t start, size;
        int tag;
    };
    ArenaBlock arenaBlock[arenaSize / 32];
    size_t arenaBlocks = 0;
    thread_local int allocationTag = 0;
    uint8_t arenaState[arenaSize]; // 0 never allocated, 1 live, 2 freed
    struct Cell
    {
        uint32_t writeClock;
        int16_t writer;
        bool sync; // accessed by atomic operations or holding a synchronisation object
        uint32_t reads[maxThreads];
    };
    const size_t cellCount = 1 << 18;
    Cell * cells = nullptr;
    size_t cellsUsed = 0;

    bool inArena( const void * p )
    {
        return p >= arena && p < arena + arenaSize;
    }

    void fail( Failure f, const char * detail )
    {
        Guard g;
        vsched::onFailure( f, detail );
    }

    char detailText[200];

    void access( const void * address, size_t size, bool write, bool atomic )
    {
        if ( !active || selfId < 0 || nested > 0 || !inArena( address ) )
            return;
        Guard g;
        const size_t offset = static_cast<size_t>( static_cast<const char *>( address ) - arena );
        for ( size_t i = offset; i < offset + size && i < arenaSize; ++i ) {
            if ( arenaState[i] == 2 ) {
                snprintf( detailText, sizeof( detailText ), "%s of freed memory", write ? "write" : "read" );
                fail( Failure::UseAfterFree, detailText );
                return;
            }
        }
        if ( atomic )
            return;
        Thread & me = threads[selfId];
        for ( size_t i = offset; i < offset + size && i < cellCount; ++i ) {
            while ( cellsUsed <= i ) {
                memset( &cells[cellsUsed], 0, sizeof( Cell ) );
                cells[cellsUsed].writer = -1;
                ++cellsUsed;
            }
            Cell & c = cells[i];
            bool race = c.writer >= 0 && c.writer != selfId && c.writeClock > me.clock.c[c.writer];
            if ( write ) {
                for ( int t = 0; t < threadCount && !race; ++t )
                    race = t != selfId && c.reads[t] > me.clock.c[t];
            }
            if ( race ) {
                snprintf( detailText, sizeof( detailText ), "%s without order with an access of another thread", write ? "write" : "read" );
                fail( Failure::DataRace, detailText );
                return;
            }
            if ( write ) {
                c.writer = static_cast<int16_t>( selfId );
                c.writeClock = me.clock.c[selfId];
                memset( c.reads, 0, sizeof( c.reads ) );
            }
            else {
                c.reads[selfId] = me.clock.c[selfId];
            }
        }
    }

    void freshMemory( size_t offset, size_t size )
    {
        for ( size_t i = offset; i < offset + size; ++i )
            arenaState[i] = 1;
    }

    // ---------------------------------------------------------------- choosing a thread
    void checkConditions()
    {
        for ( int i = 0; i < threadCount; ++i ) {
            if ( threads[i].state == State::Blocked && threads[i].condition && ( *threads[i].condition )() ) {
                threads[i].state = State::Runnable;
                threads[i].condition = nullptr;
            }
        }
    }

    void describeDeadlock()
    {
        size_t n = 0;
        for ( int i = 0; i < threadCount; ++i ) {
            if ( threads[i].state == State::Blocked || threads[i].state == State::Waiting )
                n += static_cast<size_t>( snprintf( detailText + n, sizeof( detailText ) - n, "%sthread %d %s", n ? ", " : "", i,
                                                    threads[i].state == State::Waiting ? "waits for a notification"
                                                                                       : ( threads[i].condition ? "waits for another thread" : "waits for a mutex or the end of a thread" ) ) );
            if ( n + 60 > sizeof( detailText ) )
                break;
        }
    }

    // picks the next thread to run; returns -1 when none can
    int choose( bool atEnd )
    {
        checkConditions();
        int candidates[maxThreads];
        int n = 0;
        bool selfRunnable = false;
        for ( int i = 0; i < threadCount; ++i ) {
            if ( threads[i].state == State::Runnable ) {
                candidates[n++] = i;
                selfRunnable = selfRunnable || i == selfId;
            }
        }
        // spurious and timed wake-ups
        if ( n == 0 || ( opt.spurious && next64() % 16 == 0 ) || next64() % 32 == 0 ) {
            int waiting[maxThreads];
            int m = 0;
            for ( int i = 0; i < threadCount; ++i )
                if ( threads[i].state == State::Waiting && ( threads[i].timed || ( opt.spurious && n > 0 ) ) )
                    waiting[m++] = i;
            if ( m > 0 ) {
                Thread & t = threads[waiting[next64() % static_cast<uint64_t>( m )]];
                t.timedOut = t.timed;
                t.state = State::Runnable;
                t.object = nullptr;
                candidates[n++] = t.id;
            }
        }
        if ( n == 0 ) {
            for ( int i = 0; i < threadCount; ++i )
                if ( threads[i].state == State::Blocked && threads[i].quiet )
                    candidates[n++] = i;
            if ( n > 0 ) {
                Thread & t = threads[candidates[next64() % static_cast<uint64_t>( n )]];
                t.state = State::Runnable;
                t.quiet = false;
                candidates[0] = t.id;
                n = 1;
            }
        }
        if ( n == 0 )
            return -1;
        if ( n == 1 )
            return candidates[0];
        ++switchCount;
        int r;
        if ( fair )
            r = candidates[next64() % static_cast<uint64_t>( n )];
        else {
            switch ( opt.strategy ) {
            case vsched::Strategy::Sticky:
                if ( selfRunnable && !atEnd && next64() % 100 >= opt.switchPercent )
                    r = selfId;
                else
                    r = candidates[next64() % static_cast<uint64_t>( n )];
                break;
            case vsched::Strategy::Pct: {
                r = candidates[0];
                for ( int i = 1; i < n; ++i )
                    if ( threads[candidates[i]].priority > threads[r].priority )
                        r = candidates[i];
                break;
            }
            case vsched::Strategy::RoundRobin:
                r = candidates[0];
                for ( int i = 0; i < n; ++i )
                    if ( candidates[i] > selfId ) {
                        r = candidates[i];
                        break;
                    }
                if ( selfRunnable && !atEnd && next64() % 100 >= opt.switchPercent )
                    r = selfId;
                break;
            default:
                r = candidates[next64() % static_cast<uint64_t>( n )];
            }
        }
        choiceHash = ( choiceHash ^ static_cast<uint64_t>( r + 1 ) ) * 0x100000001B3ull;
        return r;
    }

    void countStep()
    {
        ++stepCount;
        if ( opt.strategy == vsched::Strategy::Pct ) {
            for ( size_t i = 0; i < changeAt.size(); ++i )
                if ( changeAt[i] == stepCount && selfId >= 0 )
                    threads[selfId].priority = --lowPriority;
        }
        if ( stepCount > 20000 )
            fair = true;
        if ( stepCount > opt.maxSteps )
            fail( Failure::Endless, "the execution does not end" );
    }

    // the calling thread gives way; when it is not runnable it returns once it is
    void reschedule( bool atEnd = false )
    {
        countStep();
        const int r = choose( atEnd );
        if ( r < 0 ) {
            if ( atEnd ) {
                for ( int i = 0; i < threadCount; ++i )
                    if ( threads[i].state != State::Done ) {
                        describeDeadlock();
                        fail( Failure::Deadlock, detailText );
                    }
                return;
            }
            describeDeadlock();
            fail( Failure::Deadlock, detailText );
            return;
        }
        if ( r == selfId )
            return;
        const int me = selfId;
        threads[r].sem.post();
        if ( !atEnd )
            threads[me].sem.wait();
    }

    void schedulePoint()
    {
        Guard g;
        reschedule();
    }

    void acquire( Sync & s )
    {
        threads[selfId].clock.join( s.clock );
    }
    void release( Sync & s )
    {
        s.clock.join( threads[selfId].clock );
        ++threads[selfId].clock.c[selfId];
    }

    void lockMutex( const void * m, bool recursive )
    {
        Sync * s = &syncOf( m );
        if ( s->owner == selfId ) {
            if ( recursive ) {
                ++s->depth;
                return;
            }
        }
        while ( s->owner != -1 ) {
            threads[selfId].state = State::Blocked;
            threads[selfId].object = m;
            reschedule();
        }
        s->owner = selfId;
        s->depth = 1;
        acquire( *s );
    }

    void wakeBlocked( const void * object )
    {
        for ( int i = 0; i < threadCount; ++i )
            if ( threads[i].state == State::Blocked && threads[i].object == object && !threads[i].condition ) {
                threads[i].state = State::Runnable;
                threads[i].object = nullptr;
            }
    }

    bool unlockMutex( const void * m )
    {
        Sync & s = syncOf( m );
        if ( s.owner != selfId ) {
            fail( Failure::BadUnlock, "a thread unlocks a mutex it does not hold" );
            return false;
        }
        if ( --s.depth > 0 )
            return true;
        release( s );
        s.owner = -1;
        wakeBlocked( m );
        return true;
    }

    bool isRecursive( pthread_mutex_t * m )
    {
        return ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE_NP;
    }

    void * threadMain( void * p )
    {
        Thread * t = static_cast<Thread *>( p );
        selfId = t->id;
        {
            Guard g;
            t->sem.wait();
        }
        void * result = t->routine( t->arg );
        Guard g;
        t->state = State::Done;
        for ( int i = 0; i < threadCount; ++i )
            if ( threads[i].state == State::Blocked && threads[i].object == t && !threads[i].condition ) {
                threads[i].state = State::Runnable;
                threads[i].object = nullptr;
            }
        reschedule( true );
        selfId = -1;
        return result;
    }

    int waitCondition( pthread_cond_t * c, pthread_mutex_t * m, bool timed )
    {
        Guard g;
        reschedule();
        unlockMutex( m );
        Thread & me = threads[selfId];
        me.state = State::Waiting;
        me.object = c;
        me.timed = timed;
        me.timedOut = false;
        reschedule();
        me.timed = false;
        const bool timedOut = me.timedOut;
        lockMutex( m, isRecursive( m ) );
        return timedOut ? ETIMEDOUT : 0;
    }

    void atomicAccess( const volatile void * a, size_t size, bool write, int order, bool load, bool store )
    {
        if ( !managed() )
            return;
        const void * p = const_cast<const void *>( a );
        schedulePoint();
        access( p, size, write, true );
        Guard g;
        Sync & s = syncOf( p );
        if ( load && order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE )
            acquire( s );
        if ( store && order != __ATOMIC_RELAXED && order != __ATOMIC_CONSUME && order != __ATOMIC_ACQUIRE )
            release( s );
    }

    void syncObject( const void * p, size_t size )
    {
        access( p, size, false, true );
    }
}

namespace vsched
{
    void ( *onFailure )( Failure, const char * ) = nullptr;

    void begin( const Options & options )
    {
        opt = options;
        rngState = opt.seed * 0x2545F4914F6CDD1Dull + 12345;
        stepCount = switchCount = choiceHash = 0;
        fair = false;
        lowPriority = 1000;
        if ( !syncs ) {
            syncs = static_cast<Sync *>( calloc( syncSize, sizeof( Sync ) ) );
            cells = static_cast<Cell *>( calloc( cellCount, sizeof( Cell ) ) );
            usedSlots = new std::vector<size_t>;
        }
        for ( size_t i : *usedSlots )
            syncs[i].address = nullptr;
        usedSlots->clear();
        syncUsed = 0;
        memset( arenaState, 0, arenaUsed );
        arenaUsed = 0;
        arenaBlocks = 0;
        cellsUsed = 0;
        changeAt.clear();
        for ( uint32_t i = 0; i < opt.changePoints; ++i )
            changeAt.push_back( 1 + next64() % opt.expectedSteps );
        threadCount = 1;
        selfId = 0;
        Thread & t = threads[0];
        t.state = State::Runnable;
        t.id = 0;
        t.object = nullptr;
        t.condition = nullptr;
        t.timed = false;
        t.sem.value = 0;
        t.clock.clear();
        t.clock.c[0] = 1;
        t.priority = static_cast<uint32_t>( 2000 + next64() % 1000 );
        active = true;
    }

    void end()
    {
        active = false;
        selfId = -1;
    }

    int self()
    {
        return active ? selfId : -1;
    }

    void point()
    {
        if ( managed() )
            schedulePoint();
    }

    void waitUntil( const std::function<bool()> & condition )
    {
        if ( !managed() )
            return;
        Guard g;
        reschedule();
        while ( !condition() ) {
            Thread & me = threads[selfId];
            me.condition = &condition;
            me.state = State::Blocked;
            me.object = nullptr;
            reschedule();
        }
    }

    void waitQuiet()
    {
        if ( !managed() )
            return;
        Guard g;
        Thread & me = threads[selfId];
        me.quiet = true;
        me.state = State::Blocked;
        me.condition = nullptr;
        me.object = nullptr;
        reschedule();
    }

    void order()
    {
        if ( !managed() )
            return;
        static const int object = 0;
        Guard g;
        Sync & s = syncOf( &object );
        acquire( s );
        release( s );
    }

    bool isRunnable( int thread )
    {
        return thread >= 0 && thread < threadCount && threads[thread].state == State::Runnable;
    }

    uint32_t random( uint32_t n )
    {
        return n ? static_cast<uint32_t>( next64() % n ) : 0;
    }
    uint64_t steps()
    {
        return stepCount;
    }
    uint64_t switches()
    {
        return switchCount;
    }
    uint64_t hash()
    {
        return choiceHash;
    }
    uint32_t managedThreads()
    {
        uint32_t n = 0;
        for ( int i = 0; i < threadCount; ++i )
            n += threads[i].state != State::Done ? 1 : 0;
        return n;
    }
}

namespace vsched
{
    void setTag( int tag )
    {
        allocationTag = tag;
    }

    bool blockOf( const void * address, const void *& start, size_t & size, int & tag )
    {
        if ( !inArena( address ) )
            return false;
        const size_t offset = static_cast<size_t>( static_cast<const char *>( address ) - arena );
        for ( size_t i = arenaBlocks; i-- > 0; ) {
            const ArenaBlock & b = arenaBlock[i];
            if ( b.start <= offset && offset < b.start + b.size ) {
                start = arena + b.start;
                size = b.size;
                tag = b.tag;
                return arenaState[b.start] == 1;
            }
        }
        return false;
    }
}

// -------------------------------------------------------------------- memory
static void * allocate( size_t size, size_t alignment )
{
    if ( active && opt.arena && selfId >= 0 && nested == 0 ) {
        if ( alignment < 16 )
            alignment = 16;
        const size_t start = ( arenaUsed + 16 + alignment - 1 ) / alignment * alignment;
        if ( start + size + 16 <= arenaSize ) {
            memcpy( arena + start - 8, &size, sizeof( size ) );
            freshMemory( start, size );
            arenaBlock[arenaBlocks++] = { start, size, allocationTag };
            arenaUsed = start + size;
            return arena + start;
        }
    }
    void * p = nullptr;
    if ( alignment <= 16 )
        p = malloc( size ? size : 1 );
    else if ( posix_memalign( &p, alignment, size ) != 0 )
        p = nullptr;
    if ( !p )
        throw std::bad_alloc();
    return p;
}

static void release( void * p )
{
    if ( !p )
        return;
    if ( inArena( p ) ) {
        const size_t offset = static_cast<size_t>( static_cast<char *>( p ) - arena );
        if ( offset >= arenaUsed )
            return; // of an earlier execution
        size_t size = 0;
        memcpy( &size, static_cast<char *>( p ) - 8, sizeof( size ) );
        if ( arenaState[offset] == 2 && size > 0 ) {
            fail( Failure::UseAfterFree, "memory is freed twice" );
            return;
        }
        if ( active && selfId >= 0 )
            access( p, size, true, false ); // freeing races with other accesses
        memset( arenaState + offset, 2, size );
        return;
    }
    free( p );
}

void * operator new( size_t size )
{
    return allocate( size, 16 );
}
void * operator new[]( size_t size )
{
    return allocate( size, 16 );
}
void * operator new( size_t size, const std::nothrow_t & ) noexcept
{
    return allocate( size, 16 );
}
void * operator new[]( size_t size, const std::nothrow_t & ) noexcept
{
    return allocate( size, 16 );
}
void * operator new( size_t size, std::align_val_t a )
{
    return allocate( size, static_cast<size_t>( a ) );
}
void * operator new[]( size_t size, std::align_val_t a )
{
    return allocate( size, static_cast<size_t>( a ) );
}
void operator delete( void * p ) noexcept
{
    release( p );
}
void operator delete[]( void * p ) noexcept
{
    release( p );
}
void operator delete( void * p, size_t ) noexcept
{
    release( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    release( p );
}
void operator delete( void * p, const std::nothrow_t & ) noexcept
{
    release( p );
}
void operator delete[]( void * p, const std::nothrow_t & ) noexcept
{
    release( p );
}
void operator delete( void * p, std::align_val_t ) noexcept
{
    release( p );
}
void operator delete[]( void * p, std::align_val_t ) noexcept
{
    release( p );
}
void operator delete( void * p, size_t, std::align_val_t ) noexcept
{
    release( p );
}
void operator delete[]( void * p, size_t, std::align_val_t ) noexcept
{
    release( p );
}

// -------------------------------------------------------------------- pthread
#define EXPORT extern "C" __attribute__( ( visibility( "default" ) ) )

EXPORT int pthread_mutex_lock( pthread_mutex_t * m ) noexcept
{
    static int ( *f )( pthread_mutex_t * ) = real<int ( * )( pthread_mutex_t * )>( "pthread_mutex_lock" );
    if ( !managed() )
        return f( m );
    schedulePoint();
    syncObject( m, sizeof( *m ) );
    Guard g;
    lockMutex( m, isRecursive( m ) );
    return 0;
}

EXPORT int pthread_mutex_trylock( pthread_mutex_t * m ) noexcept
{
    static int ( *f )( pthread_mutex_t * ) = real<int ( * )( pthread_mutex_t * )>( "pthread_mutex_trylock" );
    if ( !managed() )
        return f( m );
    schedulePoint();
    syncObject( m, sizeof( *m ) );
    Guard g;
    Sync & s = syncOf( m );
    if ( s.owner != -1 && !( s.owner == selfId && isRecursive( m ) ) )
        return EBUSY;
    lockMutex( m, isRecursive( m ) );
    return 0;
}

EXPORT int pthread_mutex_unlock( pthread_mutex_t * m ) noexcept
{
    static int ( *f )( pthread_mutex_t * ) = real<int ( * )( pthread_mutex_t * )>( "pthread_mutex_unlock" );
    if ( !managed() )
        return f( m );
    syncObject( m, sizeof( *m ) );
    {
        Guard g;
        unlockMutex( m );
    }
    schedulePoint(); // what follows an unlock may happen much later
    return 0;
}

EXPORT int pthread_mutex_destroy( pthread_mutex_t * m ) noexcept
{
    static int ( *f )( pthread_mutex_t * ) = real<int ( * )( pthread_mutex_t * )>( "pthread_mutex_destroy" );
    if ( !managed() )
        return f( m );
    Guard g;
    Sync & s = syncOf( m );
    if ( s.owner != -1 )
        fail( Failure::DestroyedInUse, "a mutex is destroyed while it is held" );
    return 0;
}

EXPORT int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
{
    static int ( *f )( pthread_cond_t *, pthread_mutex_t * ) = realVersion<int ( * )( pthread_cond_t *, pthread_mutex_t * )>( "pthread_cond_wait", "GLIBC_2.3.2" );
    if ( !managed() )
        return f( c, m );
    syncObject( c, sizeof( *c ) );
    return waitCondition( c, m, false );
}

EXPORT int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t )
{
    static int ( *f )( pthread_cond_t *, pthread_mutex_t *, const struct timespec * )
        = realVersion<int ( * )( pthread_cond_t *, pthread_mutex_t *, const struct timespec * )>( "pthread_cond_timedwait", "GLIBC_2.3.2" );
    if ( !managed() )
        return f( c, m, t );
    syncObject( c, sizeof( *c ) );
    return waitCondition( c, m, true );
}

EXPORT int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t )
{
    static int ( *f )( pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec * )
        = real<int ( * )( pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec * )>( "pthread_cond_clockwait" );
    if ( !managed() )
        return f( c, m, k, t );
    syncObject( c, sizeof( *c ) );
    return waitCondition( c, m, true );
}

static void notify( pthread_cond_t * c, bool all )
{
    schedulePoint();
    syncObject( c, sizeof( *c ) );
    Guard g;
    int waiting[maxThreads];
    int n = 0;
    for ( int i = 0; i < threadCount; ++i )
        if ( threads[i].state == State::Waiting && threads[i].object == c )
            waiting[n++] = i;
    if ( n == 0 )
        return;
    if ( !all ) {
        waiting[0] = waiting[next64() % static_cast<uint64_t>( n )];
        n = 1;
    }
    for ( int i = 0; i < n; ++i ) {
        threads[waiting[i]].state = State::Runnable;
        threads[waiting[i]].object = nullptr;
    }
}

EXPORT int pthread_cond_signal( pthread_cond_t * c ) noexcept
{
    static int ( *f )( pthread_cond_t * ) = realVersion<int ( * )( pthread_cond_t * )>( "pthread_cond_signal", "GLIBC_2.3.2" );
    if ( !managed() )
        return f( c );
    notify( c, false );
    return 0;
}

EXPORT int pthread_cond_broadcast( pthread_cond_t * c ) noexcept
{
    static int ( *f )( pthread_cond_t * ) = realVersion<int ( * )( pthread_cond_t * )>( "pthread_cond_broadcast", "GLIBC_2.3.2" );
    if ( !managed() )
        return f( c );
    notify( c, true );
    return 0;
}

EXPORT int pthread_cond_destroy( pthread_cond_t * c ) noexcept
{
    static int ( *f )( pthread_cond_t * ) = realVersion<int ( * )( pthread_cond_t * )>( "pthread_cond_destroy", "GLIBC_2.3.2" );
    if ( !managed() )
        return f( c );
    Guard g;
    for ( int i = 0; i < threadCount; ++i )
        if ( threads[i].state == State::Waiting && threads[i].object == c ) {
            fail( Failure::DestroyedInUse, "a condition variable is destroyed while a thread waits on it" );
            break;
        }
    return 0;
}

EXPORT int pthread_create( pthread_t * handle, const pthread_attr_t * attr, void * ( *routine )( void * ), void * arg ) noexcept
{
    static auto f = real<int ( * )( pthread_t *, const pthread_attr_t *, void * (*)( void * ), void * )>( "pthread_create" );
    if ( !managed() )
        return f( handle, attr, routine, arg );
    {
        Guard g;
        if ( threadCount == maxThreads ) {
            fprintf( stderr, "vsched: too many threads\n" );
            _exit( 3 );
        }
        Thread & t = threads[threadCount];
        t.id = threadCount;
        t.state = State::Runnable;
        t.object = nullptr;
        t.condition = nullptr;
        t.timed = false;
        t.joined = false;
        t.sem.value = 0;
        t.routine = routine;
        t.arg = arg;
        t.priority = static_cast<uint32_t>( 2000 + next64() % 1000 );
        t.clock.clear();
        t.clock.join( threads[selfId].clock );
        t.clock.c[t.id] = 1;
        ++threads[selfId].clock.c[selfId];
        ++threadCount;
        const int rc = f( &t.handle, attr, threadMain, &t );
        if ( rc != 0 ) {
            fprintf( stderr, "vsched: no thread\n" );
            _exit( 3 );
        }
        *handle = t.handle;
    }
    schedulePoint();
    return 0;
}

EXPORT int pthread_join( pthread_t handle, void ** result )
{
    static auto f = real<int ( * )( pthread_t, void ** )>( "pthread_join" );
    if ( !managed() )
        return f( handle, result );
    Guard g;
    reschedule();
    for ( int i = threadCount - 1; i >= 0; --i ) {
        Thread & t = threads[i];
        if ( !t.joined && i != 0 && pthread_equal( t.handle, handle ) ) {
            while ( t.state != State::Done ) {
                threads[selfId].state = State::Blocked;
                threads[selfId].object = &t;
                reschedule();
            }
            t.joined = true;
            threads[selfId].clock.join( t.clock );
            break;
        }
    }
    return f( handle, result );
}

EXPORT int sched_yield() noexcept
{
    static auto f = real<int ( * )()>( "sched_yield" );
    if ( !managed() )
        return f();
    {
        Guard g;
        if ( threads[selfId].priority > 0 && opt.strategy == vsched::Strategy::Pct )
            threads[selfId].priority = lowPriority > 0 ? --lowPriority : 0;
    }
    schedulePoint();
    return 0;
}

EXPORT int nanosleep( const struct timespec * t, struct timespec * r )
{
    static auto f = real<int ( * )( const struct timespec *, struct timespec * )>( "nanosleep" );
    if ( !managed() )
        return f( t, r );
    return sched_yield();
}

EXPORT int clock_nanosleep( clockid_t c, int flags, const struct timespec * t, struct timespec * r )
{
    static auto f = real<int ( * )( clockid_t, int, const struct timespec *, struct timespec * )>( "clock_nanosleep" );
    if ( !managed() )
        return f( c, flags, t, r );
    return sched_yield();
}

// -------------------------------------------------------------------- __tsan_*
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry( void * ) {}
    void __tsan_func_exit() {}
    void __tsan_vptr_update( void ** p, void * )
    {
        access( p, sizeof( *p ), true, true );
    }
    void __tsan_vptr_read( void ** p )
    {
        access( p, sizeof( *p ), false, true );
    }
    void __tsan_read_range( void * p, unsigned long n )
    {
        access( p, n, false, false );
    }
    void __tsan_write_range( void * p, unsigned long n )
    {
        access( p, n, true, false );
    }

#define PLAIN( N )                                                                                                                                                       \
    void __tsan_read##N( void * p )                                                                                                                                      \
    {                                                                                                                                                                    \
        access( p, N, false, false );                                                                                                                                    \
    }                                                                                                                                                                    \
    void __tsan_write##N( void * p )                                                                                                                                     \
    {                                                                                                                                                                    \
        access( p, N, true, false );                                                                                                                                     \
    }                                                                                                                                                                    \
    void __tsan_unaligned_read##N( void * p )                                                                                                                            \
    {                                                                                                                                                                    \
        access( p, N, false, false );                                                                                                                                    \
    }                                                                                                                                                                    \
    void __tsan_unaligned_write##N( void * p )                                                                                                                           \
    {                                                                                                                                                                    \
        access( p, N, true, false );                                                                                                                                     \
    }                                                                                                                                                                    \
    void __tsan_volatile_read##N( void * p )                                                                                                                             \
    {                                                                                                                                                                    \
        access( p, N, false, false );                                                                                                                                    \
    }                                                                                                                                                                    \
    void __tsan_volatile_write##N( void * p )                                                                                                                            \
    {                                                                                                                                                                    \
        access( p, N, true, false );                                                                                                                                     \
    }

    PLAIN( 1 )
    PLAIN( 2 )
    PLAIN( 4 )
    PLAIN( 8 )
    PLAIN( 16 )

#define ATOMIC( BITS, TYPE )                                                                                                                                             \
    TYPE __tsan_atomic##BITS##_load( const volatile TYPE * a, int mo )                                                                                                   \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), false, mo, true, false );                                                                                                       \
        return __atomic_load_n( a, __ATOMIC_SEQ_CST );                                                                                                                   \
    }                                                                                                                                                                    \
    void __tsan_atomic##BITS##_store( volatile TYPE * a, TYPE v, int mo )                                                                                                \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, false, true );                                                                                                        \
        __atomic_store_n( a, v, __ATOMIC_SEQ_CST );                                                                                                                      \
    }                                                                                                                                                                    \
    TYPE __tsan_atomic##BITS##_exchange( volatile TYPE * a, TYPE v, int mo )                                                                                             \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        return __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST );                                                                                                            \
    }                                                                                                                                                                    \
    TYPE __tsan_atomic##BITS##_fetch_add( volatile TYPE * a, TYPE v, int mo )                                                                                            \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST );                                                                                                             \
    }                                                                                                                                                                    \
    TYPE __tsan_atomic##BITS##_fetch_sub( volatile TYPE * a, TYPE v, int mo )                                                                                            \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST );                                                                                                             \
    }                                                                                                                                                                    \
    TYPE __tsan_atomic##BITS##_fetch_and( volatile TYPE * a, TYPE v, int mo )                                                                                            \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST );                                                                                                             \
    }                                                                                                                                                                    \
    TYPE __tsan_atomic##BITS##_fetch_or( volatile TYPE * a, TYPE v, int mo )                                                                                             \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST );                                                                                                              \
    }                                                                                                                                                                    \
    TYPE __tsan_atomic##BITS##_fetch_xor( volatile TYPE * a, TYPE v, int mo )                                                                                            \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST );                                                                                                             \
    }                                                                                                                                                                    \
    TYPE __tsan_atomic##BITS##_fetch_nand( volatile TYPE * a, TYPE v, int mo )                                                                                           \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        return __atomic_fetch_nand( a, v, __ATOMIC_SEQ_CST );                                                                                                            \
    }                                                                                                                                                                    \
    int __tsan_atomic##BITS##_compare_exchange_strong( volatile TYPE * a, TYPE * c, TYPE v, int mo, int )                                                                \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        return __atomic_compare_exchange_n( a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST );                                                                        \
    }                                                                                                                                                                    \
    int __tsan_atomic##BITS##_compare_exchange_weak( volatile TYPE * a, TYPE * c, TYPE v, int mo, int )                                                                  \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        return __atomic_compare_exchange_n( a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST );                                                                        \
    }                                                                                                                                                                    \
    TYPE __tsan_atomic##BITS##_compare_exchange_val( volatile TYPE * a, TYPE c, TYPE v, int mo, int )                                                                    \
    {                                                                                                                                                                    \
        atomicAccess( a, sizeof( TYPE ), true, mo, true, true );                                                                                                         \
        __atomic_compare_exchange_n( a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST );                                                                              \
        return c;                                                                                                                                                        \
    }

    ATOMIC( 8, uint8_t )
    ATOMIC( 16, uint16_t )
    ATOMIC( 32, uint32_t )
    ATOMIC( 64, uint64_t )

    void __tsan_atomic_thread_fence( int )
    {
        if ( managed() )
            schedulePoint();
    }
    void __tsan_atomic_signal_fence( int ) {}
}
