// Deterministic scheduler for real threads.
//
// Code compiled with -fsanitize=thread calls the functions __tsan_* at each memory access and atomic operation; this runtime defines
// them itself instead of using libtsan, and takes the place of the pthread functions. Only one managed thread runs at a time; which
// one goes on is chosen at every synchronisation operation, from a seed. So an execution is a function of its seed, a wait
// that never ends is seen as a deadlock, an access to freed memory and a data race are seen even when they do no harm.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>

namespace vsched
{
    enum class Strategy
    {
        Random,
        Sticky,
        Pct,
        RoundRobin
    };

    struct Options
    {
        uint64_t seed = 1;
        Strategy strategy = Strategy::Random;
        uint32_t switchPercent = 20; // Sticky: chance of a switch at a point where the running thread could go on
        uint32_t changePoints = 3; // Pct: number of priority changes
        uint32_t expectedSteps = 400; // Pct
        bool spurious = false; // condition variables may wake up without being notified
        uint32_t maxSteps = 200000;
        bool arena = true; // objects are allocated from an arena which detects use after free and data races
    };

    enum class Failure
    {
        Deadlock,
        Endless,
        UseAfterFree,
        DataRace,
        BadUnlock,
        DestroyedInUse
    };

    // called by the thread which detects the failure; must not return for Deadlock and Endless
    extern void ( *onFailure )( Failure what, const char * detail );

    void begin( const Options & options ); // the calling thread becomes managed thread 0
    void end(); // all other managed threads must have finished

    int self(); // id of the managed thread, -1 when the thread is not managed
    void point(); // a scheduling point
    void waitUntil( const std::function<bool()> & condition ); // blocks without creating a happens-before edge
    void waitQuiet(); // blocks until no other thread can run, except for those which wait for the same
    uint32_t random( uint32_t n );
    uint64_t steps();
    uint64_t switches();
    uint64_t hash(); // of the sequence of choices
    // the block of memory an address lies in, if it belongs to the arena and is live; the tag of the thread which allocated it
    bool blockOf( const void * address, const void *& start, size_t & size, int & tag );
    void setTag( int tag ); // of the calling thread
    uint32_t managedThreads(); // number of managed threads which have not finished
}

namespace vsched
{
    void order(); // orders everything before in the threads which called it before, and what follows (a lock of the user)
    bool isRunnable( int thread );
}
