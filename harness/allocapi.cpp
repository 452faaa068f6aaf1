#include "allocapi.h"

#include <cstdint>
#include <exception>

#include "memory/cpu_memory.h"

struct Pool
{
    cpu_Memory::MemoryAllocator allocator;
};

namespace
{
    template <typename F>
    int outcome( F f )
    {
        try {
            f();
            return 0;
        }
        catch ( const std::exception & ) {
            return 1;
        }
        catch ( ... ) {
            return 2;
        }
    }
}

Pool * poolNew()
{
    return new Pool;
}

void poolDelete( Pool * p )
{
    delete p;
}

int poolReserve( Pool * p, size_t n )
{
    return outcome( [&] { p->allocator.reserve( n ); } );
}

int poolAllocate( Pool * p, int elementSize, size_t count, void *& result )
{
    return outcome( [&] {
        switch ( elementSize ) {
        case 1:
            result = p->allocator.allocate<uint8_t>( count );
            break;
        case 2:
            result = p->allocator.allocate<uint16_t>( count );
            break;
        case 4:
            result = p->allocator.allocate<uint32_t>( count );
            break;
        default:
            result = p->allocator.allocate<uint64_t>( count );
        }
    } );
}

int poolFree( Pool * p, int elementSize, void * address )
{
    return outcome( [&] {
        switch ( elementSize ) {
        case 1:
            p->allocator.free( static_cast<uint8_t *>( address ) );
            break;
        case 2:
            p->allocator.free( static_cast<uint16_t *>( address ) );
            break;
        case 4:
            p->allocator.free( static_cast<uint32_t *>( address ) );
            break;
        default:
            p->allocator.free( static_cast<uint64_t *>( address ) );
        }
    } );
}
