// The memory pool behind plain functions, so that it can be compiled apart from the driver.
#pragma once
#include <cstddef>

struct Pool;
Pool * poolNew();
void poolDelete( Pool * p );
// 0 done, 1 refused with an exception of the standard library, 2 anything else
int poolReserve( Pool * p, size_t n );
int poolAllocate( Pool * p, int elementSize, size_t count, void *& result );
int poolFree( Pool * p, int elementSize, void * address );
