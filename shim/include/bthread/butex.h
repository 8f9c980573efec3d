#pragma once
#include "bthread/types.h"
namespace bthread {
void* butex_create();
void butex_destroy(void*);
template <typename T> T* butex_create_checked() { static_assert(sizeof(T) == sizeof(int), "size"); return static_cast<T*>(butex_create()); }
int butex_wake(void* b, bool nosignal = false);
int butex_wake_all(void* b, bool nosignal = false);
int butex_wait(void* b, int expected, const timespec* abstime, bool prepend = false);
}
