#pragma once
#include "bthread/types.h"
#include "butil/macros.h"
#include "butil/compiler_specific.h"
#include "bthread/mutex.h"
int bthread_start_background(bthread_t* t, const bthread_attr_t* a, void* (*fn)(void*), void* arg);
int bthread_start_urgent(bthread_t* t, const bthread_attr_t* a, void* (*fn)(void*), void* arg);
int bthread_join(bthread_t t, void** r);
int bthread_stop(bthread_t t);
bthread_t bthread_self(void);
int bthread_usleep(uint64_t us);
int bthread_yield(void);
int bthread_getconcurrency(void);
int bthread_setconcurrency(int n);
inline int bthread_getconcurrency_by_tag(bthread_tag_t) { return bthread_getconcurrency(); }
inline int bthread_setconcurrency_by_tag(int, bthread_tag_t) { return 0; }
int bthread_timer_add(bthread_timer_t* id, struct timespec abstime, void (*on_timer)(void*), void* arg);
int bthread_timer_del(bthread_timer_t id);
int bthread_about_to_quit();
inline int bthread_equal(bthread_t a, bthread_t b) { return a == b; }
namespace bthread { extern int32_t FLAGS_bthread_concurrency; }
