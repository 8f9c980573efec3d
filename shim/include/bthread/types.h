#pragma once
#include <pthread.h>
#include <cstdint>
#include <cerrno>
#include <ctime>
typedef uint64_t bthread_t;
static const bthread_t INVALID_BTHREAD = 0;
typedef unsigned bthread_stacktype_t;
typedef unsigned bthread_attrflags_t;
typedef int bthread_tag_t;
struct bthread_keytable_pool_t;
struct bthread_attr_t { unsigned stack_type; unsigned flags; void* keytable_pool; bthread_tag_t tag; const char* name; };
static const bthread_attr_t BTHREAD_ATTR_PTHREAD = {1, 0, nullptr, 0, nullptr};
static const bthread_attr_t BTHREAD_ATTR_SMALL = {2, 0, nullptr, 0, nullptr};
static const bthread_attr_t BTHREAD_ATTR_NORMAL = {3, 0, nullptr, 0, nullptr};
static const bthread_attr_t BTHREAD_ATTR_LARGE = {4, 0, nullptr, 0, nullptr};
static const bthread_tag_t BTHREAD_TAG_DEFAULT = 0;
struct bthread_mutex_t { pthread_mutex_t m; void* owner; int init_magic; };
struct bthread_mutexattr_t {};
struct bthread_cond_t { pthread_cond_t c; bthread_mutex_t* m; };
struct bthread_condattr_t {};
typedef uint64_t bthread_timer_t;
typedef uint64_t bthread_key_t_dummy;
