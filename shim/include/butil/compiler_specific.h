#pragma once
#include "butil/macros.h"
#define BAIDU_CACHELINE_SIZE 64
#define BAIDU_CACHELINE_ALIGNMENT __attribute__((aligned(64)))
#define BAIDU_LIKELY(x) (__builtin_expect(!!(x), 1))
#define BAIDU_UNLIKELY(x) (__builtin_expect(!!(x), 0))
#define BUTIL_FORCE_INLINE inline
#define WARN_UNUSED_RESULT __attribute__((warn_unused_result))
