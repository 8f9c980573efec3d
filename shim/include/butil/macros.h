#pragma once
#include <cstddef>
#include <cstdint>
#define DISALLOW_COPY_AND_ASSIGN(T) T(const T&) = delete; void operator=(const T&) = delete
#define BAIDU_CONCAT_(a, b) a##b
#define BAIDU_CONCAT(a, b) BAIDU_CONCAT_(a, b)
#define BAIDU_CASSERT(expr, msg) static_assert(expr, #msg)
#define ARRAY_SIZE(a) (sizeof(a) / sizeof(*(a)))
#define ALLOW_UNUSED __attribute__((unused))
#define BAIDU_GLOBAL_INIT() static void __attribute__((constructor)) BAIDU_CONCAT(baidu_global_init_, __LINE__)()
