#pragma once
#include <atomic>
#include <string>
#include "butil/fast_rand.h"
#include "butil/string_printf.h"
namespace butil {
inline std::string GenerateGUID() {
  static std::atomic<uint64_t> n{0}; uint64_t a = ++n * 0x9E3779B97F4A7C15ull, b = n;
  return string_printf("%08X-%04X-%04X-%04X-%012llX", (unsigned)(a >> 32), (unsigned)((a >> 16) & 0xffff), (unsigned)(a & 0xffff), (unsigned)(b >> 48), (unsigned long long)(b & 0xffffffffffffull));
}
}
