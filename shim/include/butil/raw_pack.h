#pragma once
#include <arpa/inet.h>
#include <cstdint>
#include <cstring>
namespace butil {
class RawPacker {
 public:
  explicit RawPacker(void* s) : s_((char*)s) {}
  RawPacker& pack32(uint32_t v) { v = htonl(v); memcpy(s_, &v, 4); s_ += 4; return *this; }
  RawPacker& pack64(uint64_t v) { return pack32(v >> 32).pack32((uint32_t)v); }
 private: char* s_;
};
class RawUnpacker {
 public:
  explicit RawUnpacker(const void* s) : s_((const char*)s) {}
  RawUnpacker& unpack32(uint32_t& v) { memcpy(&v, s_, 4); v = ntohl(v); s_ += 4; return *this; }
  RawUnpacker& unpack64(uint64_t& v) { uint32_t a, b; unpack32(a).unpack32(b); v = ((uint64_t)a << 32) | b; return *this; }
 private: const char* s_;
};
}
