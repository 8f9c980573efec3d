// Byte buffer of the (absent) dingo-serial submodule: big-endian writes, sequential reads.
#pragma once
#include <cstdint>
#include <optional>
#include <string>
namespace dingodb {
class Buf {
 public:
  explicit Buf(size_t n, bool = true) { b_.reserve(n); }
  Buf(int n, bool = true) { b_.reserve(n); }
  explicit Buf(const std::string& s, bool = true) : b_(s) {}
  void Write(uint8_t c) { b_.push_back(static_cast<char>(c)); }
  void Write(char c) { b_.push_back(c); }
  void Write(const std::string& s) { b_ += s; }
  void WriteInt(int32_t v) { for (int i = 3; i >= 0; --i) b_.push_back(static_cast<char>(static_cast<uint32_t>(v) >> (8 * i))); }
  void WriteLong(int64_t v) { for (int i = 7; i >= 0; --i) b_.push_back(static_cast<char>(static_cast<uint64_t>(v) >> (8 * i))); }
  uint8_t Read() { return p_ < b_.size() ? static_cast<uint8_t>(b_[p_++]) : 0; }
  int64_t ReadLong() { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | Read(); return static_cast<int64_t>(v); }
  int32_t ReadInt() { uint32_t v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | Read(); return static_cast<int32_t>(v); }
  void GetBytes(std::string& s) { s = b_; }
  std::string GetBytes() { return b_; }
  std::string GetString() { return b_; }
 private:
  std::string b_; size_t p_ = 0;
};
}  // namespace dingodb
