#pragma once
#include <sys/uio.h>
#include <unistd.h>
#include <cerrno>
#include <google/protobuf/io/zero_copy_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include "butil/strings/string_piece.h"
#include "butil/macros.h"
namespace butil {
// Contiguous stand-in for brpc's IOBuf (same observable contract: a byte queue).
class IOBuf {
 public:
  struct Movable { explicit Movable(IOBuf& v) : v_(&v) {} IOBuf& value() const { return *v_; } IOBuf* v_; };
  IOBuf() = default;
  IOBuf(const IOBuf&) = default;
  IOBuf(const Movable& m) { swap(m.value()); }
  IOBuf& operator=(const IOBuf&) = default;
  IOBuf& operator=(const Movable& m) { clear(); swap(m.value()); return *this; }
  void operator=(const char* s) { b_ = s; }
  void operator=(const std::string& s) { b_ = s; }
  void swap(IOBuf& o) { b_.swap(o.b_); }
  void clear() { b_.clear(); }
  bool empty() const { return b_.empty(); }
  size_t size() const { return b_.size(); }
  size_t length() const { return b_.size(); }
  void append(const IOBuf& o) { std::string t = o.b_; b_ += t; }
  void append(const Movable& m) { b_ += m.value().b_; m.value().clear(); }
  int append(const std::string& s) { b_ += s; return 0; }
  int append(const char* s) { b_ += s; return 0; }
  int append(const void* d, size_t n) { b_.append((const char*)d, n); return 0; }
  int push_back(char c) { b_.push_back(c); return 0; }
  int append_user_data(void* d, size_t n, void (*del)(void*)) { b_.append((const char*)d, n); if (del) del(d); else free(d); return 0; }
  size_t pop_front(size_t n) { n = std::min(n, b_.size()); b_.erase(0, n); return n; }
  size_t pop_back(size_t n) { n = std::min(n, b_.size()); b_.resize(b_.size() - n); return n; }
  size_t cutn(IOBuf* o, size_t n) { n = std::min(n, b_.size()); o->b_.append(b_, 0, n); b_.erase(0, n); return n; }
  size_t cutn(std::string* o, size_t n) { n = std::min(n, b_.size()); o->append(b_, 0, n); b_.erase(0, n); return n; }
  size_t cutn(void* o, size_t n) { n = std::min(n, b_.size()); memcpy(o, b_.data(), n); b_.erase(0, n); return n; }
  bool cut1(void* c) { if (b_.empty()) return false; *(char*)c = b_[0]; b_.erase(0, 1); return true; }
  size_t copy_to(void* o, size_t n = (size_t)-1, size_t pos = 0) const { if (pos >= b_.size()) return 0; n = std::min(n, b_.size() - pos); memcpy(o, b_.data() + pos, n); return n; }
  size_t copy_to(std::string* o, size_t n = (size_t)-1, size_t pos = 0) const { if (pos >= b_.size()) { o->clear(); return 0; } *o = b_.substr(pos, n); return o->size(); }
  size_t append_to(IOBuf* o, size_t n = (size_t)-1, size_t pos = 0) const { if (pos >= b_.size()) return 0; std::string t = b_.substr(pos, n); o->b_ += t; return t.size(); }
  size_t append_to(std::string* o, size_t n = (size_t)-1, size_t pos = 0) const { if (pos >= b_.size()) return 0; std::string t = b_.substr(pos, n); *o += t; return t.size(); }
  const void* fetch(void* aux, size_t n) const { if (n > b_.size()) return nullptr; (void)aux; return b_.data(); }
  const void* fetch1() const { return b_.empty() ? nullptr : b_.data(); }
  std::string to_string() const { return b_; }
  size_t backing_block_num() const { return b_.empty() ? 0 : 1; }
  StringPiece backing_block(size_t i) const { return i == 0 && !b_.empty() ? StringPiece(b_) : StringPiece(); }
  bool equals(const StringPiece& s) const { return StringPiece(b_) == s; }
  bool equals(const IOBuf& s) const { return b_ == s.b_; }
  ssize_t cut_into_file_descriptor(int fd, size_t hint = 1 << 20) { ssize_t n = ::write(fd, b_.data(), std::min(hint, b_.size())); if (n > 0) pop_front(n); return n; }
  ssize_t pcut_into_file_descriptor(int fd, off_t off, size_t hint = 1 << 20) { ssize_t n = ::pwrite(fd, b_.data(), std::min(hint, b_.size()), off); if (n > 0) pop_front(n); return n; }
  static ssize_t cut_multiple_into_file_descriptor(int fd, IOBuf* const* p, size_t cnt) {
    struct iovec v[64]; size_t k = 0;
    for (size_t i = 0; i < cnt && k < 64; ++i) if (!p[i]->empty()) { v[k].iov_base = &p[i]->b_[0]; v[k].iov_len = p[i]->size(); ++k; }
    if (!k) return 0;
    ssize_t n = ::writev(fd, v, k); ssize_t left = n;
    for (size_t i = 0; i < cnt && left > 0; ++i) { size_t m = std::min((size_t)left, p[i]->size()); p[i]->pop_front(m); left -= m; }
    return n;
  }
 protected:
  friend class IOBufAsZeroCopyOutputStream; friend class IOBufAsZeroCopyInputStream;
  std::string b_;
};
inline bool operator==(const IOBuf& a, const IOBuf& b) { return a.equals(b); }
inline bool operator==(const IOBuf& a, const StringPiece& b) { return a.equals(b); }
inline std::ostream& operator<<(std::ostream& os, const IOBuf& b) { return os << b.to_string(); }
class IOPortal : public IOBuf {
 public:
  ssize_t append_from_file_descriptor(int fd, size_t n) { std::string t(n, 0); ssize_t r = ::read(fd, &t[0], n); if (r > 0) b_.append(t, 0, r); return r; }
  ssize_t pappend_from_file_descriptor(int fd, off_t off, size_t n) { std::string t(n, 0); ssize_t r = ::pread(fd, &t[0], n, off); if (r > 0) b_.append(t, 0, r); return r; }
  void return_cached_blocks() {}
};
class IOBufAsZeroCopyOutputStream : public google::protobuf::io::ZeroCopyOutputStream {
 public:
  explicit IOBufAsZeroCopyOutputStream(IOBuf* b) : s_(&b->b_) {}
  bool Next(void** d, int* n) override { return s_.Next(d, n); }
  void BackUp(int c) override { s_.BackUp(c); }
  int64_t ByteCount() const override { return s_.ByteCount(); }
 private:
  google::protobuf::io::StringOutputStream s_;
};
class IOBufAsZeroCopyInputStream : public google::protobuf::io::ZeroCopyInputStream {
 public:
  explicit IOBufAsZeroCopyInputStream(const IOBuf& b) : s_(b.b_.data(), (int)b.b_.size()) {}
  bool Next(const void** d, int* n) override { return s_.Next(d, n); }
  void BackUp(int c) override { s_.BackUp(c); }
  bool Skip(int c) override { return s_.Skip(c); }
  int64_t ByteCount() const override { return s_.ByteCount(); }
 private:
  google::protobuf::io::ArrayInputStream s_;
};
class IOBufBuilder : public std::ostringstream {
 public:
  IOBuf& buf() { b_.clear(); b_.append(str()); return b_; }
  void move_to(IOBuf& t) { t.clear(); t.append(str()); str(""); }
 private:
  IOBuf b_;
};
class IOBufAppender {
 public:
  int append(const void* d, size_t n) { return b_.append(d, n); }
  IOBuf& buf() { return b_; }
 private: IOBuf b_;
};
}  // namespace butil
