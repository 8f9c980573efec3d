#pragma once
#include <cstring>
#include <ostream>
#include <string>
#include <string_view>
namespace butil {
class StringPiece {
 public:
  using const_iterator = const char*;
  static const size_t npos = std::string::npos;
  StringPiece() : p_(nullptr), n_(0) {}
  StringPiece(const char* s) : p_(s), n_(s ? strlen(s) : 0) {}
  StringPiece(const std::string& s) : p_(s.data()), n_(s.size()) {}
  StringPiece(const char* p, size_t n) : p_(p), n_(n) {}
  const char* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  char operator[](size_t i) const { return p_[i]; }
  const char* begin() const { return p_; }
  const char* end() const { return p_ + n_; }
  std::string as_string() const { return n_ ? std::string(p_, n_) : std::string(); }
  std::string_view sv() const { return std::string_view(p_, n_); }
  void copy_to_string(std::string* s) const { s->assign(p_, n_); }
  StringPiece substr(size_t pos, size_t n = npos) const {
    if (pos > n_) pos = n_; if (n > n_ - pos) n = n_ - pos; return StringPiece(p_ + pos, n);
  }
  size_t find(char c, size_t pos = 0) const { return sv().find(c, pos); }
  void remove_prefix(size_t n) { p_ += n; n_ -= n; }
  void remove_suffix(size_t n) { n_ -= n; }
  bool starts_with(const StringPiece& x) const { return n_ >= x.n_ && memcmp(p_, x.p_, x.n_) == 0; }
  bool ends_with(const StringPiece& x) const { return n_ >= x.n_ && memcmp(p_ + n_ - x.n_, x.p_, x.n_) == 0; }
 private:
  const char* p_; size_t n_;
};
inline bool operator==(const StringPiece& a, const StringPiece& b) { return a.sv() == b.sv(); }
inline bool operator!=(const StringPiece& a, const StringPiece& b) { return !(a == b); }
inline bool operator<(const StringPiece& a, const StringPiece& b) { return a.sv() < b.sv(); }
inline std::ostream& operator<<(std::ostream& os, const StringPiece& s) { return os.write(s.data(), s.size()); }
}  // namespace butil
