#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <ostream>
#include <string>
#include "butil/strings/string_piece.h"
namespace butil {
class Status {
 public:
  Status() : code_(0) {}
  static Status OK() { return Status(); }
  Status(int code, const char* fmt, ...) __attribute__((format(printf, 3, 4))) : code_(code) {
    va_list ap; va_start(ap, fmt); vset(fmt, ap); va_end(ap);
  }
  Status(int code, const std::string& msg) : code_(code), msg_(code ? msg : std::string()) {}
  Status(int code, const StringPiece& msg) : code_(code), msg_(code ? msg.as_string() : std::string()) {}
  void reset() { code_ = 0; msg_.clear(); }
  int set_error(int code, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    va_list ap; va_start(ap, fmt); code_ = code; vset(fmt, ap); va_end(ap); return 0;
  }
  int set_error(int code, const std::string& msg) { code_ = code; msg_ = msg; return 0; }
  bool ok() const { return code_ == 0; }
  int error_code() const { return code_; }
  const char* error_cstr() const { return code_ == 0 ? "OK" : msg_.c_str(); }
  StringPiece error_data() const { return msg_; }
  std::string error_str() const { return code_ == 0 ? "OK" : msg_; }
  void swap(Status& o) { std::swap(code_, o.code_); msg_.swap(o.msg_); }
 private:
  void vset(const char* fmt, va_list ap) {
    char buf[4096]; int n = vsnprintf(buf, sizeof buf, fmt, ap); msg_.assign(buf, n < 0 ? 0 : (n < 4095 ? n : 4095));
  }
  int code_; std::string msg_;
};
inline std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.error_str(); }
}  // namespace butil
