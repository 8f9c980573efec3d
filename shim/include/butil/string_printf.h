#pragma once
#include <cstdarg>
#include <cstdio>
#include <string>
namespace butil {
inline void shim_vappend(std::string* s, const char* fmt, va_list ap) {
  va_list ap2; va_copy(ap2, ap); int n = vsnprintf(nullptr, 0, fmt, ap2); va_end(ap2);
  if (n <= 0) return; size_t o = s->size(); s->resize(o + n + 1); vsnprintf(&(*s)[o], n + 1, fmt, ap); s->resize(o + n);
}
inline std::string string_printf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string string_printf(const char* fmt, ...) { std::string s; va_list ap; va_start(ap, fmt); shim_vappend(&s, fmt, ap); va_end(ap); return s; }
inline int string_printf(std::string* o, const char* fmt, ...) { o->clear(); va_list ap; va_start(ap, fmt); shim_vappend(o, fmt, ap); va_end(ap); return 0; }
inline int string_appendf(std::string* o, const char* fmt, ...) { va_list ap; va_start(ap, fmt); shim_vappend(o, fmt, ap); va_end(ap); return 0; }
}  // namespace butil
