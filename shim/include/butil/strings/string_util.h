#pragma once
#include "butil/strings/string_split.h"
#include "butil/string_printf.h"
namespace butil {
enum TrimPositions { TRIM_NONE = 0, TRIM_LEADING = 1, TRIM_TRAILING = 2, TRIM_ALL = 3 };
inline TrimPositions TrimWhitespaceASCII(const std::string& in, TrimPositions, std::string* out) {
  *out = shim_trim(in); return TRIM_ALL;
}
inline TrimPositions TrimWhitespace(const std::string& in, TrimPositions p, std::string* out) { return TrimWhitespaceASCII(in, p, out); }
}
