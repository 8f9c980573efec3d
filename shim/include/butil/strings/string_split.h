#pragma once
#include <string>
#include <vector>
#include "butil/strings/string_piece.h"
namespace butil {
inline std::string shim_trim(const std::string& s) {
  size_t b = 0, e = s.size();
  while (b < e && isspace((unsigned char)s[b])) b++;
  while (e > b && isspace((unsigned char)s[e - 1])) e--;
  return s.substr(b, e - b);
}
inline void SplitString(const std::string& str, char c, std::vector<std::string>* r) {
  r->clear(); size_t last = 0;
  for (size_t i = 0; i <= str.size(); ++i) {
    if (i == str.size() || str[i] == c) {
      std::string tmp = shim_trim(str.substr(last, i - last));
      if (i != str.size() || !r->empty() || !tmp.empty()) r->push_back(tmp);
      last = i + 1;
    }
  }
}
inline void SplitString(const StringPiece& s, char c, std::vector<StringPiece>* r) {
  r->clear(); size_t last = 0;
  for (size_t i = 0; i <= s.size(); ++i)
    if (i == s.size() || s[i] == c) { r->push_back(s.substr(last, i - last)); last = i + 1; }
}
inline void SplitStringUsingSubstr(const std::string& str, const std::string& sep, std::vector<std::string>* r) {
  size_t b = 0;
  while (true) {
    size_t e = str.find(sep, b);
    if (e == std::string::npos) { r->push_back(shim_trim(str.substr(b))); return; }
    r->push_back(shim_trim(str.substr(b, e - b))); b = e + sep.size();
  }
}
}  // namespace butil
