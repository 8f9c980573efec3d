#pragma once
#include <string>
namespace butil {
class FilePath {
 public:
  FilePath() {}
  explicit FilePath(const std::string& p) : p_(p) {}
  const std::string& value() const { return p_; }
  bool empty() const { return p_.empty(); }
  FilePath Append(const std::string& c) const { return FilePath(p_.empty() ? c : (p_.back() == '/' ? p_ + c : p_ + "/" + c)); }
  FilePath DirName() const { auto i = p_.rfind('/'); return FilePath(i == std::string::npos ? "." : (i == 0 ? "/" : p_.substr(0, i))); }
  FilePath BaseName() const { auto i = p_.rfind('/'); return FilePath(i == std::string::npos ? p_ : p_.substr(i + 1)); }
 private: std::string p_;
};
}
