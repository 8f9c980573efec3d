#pragma once
#include <dirent.h>
#include <cstring>
namespace butil {
class DirReaderPosix {
 public:
  explicit DirReaderPosix(const char* p) { d_ = opendir(p); }
  ~DirReaderPosix() { if (d_) closedir(d_); }
  bool IsValid() const { return d_ != nullptr; }
  bool Next() { while (d_ && (e_ = readdir(d_))) { if (strcmp(e_->d_name, ".") && strcmp(e_->d_name, "..")) return true; } return false; }
  const char* name() const { return e_ ? e_->d_name : nullptr; }
 private: DIR* d_; dirent* e_ = nullptr;
};
}
