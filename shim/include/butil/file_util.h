#pragma once
#include <sys/stat.h>
#include <filesystem>
#include "butil/files/file.h"
#include "butil/files/file_path.h"
namespace butil {
inline bool PathExists(const FilePath& p) { std::error_code e; return std::filesystem::exists(p.value(), e); }
inline bool DirectoryExists(const FilePath& p) { std::error_code e; return std::filesystem::is_directory(p.value(), e); }
inline bool CreateDirectoryAndGetError(const FilePath& p, File::Error* err, bool parents = true) {
  std::error_code e; if (std::filesystem::is_directory(p.value(), e)) return true;
  if (parents) std::filesystem::create_directories(p.value(), e); else std::filesystem::create_directory(p.value(), e);
  if (e) { if (err) *err = File::OSErrorToFileError(e.value()); return false; } return true;
}
inline bool CreateDirectory(const FilePath& p, bool parents = true) { return CreateDirectoryAndGetError(p, nullptr, parents); }

inline bool DeleteFile(const FilePath& p, bool rec) {
  std::error_code e; if (!std::filesystem::exists(std::filesystem::symlink_status(p.value(), e))) return true;
  if (rec) { std::filesystem::remove_all(p.value(), e); } else std::filesystem::remove(p.value(), e); return !e;
}
inline bool GetFileSize(const FilePath& p, int64_t* n) { std::error_code e; auto s = std::filesystem::file_size(p.value(), e); if (e) return false; *n = s; return true; }
inline bool ReplaceFile(const FilePath& a, const FilePath& b, File::Error* er) { if (::rename(a.value().c_str(), b.value().c_str()) == 0) return true; if (er) *er = File::OSErrorToFileError(errno); return false; }
}
