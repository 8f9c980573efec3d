#pragma once
#include <cerrno>
namespace butil {
class File {
 public:
  enum Error { FILE_OK = 0, FILE_ERROR_FAILED = -1, FILE_ERROR_IN_USE = -2, FILE_ERROR_EXISTS = -3, FILE_ERROR_NOT_FOUND = -4, FILE_ERROR_ACCESS_DENIED = -5, FILE_ERROR_TOO_MANY_OPENED = -6, FILE_ERROR_NO_MEMORY = -7, FILE_ERROR_NO_SPACE = -8, FILE_ERROR_NOT_A_DIRECTORY = -9, FILE_ERROR_INVALID_OPERATION = -10 };
  static Error OSErrorToFileError(int e) {
    switch (e) { case EACCES: case EISDIR: case EROFS: case EPERM: return FILE_ERROR_ACCESS_DENIED; case ETXTBSY: return FILE_ERROR_IN_USE; case EEXIST: return FILE_ERROR_EXISTS; case ENOENT: return FILE_ERROR_NOT_FOUND; case EMFILE: return FILE_ERROR_TOO_MANY_OPENED; case ENOMEM: return FILE_ERROR_NO_MEMORY; case ENOSPC: return FILE_ERROR_NO_SPACE; case ENOTDIR: return FILE_ERROR_NOT_A_DIRECTORY; default: return FILE_ERROR_FAILED; }
  }
};
}
