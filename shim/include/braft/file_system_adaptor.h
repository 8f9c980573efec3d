#pragma once
#include <google/protobuf/message.h>
#include <cerrno>
#include "braft/local_file_meta.pb.h"
#include "braft/util.h"
#include "butil/file_util.h"
#include "butil/fd_utility.h"
#include "butil/files/dir_reader_posix.h"
#include "butil/memory/ref_counted.h"
#include "butil/memory/singleton.h"
#include "butil/unique_ptr.h"
namespace braft {
class DirReader { public: DirReader() {} virtual ~DirReader() {} virtual bool is_valid() const = 0; virtual bool next() = 0; virtual const char* name() const = 0; };
class FileAdaptor {
 public:
  virtual ~FileAdaptor() {}
  virtual ssize_t write(const butil::IOBuf& data, off_t offset) = 0;
  virtual ssize_t read(butil::IOPortal* portal, off_t offset, size_t size) = 0;
  virtual ssize_t size() = 0;
  virtual bool sync() = 0;
  virtual bool close() = 0;
 protected: FileAdaptor() {}
};
class FileSystemAdaptor : public butil::RefCountedThreadSafe<FileSystemAdaptor> {
 public:
  FileSystemAdaptor() {} virtual ~FileSystemAdaptor() {}
  virtual FileAdaptor* open(const std::string& path, int oflag, const ::google::protobuf::Message* file_meta, butil::File::Error* e) = 0;
  virtual bool delete_file(const std::string& path, bool recursive) = 0;
  virtual bool rename(const std::string& old_path, const std::string& new_path) = 0;
  virtual bool link(const std::string& old_path, const std::string& new_path) = 0;
  virtual bool create_directory(const std::string& path, butil::File::Error* error, bool create_parent_directories) = 0;
  virtual bool path_exists(const std::string& path) = 0;
  virtual bool directory_exists(const std::string& path) = 0;
  virtual DirReader* directory_reader(const std::string& path) = 0;
  virtual FileAdaptor* file_adaptor_dummy() { return nullptr; }
  virtual bool open_snapshot(const std::string& /*snapshot_path*/) { return true; }
  virtual void close_snapshot(const std::string& /*snapshot_path*/) {}
};
class PosixFileAdaptor : public FileAdaptor {
 public:
  PosixFileAdaptor(int fd) : fd_(fd) {} ~PosixFileAdaptor() override { if (fd_ >= 0) ::close(fd_); }
  ssize_t write(const butil::IOBuf& data, off_t o) override { return braft::file_pwrite(data, fd_, o); }
  ssize_t read(butil::IOPortal* p, off_t o, size_t n) override { return braft::file_pread(p, fd_, o, n); }
  ssize_t size() override { return lseek(fd_, 0, SEEK_END); }
  bool sync() override { return raft_fsync(fd_) == 0; }
  bool close() override { int fd = fd_; fd_ = -1; return fd < 0 || ::close(fd) == 0; }
 private: int fd_;
};
class PosixDirReader0 : public DirReader { public: PosixDirReader0(const std::string& p) : r_(p.c_str()) {} bool is_valid() const override { return r_.IsValid(); } bool next() override { return r_.Next(); } const char* name() const override { return r_.name(); } private: butil::DirReaderPosix r_; };
class PosixFileSystemAdaptor : public FileSystemAdaptor {
 public:
  FileAdaptor* open(const std::string& p, int f, const ::google::protobuf::Message*, butil::File::Error* e) override { int fd = ::open(p.c_str(), f & ~O_CLOEXEC, 0644); if (fd < 0) { if (e) *e = butil::File::OSErrorToFileError(errno); return nullptr; } if (e) *e = butil::File::FILE_OK; return new PosixFileAdaptor(fd); }
  bool delete_file(const std::string& p, bool r) override { return butil::DeleteFile(butil::FilePath(p), r); }
  bool rename(const std::string& a, const std::string& b) override { return ::rename(a.c_str(), b.c_str()) == 0; }
  bool link(const std::string& a, const std::string& b) override { return ::link(a.c_str(), b.c_str()) == 0; }
  bool create_directory(const std::string& p, butil::File::Error* e, bool parents) override { return butil::CreateDirectoryAndGetError(butil::FilePath(p), e, parents); }
  bool path_exists(const std::string& p) override { return butil::PathExists(butil::FilePath(p)); }
  bool directory_exists(const std::string& p) override { return butil::DirectoryExists(butil::FilePath(p)); }
  DirReader* directory_reader(const std::string& p) override { return new PosixDirReader0(p); }
};
inline FileSystemAdaptor* default_file_system() { static scoped_refptr<PosixFileSystemAdaptor> fs(new PosixFileSystemAdaptor()); return fs.get(); }
inline int file_error_to_os_error(butil::File::Error e) { switch (e) { case butil::File::FILE_OK: return 0; case butil::File::FILE_ERROR_ACCESS_DENIED: return EACCES; case butil::File::FILE_ERROR_EXISTS: return EEXIST; case butil::File::FILE_ERROR_NOT_FOUND: return ENOENT; case butil::File::FILE_ERROR_NO_SPACE: return ENOSPC; default: return EIO; } }
}
