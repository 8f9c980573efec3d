#pragma once
#include <fcntl.h>
#include <gflags/gflags.h>
#include <unistd.h>
#include <cstdint>
#include <string>
#include "bthread/bthread.h"
#include "bthread/condition_variable.h"
#include "butil/crc32c.h"
#include "butil/endpoint.h"
#include "butil/iobuf.h"
#include "butil/macros.h"
#include "butil/raw_pack.h"
#include "butil/scoped_lock.h"
#include "butil/status.h"
#include "bvar/bvar.h"
#include "brpc/closure_guard.h"
namespace braft {
DECLARE_bool(raft_sync);
DECLARE_bool(raft_sync_meta);
DECLARE_bool(raft_create_parent_directories);
class Closure;
typedef bthread::Mutex raft_mutex_t;
uint32_t murmurhash32(const void* key, int len);
uint32_t murmurhash32(const butil::IOBuf& buf);
inline uint32_t crc32(const void* k, int n) { return butil::crc32c::Value((const char*)k, n); }
inline uint32_t crc32(const butil::IOBuf& b) { std::string s = b.to_string(); return butil::crc32c::Value(s.data(), s.size()); }
ssize_t file_pread(butil::IOPortal* portal, int fd, off_t offset, size_t size);
ssize_t file_pwrite(const butil::IOBuf& data, int fd, off_t offset);
inline int raft_fsync(int fd) { return fsync(fd); }
inline bool raft_sync_meta() { return FLAGS_raft_sync || FLAGS_raft_sync_meta; }
void run_closure_in_bthread(::google::protobuf::Closure* c, bool pthread = false);
inline void run_closure_in_bthread_nosig(::google::protobuf::Closure* c, bool p = false) { run_closure_in_bthread(c, p); }
struct RunClosureInBthread { void operator()(google::protobuf::Closure* d) { run_closure_in_bthread(d); } };
typedef std::unique_ptr<google::protobuf::Closure, RunClosureInBthread> AsyncClosureGuardBase;
class AsyncClosureGuard { public: explicit AsyncClosureGuard(google::protobuf::Closure* c) : c_(c) {} ~AsyncClosureGuard() { if (c_) run_closure_in_bthread(c_); } google::protobuf::Closure* release() { auto* c = c_; c_ = nullptr; return c; } private: google::protobuf::Closure* c_; };
class FileSegData {};
}
