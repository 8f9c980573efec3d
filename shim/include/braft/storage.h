#pragma once
#include <functional>
#include "braft/configuration_manager.h"
#include "braft/file_system_adaptor.h"
#include "braft/raft.pb.h"
#include "butil/files/file.h"
namespace braft {
DECLARE_bool(raft_sync);
struct IOMetric { int64_t start_time_us = 0, bthread_queue_time_us = 0, open_segment_time_us = 0, append_entry_time_us = 0, sync_segment_time_us = 0; IOMetric() = default; };
inline int gc_dir(const std::string& p) { std::error_code e; std::filesystem::remove_all(p, e); return e ? -1 : 0; }
class LogStorage {
 public:
  virtual ~LogStorage() {}
  virtual int init(ConfigurationManager*) = 0;
  virtual int64_t first_log_index() = 0;
  virtual int64_t last_log_index() = 0;
  virtual LogEntry* get_entry(const int64_t index) = 0;
  virtual int64_t get_term(const int64_t index) = 0;
  virtual int append_entry(const LogEntry* entry) = 0;
  virtual int append_entries(const std::vector<LogEntry*>& entries, IOMetric* metric) = 0;
  virtual int truncate_prefix(const int64_t first_index_kept) = 0;
  virtual int truncate_suffix(const int64_t last_index_kept) = 0;
  virtual int reset(const int64_t next_log_index) = 0;
  virtual LogStorage* new_instance(const std::string& uri) const = 0;
  virtual butil::Status gc_instance(const std::string& uri) const { (void)uri; return butil::Status::OK(); }
};
class Snapshot : public butil::Status {
 public:
  Snapshot() {} virtual ~Snapshot() {}
  virtual std::string get_path() = 0;
  virtual void list_files(std::vector<std::string>* files) = 0;
  virtual int get_file_meta(const std::string& f, ::google::protobuf::Message* m) { (void)f; if (m) m->Clear(); return 0; }
};
class SnapshotWriter : public Snapshot {
 public:
  virtual int save_meta(const SnapshotMeta& meta) = 0;
  virtual int add_file(const std::string& f) { return add_file(f, nullptr); }
  virtual int add_file(const std::string& f, const ::google::protobuf::Message* m) = 0;
  virtual int remove_file(const std::string& f) = 0;
};
class SnapshotReader : public Snapshot {
 public:
  virtual int load_meta(SnapshotMeta* meta) = 0;
  virtual std::string generate_uri_for_copy() = 0;
};
}
