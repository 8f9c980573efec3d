// API stand-in for RocksDB: an in-memory, path-keyed store with column families, atomic write batches,
// snapshots, bounded iterators, checkpoints and real sst files. Written for /verif; not the real library.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace rocksdb {

class Slice {
 public:
  Slice() : data_(""), size_(0) {}
  Slice(const char* d, size_t n) : data_(d), size_(n) {}
  Slice(const std::string& s) : data_(s.data()), size_(s.size()) {}
  Slice(const std::string_view& s) : data_(s.data()), size_(s.size()) {}
  Slice(const char* s) : data_(s), size_(s ? strlen(s) : 0) {}
  const char* data() const { return data_; }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  void clear() { data_ = ""; size_ = 0; }
  char operator[](size_t i) const { return data_[i]; }
  std::string ToString(bool = false) const { return std::string(data_, size_); }
  std::string_view ToStringView() const { return std::string_view(data_, size_); }
  int compare(const Slice& b) const { return ToStringView().compare(b.ToStringView()); }
  bool starts_with(const Slice& x) const { return size_ >= x.size_ && memcmp(data_, x.data_, x.size_) == 0; }
  void remove_prefix(size_t n) { data_ += n; size_ -= n; }
  void remove_suffix(size_t n) { size_ -= n; }
 public:
  const char* data_;
  size_t size_;
};
inline bool operator==(const Slice& a, const Slice& b) { return a.ToStringView() == b.ToStringView(); }
inline bool operator!=(const Slice& a, const Slice& b) { return !(a == b); }
inline bool operator<(const Slice& a, const Slice& b) { return a.compare(b) < 0; }

class Status {
 public:
  enum Code : unsigned char { kOk = 0, kNotFound = 1, kCorruption = 2, kNotSupported = 3, kInvalidArgument = 4, kIOError = 5, kMergeInProgress = 6, kIncomplete = 7, kAborted = 10, kBusy = 11 };
  Status() = default;
  Status(Code c, std::string m = "") : c_(c), m_(std::move(m)) {}
  static Status OK() { return {}; }
  static Status NotFound(const std::string& m = "") { return {kNotFound, m}; }
  static Status Corruption(const std::string& m = "") { return {kCorruption, m}; }
  static Status InvalidArgument(const std::string& m = "") { return {kInvalidArgument, m}; }
  static Status IOError(const std::string& m = "") { return {kIOError, m}; }
  bool ok() const { return c_ == kOk; }
  bool IsNotFound() const { return c_ == kNotFound; }
  bool IsInvalidArgument() const { return c_ == kInvalidArgument; }
  bool IsCorruption() const { return c_ == kCorruption; }
  bool IsIOError() const { return c_ == kIOError; }
  Code code() const { return c_; }
  std::string ToString() const;
  const char* getState() const { return m_.c_str(); }
 private:
  Code c_ = kOk;
  std::string m_;
};

enum CompressionType : unsigned char { kNoCompression = 0, kSnappyCompression = 1, kZlibCompression = 2, kBZip2Compression = 3, kLZ4Compression = 4, kLZ4HCCompression = 5, kXpressCompression = 6, kZSTD = 7 };
struct CompressionOptions { int window_bits = -14, level = 32767, strategy = 0; uint32_t max_dict_bytes = 0; bool enabled = false; };
class Cache {};
std::shared_ptr<Cache> NewLRUCache(size_t cap, int = -1, bool = false, double = 0.5);
class FilterPolicy {};
const FilterPolicy* NewBloomFilterPolicy(double, bool = false);
class SliceTransform {};
const SliceTransform* NewCappedPrefixTransform(size_t);
const SliceTransform* NewFixedPrefixTransform(size_t);
class TableFactory {};
struct BlockBasedTableOptions {
  size_t block_size = 4096;
  std::shared_ptr<Cache> block_cache;
  std::shared_ptr<const FilterPolicy> filter_policy;
  bool whole_key_filtering = true, cache_index_and_filter_blocks = false, pin_l0_filter_and_index_blocks_in_cache = false;
};
TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions& = {});
class RateLimiter {};
RateLimiter* NewGenericRateLimiter(int64_t, int64_t = 100000, int32_t = 10);
class Statistics { public: std::string ToString() const { return ""; } };
std::shared_ptr<Statistics> CreateDBStatistics();
class EventListener { public: virtual ~EventListener() = default; };
class Env { public: static Env* Default(); void SetBackgroundThreads(int, int = 0) {} };
class Comparator;

enum CompactionStyle : char { kCompactionStyleLevel = 0, kCompactionStyleUniversal, kCompactionStyleFIFO, kCompactionStyleNone };
struct ColumnFamilyOptions {
  size_t arena_block_size = 0, write_buffer_size = 64 << 20, target_file_size_base = 64 << 20;
  int min_write_buffer_number_to_merge = 1, max_write_buffer_number = 2, num_levels = 7, level0_file_num_compaction_trigger = 4;
  uint64_t max_compaction_bytes = 0, max_bytes_for_level_base = 256 << 20;
  double max_bytes_for_level_multiplier = 10;
  std::shared_ptr<const SliceTransform> prefix_extractor;
  std::vector<CompressionType> compression_per_level;
  CompressionType compression = kNoCompression, bottommost_compression = kNoCompression;
  CompressionOptions compression_opts, bottommost_compression_opts;
  std::shared_ptr<TableFactory> table_factory;
  CompactionStyle compaction_style = kCompactionStyleLevel;
};
struct DBOptions {
  bool create_if_missing = false, create_missing_column_families = false, error_if_exists = false, use_direct_io_for_flush_and_compaction = false, manual_wal_flush = false;
  int max_background_jobs = 2;
  uint32_t max_subcompactions = 1;
  unsigned stats_dump_period_sec = 600;
  size_t recycle_log_file_num = 0;
  uint64_t max_total_wal_size = 0, bytes_per_sync = 0, wal_bytes_per_sync = 0;
  std::shared_ptr<Statistics> statistics;
  std::shared_ptr<RateLimiter> rate_limiter;
  std::vector<std::shared_ptr<EventListener>> listeners;
  Env* env = nullptr;
};
struct Options : DBOptions, ColumnFamilyOptions {};
struct EnvOptions {};
class ColumnFamilyHandle {
 public:
  ColumnFamilyHandle(std::string n, uint32_t id) : name_(std::move(n)), id_(id) {}
  virtual ~ColumnFamilyHandle() = default;
  const std::string& GetName() const { return name_; }
  uint32_t GetID() const { return id_; }
 private:
  std::string name_;
  uint32_t id_;
};
struct ColumnFamilyDescriptor {
  std::string name = "default";
  ColumnFamilyOptions options;
  ColumnFamilyDescriptor() = default;
  ColumnFamilyDescriptor(std::string n, ColumnFamilyOptions o) : name(std::move(n)), options(std::move(o)) {}
};
extern const std::string kDefaultColumnFamilyName;

using KvMap = std::map<std::string, std::string>;
using KvMapPtr = std::shared_ptr<KvMap>;
class Snapshot {
 public:
  std::map<std::string, KvMapPtr> cfs;
};
struct ReadOptions {
  const Snapshot* snapshot = nullptr;
  const Slice* iterate_upper_bound = nullptr;
  const Slice* iterate_lower_bound = nullptr;
  bool auto_prefix_mode = false, async_io = false, adaptive_readahead = false, fill_cache = true, verify_checksums = true, total_order_seek = false, prefix_same_as_start = false;
  size_t readahead_size = 0;
  ReadOptions() = default;
  ReadOptions(bool, bool) {}
};
struct WriteOptions { bool sync = false, disableWAL = false, no_slowdown = false; };
struct FlushOptions { bool wait = true, allow_write_stall = false; };
struct CompactRangeOptions { bool exclusive_manual_compaction = true, allow_write_stall = false; };
struct IngestExternalFileOptions { bool move_files = false, snapshot_consistency = true, allow_global_seqno = true, allow_blocking_flush = true, write_global_seqno = true; };
struct SizeApproximationOptions { bool include_memtables = false, include_files = true; };
struct Range { Slice start, limit; Range() = default; Range(const Slice& s, const Slice& l) : start(s), limit(l) {} };

class WriteBatch {
 public:
  enum Op { kPut, kDel, kDelRange };
  struct Entry { Op op; std::string cf, k, v; };
  Status Put(ColumnFamilyHandle* h, const Slice& k, const Slice& v) { ops_.push_back({kPut, h->GetName(), k.ToString(), v.ToString()}); return {}; }
  Status Put(const Slice& k, const Slice& v) { ops_.push_back({kPut, "default", k.ToString(), v.ToString()}); return {}; }
  Status Delete(ColumnFamilyHandle* h, const Slice& k) { ops_.push_back({kDel, h->GetName(), k.ToString(), ""}); return {}; }
  Status Delete(const Slice& k) { ops_.push_back({kDel, "default", k.ToString(), ""}); return {}; }
  Status DeleteRange(ColumnFamilyHandle* h, const Slice& a, const Slice& b) { ops_.push_back({kDelRange, h->GetName(), a.ToString(), b.ToString()}); return {}; }
  Status DeleteRange(const Slice& a, const Slice& b) { ops_.push_back({kDelRange, "default", a.ToString(), b.ToString()}); return {}; }
  int Count() const { return (int)ops_.size(); }
  void Clear() { ops_.clear(); }
  size_t GetDataSize() const { size_t n = 0; for (auto& o : ops_) n += o.k.size() + o.v.size(); return n; }
  const std::vector<Entry>& ops() const { return ops_; }
 private:
  std::vector<Entry> ops_;
};

class Iterator {
 public:
  Iterator(KvMapPtr m, bool has_ub, std::string ub, bool has_lb, std::string lb);
  virtual ~Iterator() = default;
  bool Valid() const { return valid_; }
  void SeekToFirst();
  void SeekToLast();
  void Seek(const Slice& t);
  void SeekForPrev(const Slice& t);
  void Next();
  void Prev();
  Slice key() const { return Slice(it_->first); }
  Slice value() const { return Slice(it_->second); }
  Status status() const { return {}; }
 private:
  void Check();
  KvMapPtr m_;
  KvMap::const_iterator it_;
  bool valid_ = false, has_ub_, has_lb_;
  std::string ub_, lb_;
};

struct SstFileMetaData { std::string name, smallestkey, largestkey, relative_filename, db_path, directory; uint64_t size = 0, num_entries = 0, file_number = 0; };
struct LevelMetaData { int level = 0; uint64_t size = 0; std::vector<SstFileMetaData> files; };
struct ColumnFamilyMetaData { uint64_t size = 0; size_t file_count = 0; std::string name; std::vector<LevelMetaData> levels; };
struct LiveFileMetaData : SstFileMetaData { std::string column_family_name; int level = 0; };

struct DbImage;  // the "disk"
class DB {
 public:
  static Status Open(const DBOptions&, const std::string& path, const std::vector<ColumnFamilyDescriptor>&, std::vector<ColumnFamilyHandle*>*, DB**);
  static Status Open(const Options&, const std::string& path, DB**);
  static Status OpenForReadOnly(const DBOptions&, const std::string& path, const std::vector<ColumnFamilyDescriptor>&, std::vector<ColumnFamilyHandle*>*, DB**, bool = false);
  static Status OpenForReadOnly(const Options&, const std::string& path, DB**, bool = false);
  static Status ListColumnFamilies(const DBOptions&, const std::string& path, std::vector<std::string>* out);
  virtual ~DB();
  Status Put(const WriteOptions&, ColumnFamilyHandle*, const Slice&, const Slice&);
  Status Put(const WriteOptions& o, const Slice& k, const Slice& v) { return Put(o, DefaultColumnFamily(), k, v); }
  Status Delete(const WriteOptions&, ColumnFamilyHandle*, const Slice&);
  Status Delete(const WriteOptions& o, const Slice& k) { return Delete(o, DefaultColumnFamily(), k); }
  Status DeleteRange(const WriteOptions&, ColumnFamilyHandle*, const Slice&, const Slice&);
  Status DeleteRange(const WriteOptions& o, const Slice& a, const Slice& b) { return DeleteRange(o, DefaultColumnFamily(), a, b); }
  Status Write(const WriteOptions&, WriteBatch*);
  Status Get(const ReadOptions&, ColumnFamilyHandle*, const Slice&, std::string*);
  Status Get(const ReadOptions& o, const Slice& k, std::string* v) { return Get(o, DefaultColumnFamily(), k, v); }
  Iterator* NewIterator(const ReadOptions&, ColumnFamilyHandle*);
  Iterator* NewIterator(const ReadOptions& o) { return NewIterator(o, DefaultColumnFamily()); }
  const Snapshot* GetSnapshot();
  void ReleaseSnapshot(const Snapshot*);
  ColumnFamilyHandle* DefaultColumnFamily();
  Status Flush(const FlushOptions&, ColumnFamilyHandle*) { return {}; }
  Status Flush(const FlushOptions&) { return {}; }
  Status SyncWAL();
  Status FlushWAL(bool sync) { return sync ? SyncWAL() : Status(); }
  Status CompactRange(const CompactRangeOptions&, ColumnFamilyHandle*, const Slice*, const Slice*) { return {}; }
  Status IngestExternalFile(ColumnFamilyHandle*, const std::vector<std::string>&, const IngestExternalFileOptions&);
  Status DisableFileDeletions() { return {}; }
  Status EnableFileDeletions(bool = false) { return {}; }
  void GetColumnFamilyMetaData(ColumnFamilyHandle*, ColumnFamilyMetaData*);
  void GetLiveFilesMetaData(std::vector<LiveFileMetaData>*) {}
  Status GetApproximateSizes(const SizeApproximationOptions&, ColumnFamilyHandle*, const Range*, int, uint64_t*);
  Status DropColumnFamilies(const std::vector<ColumnFamilyHandle*>&);
  Status DropColumnFamily(ColumnFamilyHandle*);
  Status DestroyColumnFamilyHandle(ColumnFamilyHandle*);
  Status CreateColumnFamily(const ColumnFamilyOptions&, const std::string&, ColumnFamilyHandle**);
  Status Close();
  bool GetProperty(ColumnFamilyHandle*, const Slice&, std::string*) { return false; }
  bool GetProperty(const Slice&, std::string*) { return false; }
  bool GetIntProperty(ColumnFamilyHandle*, const Slice&, uint64_t*) { return false; }
  std::shared_ptr<DbImage> image() { return img_; }

 private:
  DB() = default;
  std::shared_ptr<DbImage> img_;
  std::unique_ptr<ColumnFamilyHandle> def_;
  bool ro_ = false;
};
void CancelAllBackgroundWork(DB*, bool = false);
Status DestroyDB(const std::string&, const Options&);
Status RepairDB(const std::string&, const DBOptions&, const std::vector<ColumnFamilyDescriptor>&);

class Checkpoint {
 public:
  static Status Create(DB*, Checkpoint**);
  Status CreateCheckpoint(const std::string& dir);
  virtual ~Checkpoint() = default;
 private:
  DB* db_ = nullptr;
};

struct ExternalSstFileInfo { std::string file_path, smallest_key, largest_key; uint64_t file_size = 0, num_entries = 0; int32_t version = 2; uint64_t sequence_number = 0; std::string smallest_range_del_key, largest_range_del_key, file_checksum, file_checksum_func_name; uint64_t num_range_del_entries = 0; };
class SstFileWriter {
 public:
  SstFileWriter(const EnvOptions&, const Options&, ColumnFamilyHandle* = nullptr, bool = true) {}
  Status Open(const std::string& f);
  Status Put(const Slice& k, const Slice& v);
  Status Finish(ExternalSstFileInfo* = nullptr);
  uint64_t FileSize() { return size_; }
 private:
  std::string path_, last_;
  KvMap kvs_;
  uint64_t size_ = 0;
  bool open_ = false;
};
class SstFileReader {
 public:
  explicit SstFileReader(const Options&) {}
  Status Open(const std::string& f);
  Iterator* NewIterator(const ReadOptions&);
  Status VerifyChecksum() { return {}; }
 private:
  KvMapPtr m_;
};

enum PerfLevel : unsigned char { kUninitialized, kDisable, kEnableCount, kEnableTimeExceptForMutex, kEnableTime };
void SetPerfLevel(PerfLevel);
struct PerfContext { uint64_t block_cache_hit_count = 0, block_read_count = 0, block_read_time = 0, block_decompress_time = 0, internal_key_skipped_count = 0, internal_delete_skipped_count = 0, user_key_comparison_count = 0, block_read_byte = 0, seek_internal_seek_time = 0, find_next_user_entry_time = 0; void Reset() {} std::string ToString(bool = false) const { return ""; } };
PerfContext* get_perf_context();
}  // namespace rocksdb

// Controls for the harness (crash and fault injection on the simulated disk).
namespace shim {
struct RocksWrite { std::string path; const rocksdb::WriteBatch* batch; bool sync; };
// Called before a batch is applied. Returning a non-OK status makes the write fail without effect.
void SetRocksWriteHook(std::function<rocksdb::Status(const RocksWrite&)> h);
using RocksDump = std::map<std::string, rocksdb::KvMap>;
RocksDump RocksGetContent(const std::string& path);                 // current content by column family
void RocksSetContent(const std::string& path, const RocksDump& d);  // restore a saved image (a "crash" rewinds to it)
void RocksPowerFail(const std::string& path);                       // drop everything not synced
void RocksForget(const std::string& path);
RocksDump RocksGetDurable(const std::string& path);                 // what a power failure would leave
}  // namespace shim
