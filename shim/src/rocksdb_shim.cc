#include "shim/sched.h"
#include "rocksdb/db.h"

#include <dirent.h>
#include <sys/stat.h>

#include <algorithm>
#include <fstream>

namespace rocksdb {
const std::string kDefaultColumnFamilyName = "default";

std::string Status::ToString() const {
  switch (c_) {
    case kOk: return "OK";
    case kNotFound: return "NotFound: " + m_;
    case kCorruption: return "Corruption: " + m_;
    case kInvalidArgument: return "Invalid argument: " + m_;
    case kIOError: return "IO error: " + m_;
    default: return "Status: " + m_;
  }
}
std::shared_ptr<Cache> NewLRUCache(size_t, int, bool, double) { return std::make_shared<Cache>(); }
const FilterPolicy* NewBloomFilterPolicy(double, bool) { return new FilterPolicy; }
const SliceTransform* NewCappedPrefixTransform(size_t) { return new SliceTransform; }
const SliceTransform* NewFixedPrefixTransform(size_t) { return new SliceTransform; }
TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions&) { return new TableFactory; }
RateLimiter* NewGenericRateLimiter(int64_t, int64_t, int32_t) { return new RateLimiter; }
std::shared_ptr<Statistics> CreateDBStatistics() { return std::make_shared<Statistics>(); }
Env* Env::Default() { static Env e; return &e; }
void SetPerfLevel(PerfLevel) {}
PerfContext* get_perf_context() { static thread_local PerfContext c; return &c; }
void CancelAllBackgroundWork(DB*, bool) {}

struct DbImage {
  std::string path;
  std::recursive_mutex mu;
  std::map<std::string, KvMapPtr> cfs;      // current
  std::map<std::string, KvMapPtr> durable;  // as of the last sync
  std::map<std::string, std::string> last_ckpt_files;  // cf -> file name of the last checkpoint
  uint64_t next_file = 10;
  KvMap& Mut(const std::string& cf) {
    auto& p = cfs[cf];
    if (!p) p = std::make_shared<KvMap>();
    if (p.use_count() > 1) p = std::make_shared<KvMap>(*p);
    return *p;
  }
};
static std::mutex g_mu;
static std::map<std::string, std::shared_ptr<DbImage>>& Disk() { static auto* m = new std::map<std::string, std::shared_ptr<DbImage>>; return *m; }
static std::function<Status(const shim::RocksWrite&)>& Hook() { static std::function<Status(const shim::RocksWrite&)> h; return h; }

Iterator::Iterator(KvMapPtr m, bool hu, std::string ub, bool hl, std::string lb) : m_(std::move(m)), has_ub_(hu), has_lb_(hl), ub_(std::move(ub)), lb_(std::move(lb)) {}
void Iterator::Check() { valid_ = it_ != m_->end() && (!has_ub_ || it_->first < ub_) && (!has_lb_ || it_->first >= lb_); }
void Iterator::SeekToFirst() { it_ = has_lb_ ? m_->lower_bound(lb_) : m_->begin(); Check(); }
void Iterator::SeekToLast() {
  it_ = has_ub_ ? m_->lower_bound(ub_) : m_->end();
  if (it_ == m_->begin()) { valid_ = false; return; }
  --it_; Check();
}
void Iterator::Seek(const Slice& t) { std::string k = t.ToString(); if (has_lb_ && k < lb_) k = lb_; it_ = m_->lower_bound(k); Check(); }
void Iterator::SeekForPrev(const Slice& t) {
  std::string k = t.ToString();
  if (has_ub_ && k >= ub_) { SeekToLast(); return; }
  it_ = m_->upper_bound(k);
  if (it_ == m_->begin()) { valid_ = false; return; }
  --it_; Check();
}
void Iterator::Next() { if (valid_) { ++it_; Check(); } }
void Iterator::Prev() { if (!valid_) return; if (it_ == m_->begin()) { valid_ = false; return; } --it_; Check(); }

// ---- sst files -------------------------------------------------------------------------------------------------
static void PutStr(std::string& o, const std::string& s) { uint32_t n = s.size(); o.append((char*)&n, 4); o += s; }
static bool GetStr(const std::string& d, size_t& p, std::string& o) { uint32_t n; if (p + 4 > d.size()) return false; memcpy(&n, &d[p], 4); p += 4; if (p + n > d.size()) return false; o = d.substr(p, n); p += n; return true; }
static bool WriteSst(const std::string& path, const std::string& cf, const KvMap& m, uint64_t* size = nullptr) {
  std::string d = "SSTSHIM1"; PutStr(d, cf);
  for (auto& [k, v] : m) { PutStr(d, k); PutStr(d, v); }
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  if (!f) return false;
  f.write(d.data(), d.size()); f.close();
  if (size) *size = d.size();
  return (bool)f;
}
static bool ReadSst(const std::string& path, std::string& cf, KvMap& m) {
  std::ifstream f(path, std::ios::binary);
  if (!f) return false;
  std::string d((std::istreambuf_iterator<char>(f)), {});
  if (d.compare(0, 8, "SSTSHIM1") != 0) return false;
  size_t p = 8;
  if (!GetStr(d, p, cf)) return false;
  std::string k, v;
  while (p < d.size()) { if (!GetStr(d, p, k) || !GetStr(d, p, v)) return false; m[k] = v; }
  return true;
}
Status SstFileWriter::Open(const std::string& f) {
  path_ = f; kvs_.clear(); open_ = true; size_ = 0;
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  return o ? Status() : Status::IOError("open " + f);
}
Status SstFileWriter::Put(const Slice& k, const Slice& v) {
  if (!open_) return Status::InvalidArgument("File is not opened");
  auto key = k.ToString();
  if (!kvs_.empty() && key <= kvs_.rbegin()->first) return Status::InvalidArgument("Keys must be added in strict ascending order.");
  kvs_[key] = v.ToString(); size_ += k.size() + v.size();
  return {};
}
Status SstFileWriter::Finish(ExternalSstFileInfo* info) {
  if (!open_) return Status::InvalidArgument("File is not opened");
  open_ = false;
  if (kvs_.empty()) { ::remove(path_.c_str()); return Status::InvalidArgument("Cannot create sst file with no entries"); }
  if (!WriteSst(path_, "default", kvs_, &size_)) return Status::IOError("write " + path_);
  if (info) { info->file_path = path_; info->smallest_key = kvs_.begin()->first; info->largest_key = kvs_.rbegin()->first; info->num_entries = kvs_.size(); info->file_size = size_; }
  return {};
}
Status SstFileReader::Open(const std::string& f) {
  m_ = std::make_shared<KvMap>(); std::string cf;
  struct stat st;
  if (stat(f.c_str(), &st) != 0) return Status::IOError("No such file: " + f);
  return ReadSst(f, cf, *m_) ? Status() : Status::Corruption("bad sst " + f);
}
Iterator* SstFileReader::NewIterator(const ReadOptions&) { return new Iterator(m_ ? m_ : std::make_shared<KvMap>(), false, "", false, ""); }

// ---- DB --------------------------------------------------------------------------------------------------------
DB::~DB() = default;
Status DB::Open(const DBOptions& o, const std::string& path, const std::vector<ColumnFamilyDescriptor>& descs, std::vector<ColumnFamilyHandle*>* hs, DB** out) {
  std::lock_guard<std::mutex> g(g_mu);
  auto& img = Disk()[path];
  if (!img) {
    if (!o.create_if_missing) { Disk().erase(path); return Status::InvalidArgument(path + ": does not exist (create_if_missing is false)"); }
    img = std::make_shared<DbImage>();
    img->path = path;
    img->cfs["default"] = std::make_shared<KvMap>();
  }
  auto* db = new DB; db->img_ = img;
  std::lock_guard<std::recursive_mutex> g2(img->mu);
  for (auto& [name, _] : img->cfs) {
    if (std::none_of(descs.begin(), descs.end(), [&](auto& d) { return d.name == name; })) { delete db; return Status::InvalidArgument("Column families not opened: " + name); }
  }
  uint32_t id = 0;
  for (auto& d : descs) {
    auto& p = img->cfs[d.name];
    if (!p) {
      if (!o.create_missing_column_families) { img->cfs.erase(d.name); delete db; return Status::InvalidArgument("Column family not found: " + d.name); }
      p = std::make_shared<KvMap>();
    }
    hs->push_back(new ColumnFamilyHandle(d.name, id++));
  }
  *out = db;
  return {};
}
Status DB::Open(const Options& o, const std::string& path, DB** out) {
  std::vector<ColumnFamilyHandle*> hs;
  auto s = Open(o, path, {ColumnFamilyDescriptor("default", {})}, &hs, out);
  for (auto* h : hs) delete h;
  return s;
}
static bool ReadDir(const std::string& dir, std::vector<std::string>& names) {
  DIR* d = opendir(dir.c_str());
  if (!d) return false;
  while (auto* e = readdir(d)) names.push_back(e->d_name);
  closedir(d);
  std::sort(names.begin(), names.end());
  return true;
}
static bool EndsWith(const std::string& s, const std::string& x) { return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }
Status DB::OpenForReadOnly(const DBOptions&, const std::string& path, const std::vector<ColumnFamilyDescriptor>& descs, std::vector<ColumnFamilyHandle*>* hs, DB** out, bool) {
  auto img = std::make_shared<DbImage>();
  img->path = path;
  std::vector<std::string> names;
  if (!ReadDir(path, names)) {
    std::lock_guard<std::mutex> g(g_mu);
    auto it = Disk().find(path);
    if (it == Disk().end()) return Status::IOError("no such db " + path);
    std::lock_guard<std::recursive_mutex> g2(it->second->mu);
    img->cfs = it->second->cfs;
  } else {
    struct stat st;
    if (stat((path + "/CURRENT").c_str(), &st) != 0) return Status::IOError("no CURRENT in " + path);
    img->cfs["default"] = std::make_shared<KvMap>();
    for (auto& n : names) {
      if (!EndsWith(n, ".sst")) continue;
      std::string cf; KvMap m;
      if (!ReadSst(path + "/" + n, cf, m)) return Status::Corruption("bad sst " + n);
      auto& p = img->cfs[cf];
      if (!p) p = std::make_shared<KvMap>();
      for (auto& [k, v] : m) (*p)[k] = v;
    }
  }
  uint32_t id = 0;
  for (auto& d : descs) {
    if (!img->cfs.count(d.name)) { for (auto* h : *hs) delete h; hs->clear(); return Status::InvalidArgument("Column family not found: " + d.name); }
    hs->push_back(new ColumnFamilyHandle(d.name, id++));
  }
  auto* db = new DB; db->img_ = img; db->ro_ = true;
  *out = db;
  return {};
}
Status DB::OpenForReadOnly(const Options& o, const std::string& path, DB** out, bool) {
  std::vector<ColumnFamilyHandle*> hs;
  auto s = OpenForReadOnly(o, path, {ColumnFamilyDescriptor("default", {})}, &hs, out, false);
  for (auto* h : hs) delete h;
  return s;
}
Status DB::ListColumnFamilies(const DBOptions&, const std::string& path, std::vector<std::string>* out) {
  std::lock_guard<std::mutex> g(g_mu);
  auto it = Disk().find(path);
  if (it == Disk().end()) return Status::IOError("no such db");
  for (auto& [n, _] : it->second->cfs) out->push_back(n);
  return {};
}
ColumnFamilyHandle* DB::DefaultColumnFamily() { if (!def_) def_ = std::make_unique<ColumnFamilyHandle>("default", 0); return def_.get(); }
Status DB::Write(const WriteOptions& o, WriteBatch* b) {
  shim::SchedPoint();
  if (ro_) return Status(Status::kNotSupported, "Not supported operation in read only mode.");
  if (Hook()) { auto s = Hook()({img_->path, b, o.sync}); if (!s.ok()) return s; }
  std::lock_guard<std::recursive_mutex> g(img_->mu);
  for (auto& e : b->ops()) if (!img_->cfs.count(e.cf)) return Status::InvalidArgument("Invalid column family specified in write batch");
  for (auto& e : b->ops()) if (e.op == WriteBatch::kDelRange && e.k > e.v) return Status::InvalidArgument("end key comes before start key");
  for (auto& e : b->ops()) {
    auto& m = img_->Mut(e.cf);
    if (e.op == WriteBatch::kPut) m[e.k] = e.v;
    else if (e.op == WriteBatch::kDel) m.erase(e.k);
    else m.erase(m.lower_bound(e.k), m.lower_bound(e.v));
  }
  if (o.sync) img_->durable = img_->cfs;
  return {};
}
Status DB::SyncWAL() { shim::SchedPoint(); std::lock_guard<std::recursive_mutex> g(img_->mu); img_->durable = img_->cfs; return {}; }
Status DB::Put(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& k, const Slice& v) { WriteBatch b; b.Put(h, k, v); return Write(o, &b); }
Status DB::Delete(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& k) { WriteBatch b; b.Delete(h, k); return Write(o, &b); }
Status DB::DeleteRange(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& a, const Slice& z) { WriteBatch b; b.DeleteRange(h, a, z); return Write(o, &b); }
static KvMapPtr View(DbImage* img, const Snapshot* s, const std::string& cf) {
  if (s) { auto it = s->cfs.find(cf); return it == s->cfs.end() ? std::make_shared<KvMap>() : it->second; }
  std::lock_guard<std::recursive_mutex> g(img->mu);
  auto it = img->cfs.find(cf);
  return it == img->cfs.end() ? std::make_shared<KvMap>() : it->second;
}
Status DB::Get(const ReadOptions& o, ColumnFamilyHandle* h, const Slice& k, std::string* v) {
  shim::SchedPoint();
  auto m = View(img_.get(), o.snapshot, h->GetName());
  auto it = m->find(k.ToString());
  if (it == m->end()) return Status::NotFound();
  *v = it->second;
  return {};
}
Iterator* DB::NewIterator(const ReadOptions& o, ColumnFamilyHandle* h) {
  shim::SchedPoint();
  return new Iterator(View(img_.get(), o.snapshot, h->GetName()), o.iterate_upper_bound != nullptr, o.iterate_upper_bound ? o.iterate_upper_bound->ToString() : "",
                      o.iterate_lower_bound != nullptr, o.iterate_lower_bound ? o.iterate_lower_bound->ToString() : "");
}
const Snapshot* DB::GetSnapshot() { shim::SchedPoint(); auto* s = new Snapshot; std::lock_guard<std::recursive_mutex> g(img_->mu); s->cfs = img_->cfs; return s; }
void DB::ReleaseSnapshot(const Snapshot* s) { std::lock_guard<std::recursive_mutex> g(img_->mu); delete s; }
Status DB::IngestExternalFile(ColumnFamilyHandle* h, const std::vector<std::string>& files, const IngestExternalFileOptions&) {
  std::vector<KvMap> all;
  for (auto& f : files) { std::string cf; KvMap m; if (!ReadSst(f, cf, m)) return Status::IOError("ingest " + f); all.push_back(std::move(m)); }
  WriteBatch b;
  for (auto& m : all) for (auto& [k, v] : m) b.Put(h, k, v);
  return Write({}, &b);
}
void DB::GetColumnFamilyMetaData(ColumnFamilyHandle* h, ColumnFamilyMetaData* md) {
  std::lock_guard<std::recursive_mutex> g(img_->mu);
  md->name = h->GetName();
  auto it = img_->last_ckpt_files.find(h->GetName());
  if (it == img_->last_ckpt_files.end()) return;
  auto& m = *img_->cfs[h->GetName()];
  SstFileMetaData f; f.name = "/" + it->second;
  if (!m.empty()) { f.smallestkey = m.begin()->first; f.largestkey = m.rbegin()->first; }
  LevelMetaData l; l.level = 0; l.files.push_back(f);
  md->levels.push_back(l);
}
Status DB::GetApproximateSizes(const SizeApproximationOptions&, ColumnFamilyHandle* h, const Range* r, int n, uint64_t* out) {
  auto m = View(img_.get(), nullptr, h->GetName());
  for (int i = 0; i < n; i++) { uint64_t s = 0; auto e = m->lower_bound(r[i].limit.ToString()); for (auto it = m->lower_bound(r[i].start.ToString()); it != e && it != m->end(); ++it) s += it->first.size() + it->second.size(); out[i] = s; }
  return {};
}
Status DB::DropColumnFamily(ColumnFamilyHandle* h) {
  if (h->GetName() == "default") return Status::InvalidArgument("Can't drop default column family");
  std::lock_guard<std::recursive_mutex> g(img_->mu);
  if (!ro_) img_->cfs.erase(h->GetName());
  return {};
}
Status DB::DropColumnFamilies(const std::vector<ColumnFamilyHandle*>& hs) { for (auto* h : hs) { auto s = DropColumnFamily(h); if (!s.ok()) return s; } return {}; }
Status DB::DestroyColumnFamilyHandle(ColumnFamilyHandle* h) { delete h; return {}; }
Status DB::CreateColumnFamily(const ColumnFamilyOptions&, const std::string& n, ColumnFamilyHandle** h) {
  std::lock_guard<std::recursive_mutex> g(img_->mu);
  if (img_->cfs.count(n)) return Status::InvalidArgument("exists");
  img_->cfs[n] = std::make_shared<KvMap>(); *h = new ColumnFamilyHandle(n, img_->cfs.size());
  return {};
}
Status DB::Close() { return {}; }
Status DestroyDB(const std::string& p, const Options&) { std::lock_guard<std::mutex> g(g_mu); Disk().erase(p); return {}; }
Status RepairDB(const std::string& path, const DBOptions&, const std::vector<ColumnFamilyDescriptor>&) {
  struct stat st;
  if (stat(path.c_str(), &st) != 0) return Status::IOError("no such dir " + path);
  std::ofstream(path + "/CURRENT") << "MANIFEST-000005\n";
  return {};
}
Status Checkpoint::Create(DB* db, Checkpoint** out) { *out = new Checkpoint; (*out)->db_ = db; return {}; }
Status Checkpoint::CreateCheckpoint(const std::string& dir) {
  auto img = db_->image();
  std::lock_guard<std::recursive_mutex> g(img->mu);
  struct stat st;
  if (stat(dir.c_str(), &st) == 0) return Status::InvalidArgument("Directory exists");
  if (mkdir(dir.c_str(), 0755) != 0) return Status::IOError("mkdir " + dir);
  img->last_ckpt_files.clear();
  for (auto& [cf, m] : img->cfs) {
    if (m->empty()) continue;
    char name[32]; snprintf(name, sizeof name, "%06lu.sst", (unsigned long)img->next_file++);
    if (!WriteSst(dir + "/" + name, cf, *m)) return Status::IOError("write");
    img->last_ckpt_files[cf] = name;
  }
  std::ofstream(dir + "/CURRENT") << "MANIFEST-000004\n";
  std::ofstream(dir + "/MANIFEST-000004") << "manifest\n";
  std::ofstream(dir + "/OPTIONS-000007") << "options\n";
  return {};
}
}  // namespace rocksdb

namespace shim {
void SetRocksWriteHook(std::function<rocksdb::Status(const RocksWrite&)> h) { rocksdb::Hook() = std::move(h); }
static std::shared_ptr<rocksdb::DbImage> Find(const std::string& p) { std::lock_guard<std::mutex> g(rocksdb::g_mu); auto it = rocksdb::Disk().find(p); return it == rocksdb::Disk().end() ? nullptr : it->second; }
RocksDump RocksGetContent(const std::string& p) {
  RocksDump d; auto i = Find(p);
  if (!i) return d;
  std::lock_guard<std::recursive_mutex> g(i->mu);
  for (auto& [k, v] : i->cfs) d[k] = *v;
  return d;
}
void RocksSetContent(const std::string& p, const RocksDump& d) {
  auto i = Find(p);
  if (!i) { std::lock_guard<std::mutex> g(rocksdb::g_mu); i = rocksdb::Disk()[p] = std::make_shared<rocksdb::DbImage>(); i->path = p; }
  std::lock_guard<std::recursive_mutex> g(i->mu);
  i->cfs.clear();
  for (auto& [k, v] : d) i->cfs[k] = std::make_shared<rocksdb::KvMap>(v);
  i->durable = i->cfs;
}
void RocksPowerFail(const std::string& p) { auto i = Find(p); if (!i) return; std::lock_guard<std::recursive_mutex> g(i->mu); for (auto& [k, v] : i->cfs) { auto it = i->durable.find(k); v = it == i->durable.end() ? std::make_shared<rocksdb::KvMap>() : std::make_shared<rocksdb::KvMap>(*it->second); } }
RocksDump RocksGetDurable(const std::string& p) { RocksDump d; auto i = Find(p); if (!i) return d; std::lock_guard<std::recursive_mutex> g(i->mu); for (auto& [k, v] : i->cfs) { auto it = i->durable.find(k); d[k] = it == i->durable.end() ? rocksdb::KvMap() : *it->second; } return d; }
void RocksForget(const std::string& p) { std::lock_guard<std::mutex> g(rocksdb::g_mu); rocksdb::Disk().erase(p); }
}  // namespace shim
