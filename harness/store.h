// A store server assembled from the real parts: RocksRawEngine (on the in-memory RocksDB of the shim), meta and metrics managers,
// RaftStoreEngine with the real raft node wrapper and state machine, MonoStoreEngine, Storage and StoreServiceImpl.
// Only the network, the raft replication protocol and RocksDB itself are stand-ins.
#pragma once
#include "common/constant.h"
#include "common/helper.h"
#include "common/role.h"
#include "config/config_manager.h"
#include "config/yaml_config.h"
#include "engine/mono_store_engine.h"
#include "engine/raft_store_engine.h"
#include "engine/rocks_raw_engine.h"
#include "engine/storage.h"
#include "event/store_state_machine_event.h"
#include "h.h"
#include "meta/meta_reader.h"
#include "meta/meta_writer.h"
#include "meta/store_meta_manager.h"
#include "metrics/store_metrics_manager.h"
#include "mvcc/codec.h"
#include "mvcc/ts_provider.h"
#include "raft/store_state_machine.h"
#include "rocksdb/db.h"
#include "server/server.h"
#include "server/service_helper.h"
#include "server/store_service.h"
namespace h {
using namespace dingodb;
struct Conf : public Config {
  std::map<std::string, std::string> m;
  int Load(const std::string&) override { return 0; }
  int LoadFile(const std::string&) override { return 0; }
  int ReloadFile(const std::string&) override { return 0; }
  std::string G(const std::string& k) { auto i = m.find(k); return i == m.end() ? "" : i->second; }
  bool GetBool(const std::string& k) override { return G(k) == "true"; }
  int GetInt(const std::string& k) override { return atoi(G(k).c_str()); }
  int64_t GetInt64(const std::string& k) override { return atoll(G(k).c_str()); }
  double GetDouble(const std::string& k) override { return atof(G(k).c_str()); }
  std::string GetString(const std::string& k) override { return G(k); }
  std::string GetStringOrNullIfNotExists(const std::string& k) override { return G(k); }
  std::vector<int> GetIntList(const std::string&) override { return {}; }
  std::vector<std::string> GetStringList(const std::string&) override { return {}; }
  std::map<std::string, int> GetIntMap(const std::string&) override { return {}; }
  std::map<std::string, std::string> GetStringMap(const std::string&) override { return {}; }
  std::string ToString() override { return ""; }
};
inline std::shared_ptr<Conf> InitConf(const std::string& role, const std::string& path) {
  static std::shared_ptr<Conf> c;
  if (c) return c;
  SetRole(role);
  FLAGS_minloglevel = 3; FLAGS_logtostderr = true;
  c = std::make_shared<Conf>();
  c->m = {{"store.path", path}, {"raft.election_timeout_s", "6"}, {"server.heartbeat_interval_s", "10"}, {"raft.snapshot_interval_s", "120"}, {"raft.path", path + "/raft"}, {"raft.log_path", path + "/raftlog"}, {"vector.index_path", path + "/vector"}, {"document.index_path", path + "/document"}};
  ConfigManager::GetInstance().Register(role, c);
  return c;
}
struct InlineWorkers : public WorkerSet {
  InlineWorkers() : WorkerSet("inline", 1, 0, true, true) {}
  bool Init() override { return true; } void Destroy() override {}
  bool Execute(TaskRunnablePtr t) override { t->Run(); return true; }
  bool ExecuteRR(TaskRunnablePtr t) override { t->Run(); return true; }
  bool ExecuteLeastQueue(TaskRunnablePtr t) override { t->Run(); return true; }
  bool ExecuteHashByRegionId(int64_t, TaskRunnablePtr t) override { t->Run(); return true; }
};
template <class S> inline void Flag(const char* n, const S& v) { std::ostringstream o; o << v; if (gflags::SetCommandLineOption(n, o.str().c_str()).empty()) Setup(std::string("flag ") + n); }
struct StoreWorld {
  std::string path; std::shared_ptr<Conf> conf;
  std::shared_ptr<RocksRawEngine> raw;
  std::shared_ptr<MetaReader> mr; std::shared_ptr<MetaWriter> mw;
  std::shared_ptr<StoreMetaManager> meta; std::shared_ptr<StoreMetricsManager> metrics;
  std::shared_ptr<RaftStoreEngine> raft; std::shared_ptr<MonoStoreEngine> mono; std::shared_ptr<Storage> storage; mvcc::TsProviderPtr ts;
  StoreServiceImpl svc; int64_t id;
  std::string DbPath() const { return path + "/rocksdb"; }
  explicit StoreWorld(const std::string& p, int64_t sid = 1) : path(p), id(sid) {
    conf = InitConf("store", p);
    conf->m["store.path"] = p;
    raw = std::make_shared<RocksRawEngine>();
    if (!raw->Init(conf, Helper::GetColumnFamilyNamesByRole())) Setup("rocks init");
    mr = std::make_shared<MetaReader>(raw); mw = std::make_shared<MetaWriter>(raw);
    meta = std::make_shared<StoreMetaManager>(mr, mw);
    metrics = std::make_shared<StoreMetricsManager>(mr, mw);
    Activate();
    meta->Init();
    metrics->Init();
    raft = std::make_shared<RaftStoreEngine>(raw, nullptr, ts);
    mono = std::make_shared<MonoStoreEngine>(raw, nullptr, StoreSmEventListenerFactory().Build(), ts, meta, metrics);
    storage = std::make_shared<Storage>(raft, mono, ts);
    svc.SetStorage(storage); svc.SetReadWorkSet(std::make_shared<InlineWorkers>()); svc.SetWriteWorkSet(std::make_shared<InlineWorkers>());
    Activate();
  }
  wal::LogStoragePtr log;
  void Activate() {
    if (!log) log = wal::RocksLogStorage::New(path + "/raftlog");
    auto& s = Server::GetInstance();
    s.id_ = id; s.rocks_raw_engine_ = raw; s.meta_reader_ = mr; s.meta_writer_ = mw; s.store_meta_manager_ = meta; s.store_metrics_manager_ = metrics;
    s.raft_engine_ = raft; s.mono_engine_ = mono; s.storage_ = storage; s.ts_provider_ = ts; s.log_storage_ = log; if (!s.stream_manager_) s.stream_manager_ = StreamManager::New();
  }
  store::RegionPtr AddRegion(int64_t rid, const std::string& start, const std::string& end, bool use_raft = true, std::function<void(pb::common::RegionDefinition&)> f = {}) {
    pb::common::RegionDefinition d; d.set_id(rid); d.set_name("r" + std::to_string(rid));
    d.mutable_epoch()->set_version(1); d.mutable_epoch()->set_conf_version(1);
    d.mutable_range()->set_start_key(start); d.mutable_range()->set_end_key(end);
    d.set_raw_engine(pb::common::RAW_ENG_ROCKSDB);
    d.set_store_engine(use_raft ? pb::common::STORE_ENG_RAFT_STORE : pb::common::STORE_ENG_MONO_STORE);
    if (f) f(d);
    auto region = store::Region::New(d); if (!region) Setup("region");
    region->SetState(pb::common::StoreRegionState::NORMAL);
    meta->GetStoreRegionMeta()->AddRegion(region);
    auto rm = StoreRegionMetrics::NewMetrics(rid); metrics->GetStoreRegionMetrics()->AddMetrics(rm);
    auto raft_meta = store::RaftMeta::New(rid); meta->GetStoreRaftMeta()->AddRaftMeta(raft_meta);
    if (d.store_engine() == pb::common::STORE_ENG_RAFT_STORE) {
      RaftControlAble::AddNodeParameter prm; prm.role = GetRole(); prm.is_restart = false; prm.raft_path = path + "/raft"; prm.election_timeout_ms = 6000; prm.raft_meta = raft_meta; prm.region_metrics = rm;
      prm.listeners = StoreSmEventListenerFactory().Build(); prm.apply_worker_set = nullptr;
      auto st = raft->AddNode(region, prm); if (!st.ok()) Setup("AddNode " + st.error_str());
      raft->GetNode(rid)->SetConsistentReadable(true);
    }
    return region;
  }
  template <class Svc, class Req, class Rsp> static bool CallOn(Svc& sv, void (Svc::*m)(google::protobuf::RpcController*, const Req*, Rsp*, google::protobuf::Closure*), Req req, Rsp& rsp) {
    struct D : google::protobuf::Closure { bool ran = false; void Run() override { ran = true; } } d;
    brpc::Controller c; (sv.*m)(&c, &req, &rsp, &d); return d.ran;
  }
  template <class Req, class Rsp> bool Call(void (StoreServiceImpl::*m)(google::protobuf::RpcController*, const Req*, Rsp*, google::protobuf::Closure*), const Req& req, Rsp& rsp) { return CallOn(svc, m, req, rsp); }
};
inline void SetCtx(pb::store::Context* c, int64_t rid, int64_t ver = 1, int64_t cver = 1) { c->set_region_id(rid); c->mutable_region_epoch()->set_version(ver); c->mutable_region_epoch()->set_conf_version(cver); }
}  // namespace h
