// A coordinator replica group assembled from the real parts: meta state machines on their own raw engines, one of them led through
// the real RaftStoreEngine. The raft log is a plain list of committed entries.
#pragma once
#include <deque>
#include "store.h"
#include "shim/sched.h"
#include "braft/protobuf_file.h"
#include "braft/raft.h"
#include "coordinator/kv_control.h"
#include "raft/meta_state_machine.h"
namespace h {
struct Entry { int64_t index, term; std::string data; };
struct LogBackend : shim::RaftBackend {  // the leader's raft node
  braft::NodeOptions o; std::vector<Entry>* log = nullptr; int64_t* term = nullptr; bool* lead = nullptr; std::function<void()> before; std::function<void(int64_t)> after;
  int init(const braft::NodeOptions& x) override { o = x; return 0; }
  bool is_leader() override { return lead ? *lead : true; }
  // concurrent runs: committed entries wait in a queue for the thread that applies them
  struct Queue { bthread_mutex_t m; bthread_cond_t c; std::deque<std::function<void()>> q; int open = 0; Queue() { bthread_mutex_init(&m, nullptr); bthread_cond_init(&c, nullptr); }
    void Push(std::function<void()> f) { bthread_mutex_lock(&m); q.push_back(std::move(f)); bthread_cond_broadcast(&c); bthread_mutex_unlock(&m); }
    void Leave() { bthread_mutex_lock(&m); open--; bthread_cond_broadcast(&c); bthread_mutex_unlock(&m); }
    void Serve() { for (;;) { bthread_mutex_lock(&m); while (q.empty() && open > 0) bthread_cond_wait(&c, &m); if (q.empty()) { bthread_mutex_unlock(&m); return; } auto f = std::move(q.front()); q.pop_front(); bthread_mutex_unlock(&m); f(); } } };
  Queue* queue = nullptr;
  void apply(const braft::Task& t) override {
    if (queue) { shim::SchedPoint(); queue->Push([this, e = Entry{0, 0, t.data->to_string()}, done = t.done]() mutable { e.index = log->size() + 1; e.term = *term; log->push_back(e); std::vector<braft::IterEntry> v(1); v[0].index = e.index; v[0].term = e.term; v[0].data.append(e.data); v[0].done = done; braft::Iterator it(&v); o.fsm->on_apply(it); }); return; }
    if (before) { auto f = std::move(before); before = nullptr; f(); }
    std::vector<braft::IterEntry> v(1); v[0].index = log->size() + 1; v[0].term = *term; v[0].data = *t.data; v[0].done = t.done;
    log->push_back({v[0].index, v[0].term, t.data->to_string()});
    braft::Iterator it(&v); o.fsm->on_apply(it);
    if (after) after(log->size());
  }
};
struct FileSnap : braft::SnapshotWriter { std::string dir; explicit FileSnap(std::string d) : dir(d) { std::filesystem::create_directories(d); } std::string get_path() override { return dir; } void list_files(std::vector<std::string>* f) override { f->push_back("data"); } int save_meta(const braft::SnapshotMeta&) override { return 0; } int add_file(const std::string&, const google::protobuf::Message*) override { return 0; } int remove_file(const std::string&) override { return 0; } };
struct FileSnapReader : braft::SnapshotReader { std::string dir; int64_t index, term; FileSnapReader(std::string d, int64_t i, int64_t t) : dir(d), index(i), term(t) {} std::string get_path() override { return dir; } void list_files(std::vector<std::string>* f) override { f->push_back("data"); } int load_meta(braft::SnapshotMeta* m) override { m->set_last_included_index(index); m->set_last_included_term(term); return 0; } std::string generate_uri_for_copy() override { return dir; } };
struct SnapDone : braft::Closure { std::atomic<bool> ran{false}; void Run() override { ran = true; } };
// One replica. Control: any MetaControl with (reader, writer, raw engine) and Recover().
template <class Control> struct MetaReplica {
  std::string path; std::shared_ptr<RocksRawEngine> raw; std::shared_ptr<MetaReader> mr; std::shared_ptr<MetaWriter> mw;
  std::shared_ptr<Control> ctl; std::shared_ptr<MetaStateMachine> sm;
  std::function<void(std::shared_ptr<Control>)> init;
  explicit MetaReplica(const std::string& p, std::function<void(std::shared_ptr<Control>)> in = {}) : path(p), init(in) {
    auto c = InitConf("coordinator", p); c->m["store.path"] = p; c->m["coordinator.peers"] = "127.0.0.1:22001";
    raw = std::make_shared<RocksRawEngine>(); if (!raw->Init(c, {Constant::kStoreDataCF, Constant::kStoreMetaCF})) Setup("rocks init");
    Restart();
  }
  ~MetaReplica() { sm.reset(); ctl.reset(); raw.reset(); shim::RocksForget(path + "/rocksdb"); }
  void Restart() {  // the process starts again on what is on disk
    mr = std::make_shared<MetaReader>(raw); mw = std::make_shared<MetaWriter>(raw);
    ctl = std::make_shared<Control>(mr, mw, raw); if (!ctl->Recover()) Setup("recover"); if (init) init(ctl);
    sm = std::make_shared<MetaStateMachine>(1, ctl, false);
  }
  void Apply(const Entry& e) { std::vector<braft::IterEntry> v(1); v[0].index = e.index; v[0].term = e.term; v[0].data.append(e.data); v[0].done = nullptr; braft::Iterator it(&v); sm->on_apply(it); }
  std::string Save(const std::string& dir) { FileSnap w(dir); SnapDone d; sm->on_snapshot_save(&w, &d); for (int i = 0; i < 300000 && !d.ran; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); if (!d.ran || !d.status().ok()) Setup("snapshot save"); return dir; }
  int Load(const std::string& dir, int64_t i, int64_t t) { FileSnapReader r(dir, i, t); return sm->on_snapshot_load(&r); }
};
// A leader in front of a replica: requests go through RaftStoreEngine and the log.
template <class Control> struct MetaLeader {
  MetaReplica<Control> rep; std::shared_ptr<RaftStoreEngine> eng; std::shared_ptr<LogBackend> be; std::vector<Entry> log; int64_t term = 0; bool lead = false; int64_t rid;
  MetaLeader(const std::string& p, int64_t region, std::function<void(std::shared_ptr<Control>)> in = {}) : rep(p, in), rid(region) { Attach(); }
  void Attach() {
    shim::SetRaftFactory([this](const std::string&, const braft::PeerId&) { be = std::make_shared<LogBackend>(); be->log = &log; be->term = &term; be->lead = &lead; return be; });
    auto& s = Server::GetInstance(); s.rocks_raw_engine_ = rep.raw; s.meta_reader_ = rep.mr; s.meta_writer_ = rep.mw;
    static auto lg = wal::RocksLogStorage::New("/metalog"); s.log_storage_ = lg;
    eng = std::make_shared<RaftStoreEngine>(rep.raw, nullptr, nullptr);
    pb::common::RegionDefinition d; d.set_id(rid); d.set_name("meta"); d.mutable_epoch()->set_version(1); d.mutable_epoch()->set_conf_version(1);
    if (!eng->AddNode(std::make_shared<pb::common::RegionDefinition>(d), rep.ctl, false).ok()) Setup("AddNode");
  }
  braft::StateMachine* fsm() { return be->o.fsm; }
  void Lead() { lead = true; term++; fsm()->on_leader_start(term); }
  void Stop() { lead = false; fsm()->on_leader_stop(butil::Status(1, "stop")); }
  void Follow(const std::string& data) {  // an entry some other leader wrote
    std::vector<braft::IterEntry> v(1); v[0].index = log.size() + 1; v[0].term = term; v[0].data.append(data); v[0].done = nullptr; log.push_back({v[0].index, term, data}); braft::Iterator it(&v); fsm()->on_apply(it);
  }
  void Crash() { eng.reset(); be.reset(); lead = false; rep.Restart(); Attach(); }
};
inline std::string EncodeIncrement(int64_t rid, const pb::coordinator_internal::MetaIncrement& inc) { pb::raft::RaftCmdRequest c; c.mutable_header()->set_region_id(rid); auto* r = c.add_requests(); r->set_cmd_type(pb::raft::CmdType::META_WRITE); *r->mutable_meta_req()->mutable_meta_increment() = inc; return c.SerializeAsString(); }
}  // namespace h
