// region hist OUT SEED N LEN: regions which write, split and merge; one store which leads and proposes, others which apply the same
// logs at their own pace, with crashes at any write and restarts which replay.
#include <signal.h>
#include "braft/storage.h"
#include "raft/raft_node.h"
#include "shim/sched.h"
#include "store.h"
#include "store/heartbeat.h"
#include "store/region_controller.h"
namespace shim { extern int64_t g_virtual_us; }
namespace dingodb { void Heartbeat::TriggerStoreHeartbeat(std::vector<int64_t>, bool) {} }
using namespace h;
namespace {
constexpr int kHi = 100;
bool g_txn = false;
std::string UK(int k) { char b[8]; snprintf(b, sizeof b, "%c%02d", g_txn ? 'x' : 'w', k); return k >= kHi ? std::string(g_txn ? "xzz" : "wzz") : b; }
int UKI(const std::string& s) { if (s == UK(kHi)) return kHi; if (s == Helper::GenMaxStartKey()) return 999; if (s.size() != 3) return -1; return atoi(s.c_str() + 1); }
std::vector<std::string> Cfs() { return g_txn ? std::vector<std::string>{Constant::kTxnDataCF, Constant::kTxnLockCF, Constant::kTxnWriteCF} : std::vector<std::string>{Constant::kStoreDataCF}; }
std::string VS(int v) { return "v" + std::to_string(v) + std::string(1, '\0'); }  // ends with the flag of a stored value
int VI(const std::string& s) { if (s == std::string(mvcc::Codec::ValueFlagDelete())) return -1; if (s.size() < 3 || s[0] != 'v') return 9999; return atoi(s.c_str() + 1); }
struct Ent { int64_t term; std::string data; J abs; int kind = 0; int64_t child = 0, src = 0, min = 0, prep = 0; int64_t epoch = 0, sver = 0; };  // kind 1: split into an existing child, 2: commit of a merge
struct Logs { std::map<int64_t, std::vector<Ent>> m; std::vector<std::pair<int64_t, int64_t>> order; std::map<int64_t, std::pair<int, int>> init; };
struct Rep;
struct Be : shim::RaftBackend {
  Rep* r; int64_t id; braft::NodeOptions o; std::deque<braft::Closure*> snaps; bool lead = false; std::shared_ptr<wal::RocksLogStorageWrapper> wal;
  int init(const braft::NodeOptions& x) override { o = x; return 0; }
  bool is_leader() override { return lead; }
  void apply(const braft::Task& t) override;
  void snapshot(braft::Closure* d) override { snaps.push_back(d); }
};
struct Image { shim::RocksDump d; std::map<int64_t, int64_t> snap, floor; std::string at; };
struct Snap : braft::SnapshotWriter { std::string get_path() override { return "/nowhere"; } void list_files(std::vector<std::string>*) override {} int save_meta(const braft::SnapshotMeta&) override { return 0; } int add_file(const std::string&, const google::protobuf::Message*) override { return 0; } int remove_file(const std::string&) override { return 0; } };
struct Rep {
  std::string path; Logs& L; std::unique_ptr<StoreWorld> w; std::map<int64_t, std::shared_ptr<Be>> be; std::map<int64_t, int64_t> fed, snap, floor; bool done = true, fresh = true, up = false; Rng g; int64_t writes = 0; int want = 0; std::vector<Image> img; std::set<int64_t> leads; int64_t maxid = 0;
  std::shared_ptr<mvcc::TsProvider> ts = std::make_shared<mvcc::TsProvider>(nullptr); int64_t* tso = nullptr;
  Rep(const std::string& p, Logs& l, uint64_t seed) : path(p), L(l), g(seed) {}
  void Open() {
    w = std::make_unique<StoreWorld>(path); w->ts = ts; w->raft = std::make_shared<RaftStoreEngine>(w->raw, nullptr, ts); w->storage = std::make_shared<Storage>(w->raft, w->mono, ts);
    w->log = wal::RocksLogStorage::New(path + "/raftlog"); w->log->RegisterClientType(wal::ClientType::kRaft); if (!w->log->Init()) Setup("log");
    w->Activate(); Server::GetInstance().region_controller_ = std::make_shared<RegionController>();
    shim::SetRaftFactory([this](const std::string& grp, const braft::PeerId&) { auto b = std::make_shared<Be>(); b->r = this; size_t e = grp.size(); while (e > 0 && isdigit(grp[e - 1])) e--; b->id = atoll(grp.c_str() + e); b->lead = leads.count(b->id); be[b->id] = b; braft::ConfigurationManager m; b->wal = std::make_shared<wal::RocksLogStorageWrapper>(b->id, w->log); if (b->wal->init(&m) != 0) Setup("wal"); return b; });
    shim::SetRocksWriteHook([this](const shim::RocksWrite& x) {
      if (x.path == w->DbPath()) { writes++; if (want && g.N(writes) < want) { Image i{shim::RocksGetContent(x.path), snap, {}, ""}; for (auto& [id, b] : be) i.floor[id] = std::max(floor[id], Sm(id)->GetAppliedIndex()); if ((int)img.size() < want) img.push_back(std::move(i)); else img[g.N(want)] = std::move(i); } }
      shim::SchedPoint(); return rocksdb::Status::OK(); });
  }
  std::shared_ptr<StoreStateMachine> Sm(int64_t id) { auto n = w->raft->GetNode(id); return n ? std::dynamic_pointer_cast<StoreStateMachine>(n->GetStateMachine()) : nullptr; }
  store::RegionPtr Rg(int64_t id) { return w->meta->GetStoreRegionMeta()->GetRegion(id); }
  void Close() { auto rc = Server::GetInstance().region_controller_; for (auto id : rc->GetAllRegion()) rc->UnRegisterExecutor(id); shim::SetRocksWriteHook(nullptr); shim::SetRaftFactory(nullptr); std::static_pointer_cast<wal::RocksLogStorage>(w->log)->Close(); }
  ~Rep() { auto p = path; w.reset(); be.clear(); shim::RocksForget(p + "/rocksdb"); shim::RocksForget(p + "/raftlog"); }
  void Add(int64_t id, int lo, int hi, bool standby) {
    if (Rg(id)) return;
    pb::common::RegionDefinition d; d.set_id(id); d.set_name("r" + std::to_string(id)); d.mutable_epoch()->set_version(1); d.mutable_epoch()->set_conf_version(1); d.set_raw_engine(pb::common::RAW_ENG_ROCKSDB); d.set_store_engine(pb::common::STORE_ENG_RAFT_STORE);
    d.mutable_range()->set_start_key(standby ? Helper::GenMaxStartKey() + std::string(1, (char)id) : UK(lo)); d.mutable_range()->set_end_key(standby ? Helper::GenMaxStartKey() + std::string(1, (char)id) + "a" : UK(hi));
    auto st = CreateRegionTask::CreateRegion(d, standby ? 1 : 0); if (!st.ok()) Setup("create region " + st.error_str());
  }
  int64_t Append(int64_t id, Ent e) { auto& v = L.m[id]; v.push_back(std::move(e)); L.order.push_back({id, (int64_t)v.size()}); return v.size(); }
  // what held before raft hands an entry over: the replicas had come this far (and to these versions) when the merge was proposed, the child was there before the split
  bool Ready(int64_t id, const Ent& e) {
    if (e.kind == 1) Add(e.child, 0, 0, true);
    if (e.kind == 2) { auto s = Sm(e.src); if (!s || !Rg(e.src) || Rg(e.src)->Epoch().version() < e.sver) return false; int64_t a = std::max(s->GetAppliedIndex(), floor[e.src]); if (a < e.min) return false; for (int64_t i = s->GetAppliedIndex() + 1; i < e.prep; i++) if (!Ready(e.src, L.m[e.src][i - 1])) return false; }
    return true;
  }
  void Serve(int64_t id) {
    while (!up) bthread_usleep(1000);
    for (;;) {
      auto b = be.find(id);
      if (b == be.end()) { if (done && !L.m.count(id)) return; bthread_usleep(20000); if (done && (!L.init.count(id) && !L.m.count(id))) return; continue; }
      auto be_ = b->second; auto& log = L.m[id];
      if (!be_->snaps.empty()) { auto* d = be_->snaps.front(); be_->snaps.pop_front(); SaveSnap(id, d); continue; }
      if (fed[id] < (int64_t)log.size()) {
        if (!Ready(id, log[fed[id]])) { bthread_usleep(20000); continue; }
        int n = 1; while (n < 4 && fed[id] + n < (int64_t)log.size() && g.P(300) && log[fed[id] + n].kind == 0) n++;
        std::vector<braft::IterEntry> v(n); for (int i = 0; i < n; i++) { auto& e = log[fed[id] + i]; v[i].index = fed[id] + i + 1; v[i].term = e.term; v[i].data.append(e.data); v[i].done = nullptr; }
        braft::Iterator it(&v); be_->o.fsm->on_apply(it); fed[id] += n; shim::SchedPoint(); continue;
      }
      if (done) return;
      bthread_usleep(20000);
    }
  }
  struct SD : braft::Closure { Rep* r; int64_t id, at; braft::Closure* d; void Run() override { r->snap[id] = at; if (!status().ok()) d->status() = status(); d->Run(); delete this; } };
  void SaveSnap(int64_t id, braft::Closure* d) {
    if (fed[id] <= snap[id]) { d->Run(); return; }
    Snap s; auto* x = new SD(); x->r = this; x->id = id; x->at = fed[id]; x->d = d; be[id]->o.fsm->on_snapshot_save(&s, x);
  }
  int64_t Ts(int64_t id) {  // a timestamp for a write: from this store's provider when it leads the region, else from some other store's
    if (!leads.count(id) || !mine.count(id)) return (*tso)++;
    for (;;) { int64_t t = ts->batch_ts_list_->GetTs(0); if (t > 0) return t; int n = 3 + g.N(8); ts->batch_ts_list_->Push(mvcc::BatchTs::New(0, *tso, n)); *tso += n; }
  }
  std::set<int64_t> mine;
  J Fin(const char* who, bool live) {
    std::vector<J> rs; auto all = w->meta->GetStoreRegionMeta()->GetAllRegion(); std::map<int64_t, store::RegionPtr> m; for (auto& r : all) m[r->Id()] = r;
    for (auto& [id, r] : m) rs.push_back(O({{"id", id}, {"ver", r->Epoch().version()}, {"lo", UKI(r->Range(false).start_key())}, {"hi", UKI(r->Range(false).end_key())}, {"st", pb::common::StoreRegionState_Name(r->State())}, {"dis", r->TemporaryDisableChange()}, {"boot", r->NeedBootstrapDoSnapshot()}, {"mts", live ? r->RawAppliedMaxTs() : -1}}));
    std::vector<J> ds; auto c = shim::RocksGetContent(w->DbPath()); auto cfs = Cfs();
    for (size_t i = 0; i < cfs.size(); i++) for (auto& [k, v] : c[cfs[i]]) { std::string uk; int64_t t = 0; mvcc::Codec::DecodeKey(k, uk, t); ds.push_back(J::Arr(std::vector<J>{J((int)i + 1), J(UKI(uk)), J(t), J(VI(v))})); }
    return O({{"e", "fin"}, {"who", who}, {"ts", !g_txn}, {"g", J::Arr(rs)}, {"d", J::Arr(ds)}});
  }
};
void Be::apply(const braft::Task& t) {
  Ent e; e.term = 1; e.data = t.data->to_string(); pb::raft::RaftCmdRequest c; if (!c.ParseFromString(e.data)) Setup("cmd"); e.epoch = c.header().epoch().version();
  std::vector<J> cs;
  for (auto& q : c.requests()) {
    if (q.cmd_type() == pb::raft::SPLIT) { auto& s = q.split(); if (s.split_strategy() == pb::raft::PRE_CREATE_REGION) { e.kind = 1; e.child = s.to_region_id(); } cs.push_back(O({{"c", "split"}, {"pre", e.kind == 1}, {"to", s.to_region_id()}, {"k", UKI(s.split_key())}, {"ver", s.epoch().version()}})); }
    else if (q.cmd_type() == pb::raft::PREPARE_MERGE) cs.push_back(O({{"c", "prep"}, {"to", q.prepare_merge().target_region_id()}, {"ver", q.prepare_merge().target_region_epoch().version()}}));
    else if (q.cmd_type() == pb::raft::COMMIT_MERGE) { auto& m = q.commit_merge(); e.kind = 2; e.src = m.source_region_id(); e.prep = m.prepare_merge_log_id(); e.sver = m.source_region_epoch().version(); e.min = m.entries_size() ? m.entries(0).index() - 1 : m.prepare_merge_log_id() - 1; cs.push_back(O({{"c", "commit"}, {"to", m.source_region_id()}, {"ver", m.source_region_epoch().version()}, {"lo", UKI(m.source_region_range().start_key())}, {"hi", UKI(m.source_region_range().end_key())}})); }
    else if (q.cmd_type() == pb::raft::PUT || q.cmd_type() == pb::raft::DELETEBATCH) {
      std::vector<J> kv; std::string uk; int64_t t = 0;
      for (auto& x : q.put().kvs()) { mvcc::Codec::DecodeKey(x.key(), uk, t); kv.push_back(J::Arr(std::vector<J>{J(1), J(UKI(uk)), J(t), J(VI(x.value()))})); }
      for (auto& x : q.delete_batch().keys()) { mvcc::Codec::DecodeKey(x, uk, t); kv.push_back(J::Arr(std::vector<J>{J(1), J(UKI(uk)), J(t), J(-1)})); }
      cs.push_back(O({{"c", "put"}, {"x", J::Arr(kv)}, {"del", J::Arr(std::vector<J>{})}, {"ts", q.ts()}}));
    } else if (q.cmd_type() == pb::raft::TXN) {
      std::vector<J> kv, del; std::string uk; int64_t t = 0; auto cfs = Cfs(); auto ix = [&](const std::string& n) { for (size_t i = 0; i < cfs.size(); i++) if (cfs[i] == n) return (int)i + 1; return 9; };
      auto& m = q.txn_raft_req().multi_cf_put_and_delete();
      for (auto& p : m.puts_with_cf()) for (auto& x : p.kvs()) { mvcc::Codec::DecodeKey(x.key(), uk, t); kv.push_back(J::Arr(std::vector<J>{J(ix(p.cf_name())), J(UKI(uk)), J(t), J(VI(x.value()))})); }
      for (auto& p : m.deletes_with_cf()) for (auto& x : p.keys()) { mvcc::Codec::DecodeKey(x, uk, t); del.push_back(J::Arr(std::vector<J>{J(ix(p.cf_name())), J(UKI(uk)), J(t)})); }
      cs.push_back(O({{"c", "put"}, {"x", J::Arr(kv)}, {"del", J::Arr(del)}, {"ts", 0}}));
    } else if (q.cmd_type() == pb::raft::DELETERANGE) {
      auto& x = q.delete_range().ranges(0); std::string a, b; int64_t t; mvcc::Codec::DecodeBytes(x.start_key(), a); mvcc::Codec::DecodeBytes(x.end_key(), b); auto cfs = Cfs(); int ci = 9; for (size_t i = 0; i < cfs.size(); i++) if (cfs[i] == q.delete_range().cf_name()) ci = i + 1; (void)t;
      cs.push_back(O({{"c", "dr"}, {"cf", ci}, {"lo", UKI(a)}, {"hi", UKI(b)}, {"ts", q.ts()}}));
    } else Setup("unknown command");
  }
  e.abs = O({{"e", "ent"}, {"r", id}, {"ver", e.epoch}, {"cs", J::Arr(cs)}, {"i", (int64_t)r->L.m[id].size() + 1}});
  auto* le = new braft::LogEntry(); le->AddRef(); le->type = braft::ENTRY_TYPE_DATA; le->id = braft::LogId(r->L.m[id].size() + 1, 1); le->data.append(e.data); if (wal->append_entry(le) != 0) Setup("append"); le->Release();
  r->Append(id, std::move(e));
  if (t.done) { /* answered when it is applied, which nobody here waits for */ delete t.done; }
}
struct Leader : Rep {
  using Rep::Rep; int n; std::vector<int64_t> ids; int64_t next = 0, job = 1; int val = 1; int post_permille = 0;
  bool Idle(int64_t id) { return fed[id] == (int64_t)L.m[id].size() && be[id]->snaps.empty() && Sm(id)->GetAppliedIndex() == fed[id]; }
  void Wait(std::function<bool()> f) { while (!f()) bthread_usleep(30000); }
  void Propose(int64_t id, pb::raft::RaftCmdRequest& c, int64_t ver) { c.mutable_header()->set_region_id(id); *c.mutable_header()->mutable_epoch() = Rg(id)->Epoch(); if (ver) c.mutable_header()->mutable_epoch()->set_version(ver); butil::IOBuf b; b.append(c.SerializeAsString()); braft::Task t; t.data = &b; t.done = nullptr; be[id]->apply(t); }
  void Data(int64_t id, int64_t ver = 0) {
    auto rg = Rg(id)->Range(false); int lo = UKI(rg.start_key()), hi = UKI(rg.end_key()); if (lo >= hi) return;
    pb::raft::RaftCmdRequest c; int m = g.P(200) ? 2 : 1; auto cfs = Cfs();
    for (int z = 0; z < m; z++) {
      auto* q = c.add_requests(); int64_t t = g_txn ? 1 + g.N(3) : Ts(id); auto key = [&] { return mvcc::Codec::EncodeKey(UK(lo + g.N(hi - lo)), t); };
      int o = g.N(100);
      if (o < 12) { q->set_cmd_type(pb::raft::DELETERANGE); int a = lo + g.N(hi - lo), b2 = a + 1 + g.N(hi - a); q->mutable_delete_range()->set_cf_name(cfs[g.N(cfs.size())]); auto* x = q->mutable_delete_range()->add_ranges(); x->set_start_key(mvcc::Codec::EncodeBytes(UK(a))); x->set_end_key(mvcc::Codec::EncodeBytes(UK(b2))); if (!g_txn) q->set_ts(t); }
      else if (g_txn) { q->set_cmd_type(pb::raft::TXN); auto* mc = q->mutable_txn_raft_req()->mutable_multi_cf_put_and_delete(); std::set<std::string> used; for (auto& cf : cfs) { if (g.P(600)) { auto* p = mc->add_puts_with_cf(); p->set_cf_name(cf); for (int j = 1 + g.N(2); j > 0; j--) { auto k = key(); if (!used.insert(cf + k).second) continue; auto* kv = p->add_kvs(); kv->set_key(k); kv->set_value(VS(val++)); } } if (g.P(300)) { auto k = key(); if (used.insert(cf + k).second) { auto* p = mc->add_deletes_with_cf(); p->set_cf_name(cf); p->add_keys(k); } } } }
      else if (o < 30) { q->set_cmd_type(pb::raft::DELETEBATCH); q->set_ts(t); q->mutable_delete_batch()->set_cf_name(cfs[0]); std::set<std::string> used; for (int j = 1 + g.N(2); j > 0; j--) { auto k = key(); if (used.insert(k).second) q->mutable_delete_batch()->add_keys(k); } }
      else { q->set_cmd_type(pb::raft::PUT); q->set_ts(t); q->mutable_put()->set_cf_name(cfs[0]); std::set<std::string> used; for (int j = 1 + g.N(3); j > 0; j--) { auto k = key(); if (!used.insert(k).second) continue; auto* kv = q->mutable_put()->add_kvs(); kv->set_key(k); kv->set_value(VS(val++)); } }
    }
    Propose(id, c, ver);
  }
  bool Normal(int64_t id) { auto r = Rg(id); return r && r->State() == pb::common::StoreRegionState::NORMAL; }
  void NewRegion(int64_t id, bool led) { ids.push_back(id); leads.insert(id); if (led) mine.insert(id); if (be.count(id)) be[id]->lead = true; maxid = std::max(maxid, id); }
  void Elect(int64_t id) { if (mine.count(id)) be[id]->o.fsm->on_leader_start(1); }
  void Client() {
    Open(); up = true; int nr = 1 + g.N(2); int at = 0;
    for (int i = 1; i <= nr; i++) { int hi = i == nr ? kHi : 30 + g.N(40); NewRegion(i, g.P(500)); L.init[i] = {at, hi}; Add(i, at, hi, false); at = hi; Elect(i); }
    next = nr + 1;
    auto def = [](pb::raft::Request* q, int64_t) { return q; }; (void)def;
    for (int s = 0; s < n; s++) {
      std::vector<int64_t> live; for (auto id : ids) if (Normal(id)) live.push_back(id);
      int64_t id = live[g.N(live.size())]; int o = g.N(100); auto r = Rg(id); int lo = UKI(r->Range(false).start_key()), hi = UKI(r->Range(false).end_key());
      if (o < 10 && next <= 8 && hi - lo >= 2 && !r->TemporaryDisableChange() && Idle(id)) {
        int64_t child = next++; bool pre = !g.P(post_permille); bool led = g.P(500); int k = lo + 1 + g.N(hi - lo - 1);
        NewRegion(child, led); if (pre) { Add(child, 0, 0, true); Elect(child); }
        auto ctx = std::make_shared<Context>(); ctx->SetRegionId(id); ctx->SetRegionEpoch(r->Epoch()); pb::coordinator::SplitRequest sr; sr.set_split_from_region_id(id); sr.set_split_to_region_id(child); sr.set_split_watershed_key(UK(k)); sr.set_store_create_region(!pre);
        w->raft->AsyncWrite(ctx, WriteDataBuilder::BuildWrite(job++, sr, r->Epoch())); size_t want_idx = L.m[id].size();
        for (int j = g.N(3); j > 0; j--) Data(id);
        Wait([&] { return fed[id] >= (int64_t)want_idx && Rg(child) && Normal(id) && Normal(child) && !r->TemporaryDisableChange() && !Rg(child)->TemporaryDisableChange() && Idle(id) && Idle(child); });
        if (!pre) Elect(child);
      } else if (o < 22 && live.size() > 1) {
        std::vector<int64_t> adj; for (auto t : live) { auto x = Rg(t)->Range(false); if (t != id && (UKI(x.start_key()) == hi || UKI(x.end_key()) == lo)) adj.push_back(t); } if (adj.empty()) continue;
        int64_t t = adj[g.N(adj.size())]; if (!Idle(id) || !Idle(t) || r->TemporaryDisableChange() || Rg(t)->TemporaryDisableChange()) continue;
        int64_t ap = fed[id]; int64_t lastch = 0; for (size_t j = 0; j < L.m[id].size(); j++) if (L.m[id][j].kind || L.m[id][j].abs.s.find("split") != std::string::npos) lastch = j + 1;
        int64_t min = g.P(700) ? lastch + g.N(ap - lastch + 1) : g.N(ap + 1);
        w->meta->GetStoreRegionMeta()->UpdateTemporaryDisableChange(r, true); w->meta->GetStoreRegionMeta()->UpdateTemporaryDisableChange(Rg(t), true);
        for (int j = g.N(3); j > 0; j--) Data(g.P(500) ? id : t);
        auto ctx = std::make_shared<Context>(); ctx->SetRegionId(id); ctx->SetRegionEpoch(r->Epoch());
        w->raft->AsyncWrite(ctx, WriteDataBuilder::BuildWrite(job++, Rg(t)->Definition(), min));
        for (int j = g.N(3); j > 0; j--) Data(g.P(500) ? id : t);
        Wait([&] { return r->State() == pb::common::StoreRegionState::TOMBSTONE && !Rg(t)->TemporaryDisableChange() && Idle(t) && Idle(id); });
      } else if (o < 27) { auto ctx = std::make_shared<Context>(); w->raft->AyncSaveSnapshot(ctx, id, g.P(700)); }
      else if (o < 35 && r->Epoch().version() > 1) Data(id, r->Epoch().version() - 1);
      else { Data(id); if (g.P(150)) { int m = 3 + g.N(6); ts->batch_ts_list_->Push(mvcc::BatchTs::New(0, *tso, m)); *tso += m; } }
      if (g.P(500)) Wait([&] { return Idle(id); });
    }
    Wait([&] { for (auto x : ids) if (be.count(x) && !Idle(x)) return false; return true; });
    done = true;
  }
};
Rep* g_rep = nullptr; std::string g_what;
void Dump() { auto& r = *g_rep; printf("STORE %s\n", g_what.c_str()); for (auto& q : r.w->meta->GetStoreRegionMeta()->GetAllRegion()) { int64_t id = q->Id(); auto sm = r.Sm(id); printf(" r%ld fed %ld/%zu applied %ld snap %ld floor %ld st %s ver %ld\n", (long)id, (long)r.fed[id], r.L.m[id].size(), sm ? (long)sm->GetAppliedIndex() : -1, (long)r.snap[id], (long)r.floor[id], pb::common::StoreRegionState_Name(q->State()).c_str(), (long)q->Epoch().version()); for (int64_t i = r.fed[id]; i < (int64_t)r.L.m[id].size() && i < r.fed[id] + 3; i++) printf("   %s\n", r.L.m[id][i].abs.s.c_str()); } fflush(stdout); }
void OnAbort(int) { if (g_rep && getenv("REGION_DEBUG")) Dump(); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
void Stuck(const std::string& s) { printf("STUCK %s\n", s.c_str()); fflush(stdout); abort(); }
int Hist(char** a) {
  Out out(a[0]); Rng g(atoi(a[1])); int n = atoi(a[2]), len = atoi(a[3]); long ents = 0, crashes = 0, lives = 0, chg = 0;
  for (int hI = 0; hI < n; hI++) {
    g_txn = g.P(350); Logs L; std::vector<J> h; int64_t tso = 10; uint64_t seed = g.Next();
    std::string base = std::string(a[0]) + ".db" + std::to_string(hI);
    std::vector<J> fin; std::vector<std::pair<Image, int>> todo;
    bool fresh = true; // while the leader works, its own in-memory view is observed at the end
    {
      Leader ld(base + "L", L, seed); ld.n = len; ld.tso = &tso; ld.done = false; ld.want = 1; ld.post_permille = atoi(a[4]);
      std::vector<std::function<void()>> bodies{[&] { ld.Client(); }}; for (int64_t id = 1; id <= 8; id++) bodies.push_back([&, id] { ld.Serve(id); });
      bodies.push_back([&] { while (!ld.up) bthread_usleep(1000); for (;;) { bool all = ld.done; if (all) { ld.Close(); return; } bthread_usleep(50000); } });
      auto res = shim::RunSched({.seed = g.Next(), .preempt_permille = (int)(50 + g.N(400)), .max_steps = getenv("REGION_STEPS") ? atol(getenv("REGION_STEPS")) : 400000}, bodies);
      if (res.deadlock || res.overrun) Stuck("leader: " + res.blocked);
      for (auto& [r, i] : L.order) { h.push_back(L.m[r][i - 1].abs); ents++; if (L.m[r][i - 1].abs.s.find("\"put\"") == std::string::npos && L.m[r][i - 1].abs.s.find("\"dr\"") == std::string::npos) chg++; }
      fin.push_back(ld.Fin("leader", true)); for (auto& i : ld.img) todo.push_back({i, 1}); lives++;
    }
    int made = 0; auto run = [&](const Image* im, int depth, const std::string& who) {
      Rep r(base + "F" + std::to_string(made++), L, g.Next()); g_rep = &r; g_what = "h" + std::to_string(hI) + " " + who + (im ? " from " + im->at : ""); r.want = depth < 3 ? 2 : 0; if (im) { shim::RocksSetContent(r.path + "/rocksdb", im->d); r.snap = im->snap; r.floor = im->floor; r.fed = im->snap; r.fresh = false; }
      std::vector<std::function<void()>> bodies{[&] { r.Open(); if (!im) for (auto& [id, x] : L.init) r.Add(id, x.first, x.second, false); else { r.w->raft->Recover(); for (auto& [id, x] : L.init) r.Add(id, x.first, x.second, false); } r.up = true; }};
      int left = 8; for (int64_t id = 1; id <= 8; id++) bodies.push_back([&, id] { r.Serve(id); if (--left == 0) { bool more = true; while (more) { more = false; for (auto& [x, b] : r.be) if (!b->snaps.empty()) { more = true; auto* d = b->snaps.front(); b->snaps.pop_front(); r.SaveSnap(x, d); break; } } r.Close(); } });
      auto res = shim::RunSched({.seed = g.Next(), .preempt_permille = (int)(50 + g.N(500)), .max_steps = getenv("REGION_STEPS") ? atol(getenv("REGION_STEPS")) : 400000}, bodies);
      if ((res.deadlock || res.overrun) && getenv("REGION_DEBUG")) { printf("STUCK %s\n", res.blocked.c_str()); Dump(); }
      if (res.deadlock || res.overrun) { fin.push_back(O({{"e", "stuck"}, {"who", who}})); shim::SetRocksWriteHook(nullptr); return; }
      fin.push_back(r.Fin(who.c_str(), !im)); lives++;
      if (depth < 3) for (auto& i : r.img) todo.push_back({i, depth + 1});
    };
    run(nullptr, 1, "follower"); if (g.P(500)) run(nullptr, 1, "follower");
    int k = 0; while (!todo.empty() && k++ < 6) { auto t = std::move(todo.front()); todo.erase(todo.begin()); crashes++; run(&t.first, t.second + 1, "restarted"); }
    for (auto& f : fin) h.push_back(f);
    std::vector<J> in; for (auto& [id, x] : L.init) in.push_back(J::Arr(std::vector<J>{J(id), J(x.first), J(x.second)}));
    (void)fresh; out.Line(O({{"init", J::Arr(in)}, {"h", J::Arr(h)}}));
  }
  printf("histories %d entries %ld changes %ld stores %ld crashes %ld\n", n, ents, chg, lives, crashes); return 0;
}
}  // namespace
int main(int, char** v) { signal(SIGABRT, OnAbort); InitConf("store", "/x"); Flag("store_state_machine_enable_independent_queue", "false"); shim::g_virtual_us = 1700000000000000; int rc = Hist(v + 2); fflush(nullptr); _exit(rc); }
