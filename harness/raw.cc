// Plain (non transactional) key-value requests against the real store service, its version store and its scans.
//   raw hist OUT SEED N LEN     histories of requests, scans and changes of leader
//   raw conc OUT SEED N         two requests at the same time
//   raw gc OUT SEED N           garbage collection of old versions
//   raw lead OUT SEED N         a request while the replica becomes leader
//   raw ts OUT SEED N           the provider of timestamps
#include "txnlib.h"
#include "coordinator/coordinator_interaction.h"
#include "scan/scan_manager.h"
#include "shim/sched.h"
#include "store/heartbeat.h"
namespace dingodb { void Heartbeat::TriggerStoreHeartbeat(std::vector<int64_t>, bool) {} }  // nobody listens to heartbeats here
using namespace h;
using namespace pb::store;
namespace {
const std::vector<std::string> kKeys = {"wa", "wk1", "wk2", std::string("wk2\0", 4), "wk3abcde", std::string("wk3abcde\0", 9), "wk9", "wz", "x"};
std::string RK(int k) { return kKeys[k]; }
int RKI(const std::string& s) { for (int i = 0; i < 9; i++) if (kKeys[i] == s) return i; return 99; }
std::string RV(int v) { return v == 0 ? "" : v == 1 ? "a" : v == 2 ? std::string("b\x02", 2) : std::string(40, 'L') + "\x01"; }
int RVI(const std::string& s) { for (int i = 0; i < 4; i++) if (RV(i) == s) return i; return 99; }
struct Ver { int k; int64_t t; std::string f; int v; int64_t d; };
J VerJ(const Ver& x) { return O({{"k", x.k}, {"t", x.t}, {"f", x.f}, {"v", x.v}, {"d", x.d}}); }
std::vector<Ver> Versions(const shim::RocksDump& m) {
  std::vector<Ver> r; auto i = m.find(Constant::kStoreDataCF); if (i == m.end()) return r;
  for (auto& [a, b] : i->second) {
    std::string k; int64_t t = 0; Ver v; if (!mvcc::Codec::DecodeKey(a, k, t)) { r.push_back({99, 0, "X", 99, 0}); continue; }
    v.k = RKI(k); v.t = t; v.d = 0; std::string x = b;
    if (x.empty()) { r.push_back({v.k, t, "X", 99, 0}); continue; }
    char f = x.back(); x.pop_back();
    if (f == 0) { v.f = "P"; v.v = RVI(x); } else if (f == 1) { v.f = "T"; if (x.size() < 8) { v.v = 99; } else { uint64_t d = 0; for (int j = 0; j < 8; j++) d = d << 8 | (unsigned char)x[x.size() - 8 + j]; v.d = (int64_t)(d ^ 0x8000000000000000ull); if (v.d < 0 || v.d > 1000000000) v.d = (int64_t)d; x.resize(x.size() - 8); v.v = RVI(x); } } else { v.f = "D"; v.v = 0; }
    r.push_back(v);
  }
  return r;
}
J VersJ(const std::vector<Ver>& v) { return J::Arr(v, VerJ); }
struct Rq { std::string o; bool mono = false; std::vector<int> ks, vs, xs; int64_t ttl = 0, t = 0, nt = 0; bool at = false, ws = true, we = false, ko = false, dar = false; int lo = 0, hi = 7, id = 0; int64_t max = 0;
  J Json(int64_t now) const { return O({{"e", o}, {"m", mono}, {"now", now}, {"ks", J::Arr(ks)}, {"vs", J::Arr(vs)}, {"xs", J::Arr(xs)}, {"d", ttl}, {"t", t}, {"nt", nt}, {"at", at}, {"ws", ws}, {"we", we}, {"ko", ko}, {"dar", dar}, {"lo", lo}, {"hi", hi}, {"id", id}, {"max", max}}); } };
struct An { int e = 0; int64_t rt = 0; std::vector<int> st; std::vector<std::pair<int, int>> kv; bool more = false, sid = false;
  J Json() const { return O({{"r", e ? "err" : "ok"}, {"rt", rt}, {"st", J::Arr(st)}, {"kv", J::Arr(kv, [](auto& p) { return J::Raw("[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"); })}, {"more", more}, {"sid", sid}}); } };
struct RawWorld {
  std::shared_ptr<mvcc::TsProvider> ts = std::make_shared<mvcc::TsProvider>(nullptr); StoreWorld w; store::RegionPtr rr, rm; std::map<int, std::string> v1;
  struct Be : shim::RaftBackend { RawWorld* w; braft::NodeOptions o; int64_t index = 0, term = 1; bool lead = true, lose = false; std::string pend; bthread::Mutex mu;   // entries are applied one after the other
   
    int init(const braft::NodeOptions& x) override { o = x; return 0; } bool is_leader() override { return lead; }
    void One(const std::string& d, braft::Closure* done) { std::vector<braft::IterEntry> v(1); v[0].index = ++index; v[0].term = term; v[0].data.append(d); v[0].done = done; braft::Iterator it(&v); o.fsm->on_apply(it); }
    void Flush() { std::unique_lock<bthread::Mutex> g(mu); Flush0(); }
    void Flush0() { if (!pend.empty()) { std::string d; d.swap(pend); One(d, nullptr); } }
    void apply(const braft::Task& t) override { if (lose) { lose = false; pend = t.data->to_string(); t.done->status().set_error(EPERM, "not leader"); t.done->Run(); return; } std::unique_lock<bthread::Mutex> g(mu); Flush0(); One(t.data->to_string(), t.done); } };
  std::shared_ptr<Be> be;
  explicit RawWorld(const std::string& p) : w(p) {
    w.ts = ts; w.raft = std::make_shared<RaftStoreEngine>(w.raw, nullptr, ts); w.mono = std::make_shared<MonoStoreEngine>(w.raw, nullptr, StoreSmEventListenerFactory().Build(), ts, w.meta, w.metrics); w.storage = std::make_shared<Storage>(w.raft, w.mono, ts); w.svc.SetStorage(w.storage); w.Activate();
    Flag("enable_async_store_operation", "false");
    shim::SetRaftFactory([this](const std::string&, const braft::PeerId&) { be = std::make_shared<Be>(); be->w = this; return be; });
    rr = w.AddRegion(10, "wa", "wz"); shim::SetRaftFactory(nullptr); rm = w.AddRegion(11, "wa", "wz", false); w.meta->GetGCSafePointManager()->SetGcFlagAndSafePointTs({{0, 1}}, false);
  }
  void Give(int64_t nt, int n = 1) { auto& l = *ts->batch_ts_list_; l.Flush(); if (nt > 0) l.Push(mvcc::BatchTs::New(0, nt, n)); }
  shim::RocksDump Dump() { return shim::RocksGetContent(w.DbPath()); }
  void Data(const rocksdb::KvMap& kv) { auto m = Dump(); m[Constant::kStoreDataCF] = kv; shim::RocksSetContent(w.DbPath(), m); }
  template <class Q> void Ctx(Q& q, const Rq& o) { SetCtx(q.mutable_context(), o.mono ? 11 : 10); }
  template <class Q> void Rg(Q& q, const Rq& o) { auto* r = q.mutable_range(); r->mutable_range()->set_start_key(RK(o.lo)); r->mutable_range()->set_end_key(RK(o.hi)); r->set_with_start(o.ws); r->set_with_end(o.we); }
  An Do(const Rq& o) {
    An a; auto kv = [&](const pb::common::KeyValue& x) { a.kv.push_back({RKI(x.key()), o.ko && x.value().empty() ? 0 : RVI(x.value())}); }; auto set = [&](pb::common::KeyValue* x, size_t i) { x->set_key(RK(o.ks[i])); x->set_value(RV(o.vs[i])); };
    if (o.o == "get") { KvGetRequest q; KvGetResponse p; Ctx(q, o); q.set_key(RK(o.ks[0])); q.set_ts(o.t); w.Call(&StoreServiceImpl::KvGet, q, p); a.e = p.error().errcode(); a.kv.push_back({o.ks[0], RVI(p.value())}); }
    else if (o.o == "bget") { KvBatchGetRequest q; KvBatchGetResponse p; Ctx(q, o); for (int k : o.ks) q.add_keys(RK(k)); q.set_ts(o.t); w.Call(&StoreServiceImpl::KvBatchGet, q, p); a.e = p.error().errcode(); for (auto& x : p.kvs()) kv(x); }
    else if (o.o == "put") { KvPutRequest q; KvPutResponse p; Ctx(q, o); set(q.mutable_kv(), 0); q.set_ttl(o.ttl); w.Call(&StoreServiceImpl::KvPut, q, p); a.e = p.error().errcode(); a.rt = p.ts(); }
    else if (o.o == "bput") { KvBatchPutRequest q; KvBatchPutResponse p; Ctx(q, o); for (size_t i = 0; i < o.ks.size(); i++) set(q.add_kvs(), i); q.set_ttl(o.ttl); w.Call(&StoreServiceImpl::KvBatchPut, q, p); a.e = p.error().errcode(); a.rt = p.ts(); }
    else if (o.o == "pia") { KvPutIfAbsentRequest q; KvPutIfAbsentResponse p; Ctx(q, o); set(q.mutable_kv(), 0); q.set_ttl(o.ttl); w.Call(&StoreServiceImpl::KvPutIfAbsent, q, p); a.e = p.error().errcode(); a.rt = p.ts(); a.st = {p.key_state()}; }
    else if (o.o == "bpia") { KvBatchPutIfAbsentRequest q; KvBatchPutIfAbsentResponse p; Ctx(q, o); for (size_t i = 0; i < o.ks.size(); i++) set(q.add_kvs(), i); q.set_ttl(o.ttl); q.set_is_atomic(o.at); w.Call(&StoreServiceImpl::KvBatchPutIfAbsent, q, p); a.e = p.error().errcode(); a.rt = p.ts(); for (bool b : p.key_states()) a.st.push_back(b); }
    else if (o.o == "cas") { KvCompareAndSetRequest q; KvCompareAndSetResponse p; Ctx(q, o); set(q.mutable_kv(), 0); q.set_expect_value(RV(o.xs[0])); q.set_ttl(o.ttl); w.Call(&StoreServiceImpl::KvCompareAndSet, q, p); a.e = p.error().errcode(); a.rt = p.ts(); a.st = {p.key_state()}; }
    else if (o.o == "bcas") { KvBatchCompareAndSetRequest q; KvBatchCompareAndSetResponse p; Ctx(q, o); for (size_t i = 0; i < o.ks.size(); i++) { set(q.add_kvs(), i); q.add_expect_values(RV(o.xs[i])); } q.set_is_atomic(o.at); w.Call(&StoreServiceImpl::KvBatchCompareAndSet, q, p); a.e = p.error().errcode(); a.rt = p.ts(); for (bool b : p.key_states()) a.st.push_back(b); }
    else if (o.o == "bdel") { KvBatchDeleteRequest q; KvBatchDeleteResponse p; Ctx(q, o); for (int k : o.ks) q.add_keys(RK(k)); w.Call(&StoreServiceImpl::KvBatchDelete, q, p); a.e = p.error().errcode(); for (bool b : p.key_states()) a.st.push_back(b); }
    else if (o.o == "drange") { KvDeleteRangeRequest q; KvDeleteRangeResponse p; Ctx(q, o); Rg(q, o); w.Call(&StoreServiceImpl::KvDeleteRange, q, p); a.e = p.error().errcode(); }
    else if (o.o == "begin1") { KvScanBeginRequest q; KvScanBeginResponse p; Ctx(q, o); Rg(q, o); q.set_max_fetch_cnt(o.max); q.set_key_only(o.ko); q.set_disable_auto_release(o.dar); q.set_disable_coprocessor(true); q.set_ts(o.t); w.Call(&StoreServiceImpl::KvScanBegin, q, p); a.e = p.error().errcode(); a.sid = !p.scan_id().empty(); for (auto& x : p.kvs()) kv(x); v1[o.id] = p.scan_id().empty() ? "none" : p.scan_id(); }
    else if (o.o == "cont1") { KvScanContinueRequest q; KvScanContinueResponse p; Ctx(q, o); q.set_scan_id(v1[o.id]); q.set_max_fetch_cnt(o.max); w.Call(&StoreServiceImpl::KvScanContinue, q, p); a.e = p.error().errcode(); for (auto& x : p.kvs()) kv(x); }
    else if (o.o == "rel1") { KvScanReleaseRequest q; KvScanReleaseResponse p; Ctx(q, o); q.set_scan_id(v1[o.id]); w.Call(&StoreServiceImpl::KvScanRelease, q, p); a.e = p.error().errcode(); }
    else if (o.o == "begin2") { KvScanBeginRequestV2 q; KvScanBeginResponseV2 p; Ctx(q, o); Rg(q, o); q.set_max_fetch_cnt(o.max); q.set_key_only(o.ko); q.set_disable_auto_release(o.dar); q.set_ts(o.t); q.set_scan_id(o.id); w.Call(&StoreServiceImpl::KvScanBeginV2, q, p); a.e = p.error().errcode(); a.sid = p.scan_id() == o.id; for (auto& x : p.kvs()) kv(x); }
    else if (o.o == "cont2") { KvScanContinueRequestV2 q; KvScanContinueResponseV2 p; Ctx(q, o); q.set_scan_id(o.id); q.set_max_fetch_cnt(o.max); w.Call(&StoreServiceImpl::KvScanContinueV2, q, p); a.e = p.error().errcode(); for (auto& x : p.kvs()) kv(x); a.more = p.has_more(); }
    else if (o.o == "rel2") { KvScanReleaseRequestV2 q; KvScanReleaseResponseV2 p; Ctx(q, o); q.set_scan_id(o.id); w.Call(&StoreServiceImpl::KvScanReleaseV2, q, p); a.e = p.error().errcode(); }
    else if (o.o[0] == 'r') { auto rd = mvcc::KvReader::New(w.raw->Reader()); auto cf = Constant::kStoreDataCF; std::string lo = RK(o.lo), hi = RK(o.hi), k; int64_t n = -1; int rows = o.max == 0 ? 1 : (int)std::min<int64_t>(o.max, 100); butil::Status st;   // below the services
      if (o.o == "rscan") { std::vector<pb::common::KeyValue> v; st = rd->KvScan(cf, o.t, lo, hi, v); for (auto& x : v) kv(x); }
      else if (o.o == "rsome") st = rd->KvScan(cf, o.t, lo, hi, [&](const std::string& x, const std::string& y) { a.kv.push_back({RKI(x), RVI(y)}); return (int)a.kv.size() < rows; });
      else if (o.o == "rcount") { st = rd->KvCount(cf, o.t, lo, hi, n); a.kv.push_back({(int)n, 0}); }
      else if (o.o == "rmin") { st = rd->KvMinKey(cf, o.t, lo, hi, k); if (!k.empty()) a.kv.push_back({RKI(k), 0}); }
      else if (o.o == "rmax") { st = rd->KvMaxKey(cf, o.t, lo, hi, k); if (!k.empty()) a.kv.push_back({RKI(k), 0}); }
      else if (o.o == "rrev") { IteratorOptions io; io.lower_bound = mvcc::Codec::EncodeBytes(lo); auto it = rd->NewIterator(cf, o.t, io); for (it->SeekForPrev(mvcc::Codec::EncodeBytes(hi)); it->Valid() && a.kv.size() < 20; it->Prev()) { int64_t ts; std::string pk; mvcc::Codec::DecodeKey(it->Key(), pk, ts); a.kv.push_back({RKI(pk), RVI(std::string(mvcc::Codec::UnPackageValue(it->Value())))}); } }
      else Setup("op " + o.o);
      a.e = st.error_code(); }
    else Setup("op " + o.o);
    return a;
  }
  void Down() { be->lead = false; be->o.fsm->on_leader_stop(butil::Status(1, "stop")); }
  void Up() { be->o.fsm->on_leader_start(++be->term); }
};
struct Gen { Rng& r; int64_t top; std::vector<Ver> vs;   // a random request
  int key() { return 1 + r.N(6); } std::vector<int> keys(int n, bool dup = false) { std::vector<int> k; while ((int)k.size() < n) { int x = key(); if (dup || !std::count(k.begin(), k.end(), x)) k.push_back(x); } return k; }
  int cur(int k) { const Ver* b = nullptr; for (auto& v : vs) if (v.k == k && (!b || v.t > b->t)) b = &v; return b && b->f != "D" ? b->v : 0; }
  Rq make(const std::string& kind) {
    Rq q; q.o = kind; q.mono = r.P(400); q.nt = r.P(25) ? 0 : top + 1 + r.N(2); q.t = r.P(500) ? 0 : 1 + r.N(top + 2); bool w = kind == "put" || kind == "bput" || kind == "pia" || kind == "bpia" || kind == "cas"; if (w && r.P(300)) q.ttl = 1 + r.N(60);
    int n = kind[0] == 'b' && kind[1] != 'e' ? 1 + r.N(3) : 1; q.ks = keys(n, kind != "bget" && r.P(80)); for (int k : q.ks) { q.vs.push_back(r.P(kind.find("cas") != std::string::npos ? 300 : 100) ? 0 : 1 + r.N(3)); q.xs.push_back(r.P(650) ? cur(k) : (int)r.N(4)); }
    q.at = r.P(500); q.lo = r.N(7); q.hi = r.P(900) ? q.lo + (int)r.N(8 - q.lo) : r.N(9); q.ws = r.P(700); q.we = r.P(300); q.ko = r.P(200); q.dar = r.P(300); q.max = r.P(80) ? 0 : r.P(800) ? 1 + r.N(3) : 1000000; return q; } };
}  // namespace
static int Hist(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = atoi(argv[5]); RawWorld w("/raw"); Watch wd(60); Out f(argv[2]); std::map<std::string, int> cnt; int64_t evs = 0;
  auto conf = [&](auto& m, int cap, int bytes) { m.timeout_ms = 5000; m.max_fetch_cnt_by_server = cap; m.max_bytes_rpc = bytes; };
  static const std::vector<std::string> kinds = {"put", "put", "put", "bput", "bput", "pia", "pia", "bpia", "bpia", "cas", "cas", "bcas", "bcas", "bdel", "bdel", "drange", "get", "get", "bget", "bget", "begin1", "begin2", "cont1", "cont1", "cont2", "cont2", "rel1", "rel2", "clean", "tick", "tick", "elect", "rscan", "rsome", "rcount", "rmin", "rmax", "rrev"};
  for (int h = 0; h < N; h++) {
    std::vector<std::string> ev; auto E = [&](std::string s) { ev.push_back(s); evs++; }; int64_t now = 1000, top = 0; shim::g_virtual_us = now * 1000;
    w.Data({}); ScanManager::GetInstance().alive_scans_.clear(); ScanManagerV2::GetInstance().alive_scans_.clear(); w.v1.clear(); w.ts->batch_ts_list_->min_valid_ts_ = 0; w.rr->raw_applied_max_ts_ = 0; w.be->lead = true; w.be->pend.clear(); w.Up();
    int cap = r.P(700) ? 100 : 1 + r.N(3), bytes = r.P(800) ? 1000000 : 5 + r.N(60); conf(ScanManager::GetInstance(), cap, bytes); conf(ScanManagerV2::GetInstance(), cap, bytes); int nv1 = 0; std::vector<int> ids;
    auto post = [&](const std::string& j, const An& a) { E(j.substr(0, j.size() - 1) + ",\"a\":" + a.Json().s + ",\"cap\":" + std::to_string(bytes >= 1000000 ? cap : -cap) + ",\"p\":" + VersJ(Versions(w.Dump())).s + "}"); };
    auto op = [&](const std::string& kind) { Gen g{r, top, Versions(w.Dump())}; Rq q = g.make(kind); 
      if (kind[0] == 'r' && kind[1] != 'e') { q.hi = std::min(q.hi, 7); q.lo = std::min(q.lo, q.hi); }
      if (kind == "begin1") q.id = ++nv1; else if (kind == "cont1" || kind == "rel1") { if (!nv1) return; q.id = 1 + r.N(nv1); } else if (kind.back() == '2') q.id = 101 + r.N(3);
      w.Give(q.nt); std::string j = q.Json(now).s; An a = w.Do(q); cnt[kind + (a.e ? "!" : "")]++; for (auto& v : Versions(w.Dump())) top = std::max(top, v.t); post(j, a); };
    static const std::vector<std::string> wr = {"put", "bput", "pia", "bpia", "cas", "bcas", "bdel", "drange"};
    for (int i = 0; i < len; i++) {
      wd.Tick(); std::string k = kinds[r.N(kinds.size())];
      if (k == "tick") { now += r.P(800) ? r.N(40) : 5000 + r.N(3) - 1; shim::g_virtual_us = now * 1000; cnt[k]++; }
      else if (k == "clean") { ScanManager::RegularCleaningHandler(nullptr); ScanManagerV2::RegularCleaningHandler(nullptr); E(O({{"e", "clean"}, {"now", now}}).s); cnt[k]++; }
      else if (k == "elect") {   // the leader of region 10 changes, perhaps while a write is under way
        if (r.P(700)) { Gen g{r, top, Versions(w.Dump())}; Rq q = g.make(wr[r.N(wr.size())]); q.mono = false; w.be->lose = true; w.Give(q.nt); std::string j = q.Json(now).s; An a = w.Do(q); bool lost = !w.be->lose; w.be->lose = false; if (lost) { cnt["lost"]++; post("{\"e\":\"lost\",\"x\":" + j + "}", a); top += 3; } else post(j, a); for (auto& v : Versions(w.Dump())) top = std::max(top, v.t); }
        w.Down(); E(O({{"e", "down"}}).s); while (r.P(500)) { Gen g{r, top, {}}; op(g.make(kinds[r.N(20)]).o); }
        w.be->lead = true; E(O({{"e", "elected"}}).s); for (int n = r.N(4); n > 0; n--) op(kinds[r.N(20)]);
        w.be->Flush(); w.Up(); E("{\"e\":\"up\",\"now\":" + std::to_string(now) + ",\"p\":" + VersJ(Versions(w.Dump())).s + "}"); cnt[k]++; for (auto& v : Versions(w.Dump())) top = std::max(top, v.t);
        if (r.P(300)) { int64_t t0 = top; top = std::max<int64_t>(0, top - 3); op(wr[r.N(wr.size())]); top = std::max(t0, top); }   // a timestamp older than what the region has
      }
      else op(k);
    }
    f.Line(J::Raw("{\"h\":" + J::Arr(ev, [](const std::string& s) { return J::Raw(s); }).s + "}"));
  }
  printf("events %ld histories %d :", (long)evs, N); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n"); return 0;
}
static rocksdb::KvMap RandomData(Rng& r, int64_t now, int64_t& top) {   // versions of a few keys
  rocksdb::KvMap m; int n = r.N(9); top = 0;
  for (int i = 0; i < n; i++) { int k = 1 + r.N(4); int64_t t = 1 + r.N(9); std::string v; int q = r.N(10); if (q < 2) mvcc::Codec::PackageValue(mvcc::ValueFlag::kDelete, v); else if (q < 5) { v = RV(r.N(4)); mvcc::Codec::PackageValue(mvcc::ValueFlag::kPutTTL, now + r.N(40) - 20, v); } else { v = RV(r.N(4)); mvcc::Codec::PackageValue(mvcc::ValueFlag::kPut, v); } m[mvcc::Codec::EncodeKey(RK(k), t)] = v; top = std::max(top, t); }
  return m;
}
static int Conc(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]); RawWorld w("/raw"); Watch wd(60); Out f(argv[2]); int rec = 0; int64_t runs = 0; std::set<std::string> seen; int64_t now = 1000; shim::g_virtual_us = now * 1000; w.Up();
  auto conf = [&](auto& m) { m.timeout_ms = 5000; m.max_fetch_cnt_by_server = 100; m.max_bytes_rpc = 1000000; }; conf(ScanManager::GetInstance());
  static const std::vector<std::string> A = {"put", "bput", "pia", "pia", "bpia", "bpia", "cas", "cas", "cas", "bcas", "bcas", "bdel", "drange"}, B = {"put", "bput", "pia", "bpia", "cas", "cas", "bcas", "bcas", "bdel", "drange", "get", "bget", "begin1"};
  for (int step = 0; step < N * 3 && rec < N; step++) {
    wd.Tick(); int64_t top; auto data = RandomData(r, now, top); w.Data(data); auto pre = Versions(w.Dump()); Gen g{r, top, pre}; Rq a, b; bool mono = r.P(400);
    for (int t = 0; t < 30; t++) { a = g.make(A[r.N(A.size())]); b = g.make(B[r.N(B.size())]); for (auto* q : {&a, &b}) { q->mono = mono; q->t = 0; if (q->o == "begin1") q->max = 1000; if (q->lo > 3) q->lo = r.N(4); if (q->hi > 7) q->hi = 7; q->we = q->hi < 7 && q->we; } bool share = a.o == "drange" || b.o == "drange" || b.o == "begin1"; for (int k : a.ks) share |= std::count(b.ks.begin(), b.ks.end(), k) > 0; if (share) break; }
    a.nt = b.nt = top + 1;
    for (int t = 0; t < 4; t++) {
      w.Data(data); ScanManager::GetInstance().alive_scans_.clear(); w.v1.clear(); w.Give(top + 1, 2); An ra, rb; b.id = 1; w.rr->raw_applied_max_ts_ = 0; w.ts->batch_ts_list_->min_valid_ts_ = 0;
      shim::SchedOpts so; so.seed = r.Next(); so.preempt_permille = 60 + r.N(500); so.max_steps = 50000;
      auto sr = shim::RunSched(so, {[&] { ra = w.Do(a); }, [&] { rb = w.Do(b); }}); runs++;
      if (sr.deadlock || sr.overrun) { fprintf(stderr, "error: two requests block each other: %s %s %s\n", a.Json(now).s.c_str(), b.Json(now).s.c_str(), sr.blocked.c_str()); fflush(nullptr); _exit(70); }
      std::string e = "{\"s\":" + VersJ(pre).s + ",\"a\":" + a.Json(now).s + ",\"b\":" + b.Json(now).s + ",\"ra\":" + ra.Json().s + ",\"rb\":" + rb.Json().s + ",\"p\":" + VersJ(Versions(w.Dump())).s + "}";
      if (seen.insert(e).second) { f.Line(J::Raw(e)); rec++; }
    }
  }
  printf("concurrent pairs %d runs %ld\n", rec, (long)runs); return 0;
}
static int Gc(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]); RawWorld w("/raw"); Watch wd(60); Out f(argv[2]); int64_t now = 1000, mids = 0; shim::g_virtual_us = now * 1000; w.Up();
  for (int h = 0; h < N; h++) {
    wd.Tick(); int64_t top; auto data = RandomData(r, now, top); w.Data(data); auto pre = Versions(w.Dump()); int64_t sp = 1 + r.N(10); bool mono = r.P(400); int stop = r.P(300) ? 1 + r.N(2) : 0; Flag("gc_delete_batch_count", 1 + (int)r.N(3));
    std::vector<std::string> mid; int nw = 0;
    shim::SetRocksWriteHook([&](const shim::RocksWrite&) { mid.push_back(VersJ(Versions(w.Dump())).s); if (++nw == stop) w.w.meta->GetGCSafePointManager()->SetGcFlagAndSafePointTs({{0, sp}}, true); return rocksdb::Status::OK(); });
    w.w.meta->GetGCSafePointManager()->SetGcFlagAndSafePointTs({{0, sp}}, false); TxnGcRequest q; TxnGcResponse p; SetCtx(q.mutable_context(), mono ? 11 : 10); q.set_safe_point_ts(sp); w.w.Call(&StoreServiceImpl::TxnGc, q, p); shim::SetRocksWriteHook(nullptr); mids += mid.size();
    f.Line(J::Raw("{\"now\":" + std::to_string(now) + ",\"sp\":" + std::to_string(sp) + ",\"all\":" + (stop && nw >= stop ? "false" : "true") + ",\"e\":" + std::to_string(p.error().errcode()) + ",\"s\":" + VersJ(pre).s + ",\"p\":" + VersJ(Versions(w.Dump())).s + ",\"mid\":" + J::Arr(mid, [](const std::string& s) { return J::Raw(s); }).s + "}"));
  }
  printf("collections %d states in between %ld\n", N, (long)mids); return 0;
}
static int Lead(int argc, char** argv) {   // a request arrives while the replica becomes leader
  Rng r(atoi(argv[3])); int N = atoi(argv[4]); RawWorld w("/raw"); Watch wd(60); Out f(argv[2]); int rec = 0; int64_t runs = 0; std::set<std::string> seen; int64_t now = 1000; shim::g_virtual_us = now * 1000; w.Up();
  auto conf = [&](auto& m) { m.timeout_ms = 5000; m.max_fetch_cnt_by_server = 100; m.max_bytes_rpc = 1000000; }; conf(ScanManager::GetInstance());
  static const std::vector<std::string> A = {"put", "bput", "bdel", "drange", "pia"}, B = {"put", "bput", "pia", "bpia", "cas", "cas", "bcas", "bdel", "drange", "get", "bget", "begin1"};
  for (int step = 0; step < N * 3 && rec < N; step++) {
    wd.Tick(); int64_t top; auto data = RandomData(r, now, top); w.Data(data); auto pre = Versions(w.Dump()); Gen g{r, top, pre}; Rq a = g.make(A[r.N(A.size())]), b = g.make(B[r.N(B.size())]);
    for (auto* q : {&a, &b}) { q->mono = false; q->t = 0; if (q->o == "begin1") q->max = 1000; if (q->lo > 3) q->lo = r.N(4); if (q->hi > 7) q->hi = 7; q->we = q->hi < 7 && q->we; } a.nt = top + 3; b.nt = top + 6; if (r.P(700) && a.o != "drange" && b.o != "drange" && b.o[0] != 'b') b.ks[0] = a.ks[0];
    for (int t = 0; t < 4; t++) {
      w.Data(data); ScanManager::GetInstance().alive_scans_.clear(); w.v1.clear(); b.id = 1; w.Up(); w.rr->raw_applied_max_ts_ = top; w.ts->batch_ts_list_->min_valid_ts_ = 0;
      w.be->pend.clear(); w.be->lose = true; w.Give(a.nt); An ra = w.Do(a); bool sent = !w.be->lose; w.be->lose = false; w.Down(); w.be->lead = true; w.Give(top + 1); w.ts->batch_ts_list_->Push(mvcc::BatchTs::New(0, top + 6, 1)); An rb;
      shim::SchedOpts so; so.seed = r.Next(); so.preempt_permille = 20 + r.N(300); so.max_steps = 50000;
      auto sr = shim::RunSched(so, {[&] { w.be->Flush(); w.Up(); }, [&] { rb = w.Do(b); }}); runs++;
      if (sr.deadlock || sr.overrun) { fprintf(stderr, "error: a request and the start of a leader block each other: %s %s\n", b.Json(now).s.c_str(), sr.blocked.c_str()); fflush(nullptr); _exit(70); }
      std::string e = "{\"s\":" + VersJ(pre).s + ",\"sent\":" + (sent ? "true" : "false") + ",\"a\":" + a.Json(now).s + ",\"b\":" + b.Json(now).s + ",\"rb\":" + rb.Json().s + ",\"p\":" + VersJ(Versions(w.Dump())).s + "}";
      if (seen.insert(e).second) { f.Line(J::Raw(e)); rec++; }
    }
  }
  printf("requests at the start of a leader %d runs %ld\n", rec, (long)runs); return 0;
}
static int Ts(int argc, char** argv) {   // threads take timestamps from the provider, which fetches batches from a coordinator
  Rng r(atoi(argv[3])); int N = atoi(argv[4]); Watch wd(60); Out f(argv[2]); int64_t evs = 0, got = 0, none = 0;
  for (int h = 0; h < N; h++) {
    wd.Tick(); std::vector<std::string> ev; auto E = [&](std::string s) { ev.push_back(s); evs++; }; int64_t now = 10000; shim::g_virtual_us = now * 1000; int64_t logical = 0, last = 0; int fail = r.P(600) ? 0 : r.N(400); int maxn = 2 + r.N(6); int64_t lag = r.P(700) ? 0 : 4000;   // a coordinator whose clock is behind
    shim::SetRpcHandler([&](const butil::EndPoint&, const google::protobuf::MethodDescriptor*, brpc::Controller* c, const google::protobuf::Message* q, google::protobuf::Message* p) {
      shim::SchedPoint(); if ((int)r.N(1000) < fail) { c->SetFailed(EHOSTDOWN, "down"); E("{\"e\":\"fail\"}"); return; }
      auto* rsp = static_cast<pb::meta::TsoResponse*>(p); int64_t phys = std::max<int64_t>(1, (shim::g_virtual_us / 1000 - lag)); int n = 1 + r.N(maxn); if ((phys << 18) > (last >> 18 << 18)) logical = 0; else { logical++; } 
      int64_t lo = std::max((phys << 18) + logical, last + 1 + (int64_t)r.N(2)); rsp->mutable_start_timestamp()->set_physical(lo >> 18); rsp->mutable_start_timestamp()->set_logical(lo & ((1 << 18) - 1)); rsp->set_count(n); last = lo + n - 1;
      E("{\"e\":\"batch\",\"p\":" + std::to_string(lo >> 18) + ",\"l\":" + std::to_string(lo & ((1 << 18) - 1)) + ",\"n\":" + std::to_string(n) + ",\"now\":" + std::to_string(shim::g_virtual_us / 1000) + "}"); shim::SchedPoint(); });
    auto ci = std::make_shared<CoordinatorInteraction>(); ci->Init("10.0.0.1:1");
    auto jt = [](int64_t t) { return "[" + std::to_string(t >> 18) + "," + std::to_string(t & ((1 << 18) - 1)) + "]"; };
    shim::SchedOpts so; so.seed = r.Next(); so.preempt_permille = 20 + r.N(300); so.max_steps = 400000; std::vector<int64_t> seen; int phases = 2 + r.N(4);
    auto sr = shim::RunSched(so, {[&] {
      auto tp = std::make_shared<mvcc::TsProvider>(ci); tp->Init(); std::vector<int64_t> after; 
      for (int ph = 0; ph < phases; ph++) {
        std::vector<bthread_t> ts; std::vector<std::function<void()>> fs; int nt = 1 + r.N(3);
        for (int i = 0; i < nt; i++) { int n = 1 + r.N(5); int aft = r.N(4); fs.push_back([&, i, n, aft] { for (int j = 0; j < n; j++) {
          int64_t a = aft || seen.empty() ? 0 : seen[r.N(seen.size())] + (int64_t)r.N(3) - 1; E("{\"e\":\"call\",\"th\":" + std::to_string(i) + ",\"a\":" + jt(a) + ",\"now\":" + std::to_string(shim::g_virtual_us / 1000) + "}");
          int64_t t = tp->GetTs(a); seen.push_back(t); (t ? got : none)++; E("{\"e\":\"ret\",\"th\":" + std::to_string(i) + ",\"t\":" + jt(t) + "}"); } }); }
        if (r.P(600)) { int64_t m = (last ? last : ((10000 - lag) << 18)) - 4 + (int64_t)r.N(9); fs.push_back([&, m] { for (int j = 0; j < 2; j++) { int64_t x = m + j * 2 - 1; tp->SetMinValidTs(x); E("{\"e\":\"min\",\"t\":" + jt(x) + "}"); } }); if (r.P(500)) fs.push_back([&, m] { tp->SetMinValidTs(m); E("{\"e\":\"min\",\"t\":" + jt(m) + "}"); }); }
        if (r.P(200)) fs.push_back([&] { tp->TriggerRenewBatchTs(); });
        for (auto& fn : fs) { bthread_t id; bthread_start_background(&id, nullptr, [](void* p) -> void* { (*(std::function<void()>*)p)(); return nullptr; }, &fn); ts.push_back(id); }
        for (auto id : ts) bthread_join(id, nullptr);
        if (r.P(500)) { shim::g_virtual_us += 1000 * (r.P(500) ? r.N(3) : 2990 + r.N(40)); }
      }
      tp->worker_->Destroy(); } });
    shim::SetRpcHandler(nullptr);
    if (sr.deadlock || sr.overrun) { fprintf(stderr, "error: taking timestamps does not end: %s\n", sr.blocked.c_str()); fflush(nullptr); _exit(70); }
    f.Line(J::Raw("{\"h\":" + J::Arr(ev, [](const std::string& s) { return J::Raw(s); }).s + "}"));
  }
  printf("events %ld histories %d : got=%ld none=%ld\n", (long)evs, N, (long)got, (long)none); return 0;
}
int main(int argc, char** argv) { std::string m = argc > 1 ? argv[1] : ""; int r = m == "hist" ? Hist(argc, argv) : m == "conc" ? Conc(argc, argv) : m == "gc" ? Gc(argc, argv) : m == "lead" ? Lead(argc, argv) : m == "ts" ? Ts(argc, argv) : 77; fflush(nullptr); _exit(r); }
