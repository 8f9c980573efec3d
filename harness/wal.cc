// wal hist OUT SEED N LEN | wal conc OUT SEED N: the raft log storage, region by region, with restarts and power failures
#include "braft/configuration_manager.h"
#include "common/constant.h"
#include "common/logging.h"
#include "common/role.h"
#include "h.h"
#include "log/rocks_log_storage.h"
#include "rocksdb/db.h"
#include "shim/sched.h"
namespace dingodb { namespace wal { DECLARE_bool(rocks_log_enable_get_term_cache); DECLARE_int32(rocks_log_write_wait_time_ms); } }
using namespace dingodb; using namespace h;
using wal::RocksLogStorage; using wal::RocksLogStorageWrapper; using wal::ClientType;
static const int64_t kIds[3] = {1, 2, 70000};
struct Ent { int64_t i, t; int k; std::string d; };  // k: 1 noop 2 data 3 configuration
static J EJ(const Ent& e) { return J::Arr(std::vector<J>{J(e.i), J(e.t), J(e.k), J(e.d)}); }
static braft::LogEntry* Mk(const Ent& e) {
  auto* l = new braft::LogEntry(); l->AddRef(); l->type = (braft::EntryType)e.k; l->id = braft::LogId(e.i, e.t);
  if (e.k == 3) { l->peers = new std::vector<braft::PeerId>{braft::PeerId("127.0.0.1:" + e.d + ":0")}; } else l->data.append(e.d);
  return l;
}
static Ent Un(braft::LogEntry* l) { Ent e{l->id.index, l->id.term, (int)l->type, ""}; if (e.k == 3) { if (l->peers && l->peers->size() == 1) e.d = std::to_string((*l->peers)[0].addr.port); } else e.d = l->data.to_string(); l->Release(); return e; }
static std::string ConfData(const Ent& e) { auto* l = Mk(e); butil::IOBuf b; braft::serialize_configuration_meta(l, b); l->Release(); return b.to_string(); }
struct W {
  std::string path; wal::LogStoragePtr st; std::shared_ptr<RocksLogStorageWrapper> w[3]; int64_t lmf[3] = {1, 1, 1}, lml[3] = {0, 0, 0}; int64_t term[3] = {1, 1, 1}; int seq = 10; bool cache; bool two;
  std::map<std::string, int> confs;
  W(const std::string& p, bool c, bool t) : path(p), cache(c), two(t) { wal::FLAGS_rocks_log_enable_get_term_cache = c; shim::RocksForget(p); Open(); for (int r = 0; r < 3; r++) Init(r); }
  void Open() { st = RocksLogStorage::New(path); st->RegisterClientType(ClientType::kRaft); if (two) st->RegisterClientType(ClientType::kVectorIndex); if (!st->Init()) Setup("init"); }
  J Init(int r) { braft::ConfigurationManager m; w[r] = std::make_shared<RocksLogStorageWrapper>(kIds[r], st); if (w[r]->init(&m) != 0) Setup("wrapper init"); return J::Arr(m.all(), [](const braft::ConfigurationEntry& e) { std::vector<braft::PeerId> p; e.conf.list_peers(&p); return J::Arr(std::vector<J>{J(e.id.index), J(e.id.term), J(p.size() == 1 ? std::to_string(p[0].addr.port) : "?")}); }); }
  void Close() { for (auto& x : w) x = nullptr; st->Close(); st = nullptr; }
  std::string Dat(const wal::LogEntryPtr& e) { if ((int)e->type != 3) return e->out_data; auto* l = new braft::LogEntry(); l->AddRef(); butil::IOBuf b; b.append(e->out_data); std::string s = "?"; if (braft::parse_configuration_meta(b, l).ok() && l->peers->size() == 1) s = std::to_string((*l->peers)[0].addr.port); l->Release(); return s; }
  J Ents(const std::vector<wal::LogEntryPtr>& v, int64_t id) { return J::Arr(v, [&](const wal::LogEntryPtr& e) { return EJ({e->index, e->region_id == id ? e->term : -1, (int)e->type, Dat(e)}); }); }
  J Dump() { std::vector<J> o; for (int r = 0; r < 3; r++) { o.push_back(O({{"f", w[r]->first_log_index()}, {"l", w[r]->last_log_index()}, {"x", Ents(st->GetEntries(kIds[r], 0, INT64_MAX), kIds[r])}})); } return J::Arr(o); }
  void Sync(int r) { lmf[r] = w[r]->first_log_index(); lml[r] = w[r]->last_log_index(); }
};
struct Op { std::string o; int r = 0; std::vector<Ent> x; int c = 0; int64_t k = 0; bool one = false; };
static J OpJ(const Op& p) { return O({{"o", p.o}, {"r", p.r + 1}, {"x", J::Arr(p.x, EJ)}, {"c", p.c}, {"k", p.k > 1000000 ? 1000000 : p.k}}); }
static Op Gen(W& w, Rng& g, int r) {
  Op p; p.r = r; int q = g.N(100); int64_t f = w.lmf[r], l = w.lml[r];
  if (q < 50 || l < f) { if (q >= 90 && l < f) { p.o = "reset"; p.k = l + 1 + g.N(4); return p; }
    p.o = "app"; int n = 1 + g.N(4); for (int i = 1; i <= n; i++) { if (g.P(250)) w.term[r]++; int k = g.P(150) ? 3 : g.P(120) ? 1 : 2; int s = w.seq++; p.x.push_back({l + i, w.term[r], k, k == 3 ? std::to_string(s) : k == 1 ? (g.P(600) ? "" : "n" + std::to_string(s)) : g.P(50) ? std::string() : std::to_string(s) + std::string(g.N(3) * 9, 'x')}); } p.one = n == 1 && g.P(500); }
  else if (q < 70) { p.o = "tp"; p.c = w.two ? g.N(2) : 0; p.k = p.c == 1 && g.P(200) ? (g.P(500) ? 0 : INT64_MAX) : g.P(80) ? l + 1 + g.N(5) : std::max<int64_t>(1, f - 1 + g.N(l - f + 4)); if (p.k > l + 1 && p.c == 0 && g.P(500)) p.k = l + 1; }
  else if (q < 84) { p.o = "ts"; p.k = f - 1 + g.N(l - f + 2); }
  else if (q < 91) { p.o = "reset"; p.k = std::max<int64_t>(1, f + g.N(l - f + 8)); }
  else if (q < 94) { p.o = "destroy"; }
  else { p.o = "tp"; p.c = 0; p.k = std::max<int64_t>(1, l - 1); }
  return p;
}
static void Do(W& w, const Op& p) {
  int r = p.r; auto& lw = *w.w[r]; bool bad = false;
  if (p.o == "app") { std::vector<braft::LogEntry*> v; for (auto& e : p.x) v.push_back(Mk(e)); if (p.one) bad = lw.append_entry(v[0]) != 0; else { braft::IOMetric m; bad = lw.append_entries(v, &m) != (int)v.size(); } for (auto* e : v) e->Release(); w.lml[r] = p.x.back().i; }
  else if (p.o == "tp") { if (p.c == 0) { bad = lw.truncate_prefix(p.k) != 0; if (p.k > w.lmf[r]) w.lmf[r] = p.k; if (p.k > w.lml[r] + 1) w.lml[r] = p.k - 1; } else bad = w.st->TruncatePrefix(ClientType::kVectorIndex, kIds[r], p.k) != 0; }
  else if (p.o == "ts") { bad = w.lml[r] != w.st->LastLogIndex(kIds[r]) && p.k > w.st->LastLogIndex(kIds[r]) ? false : lw.truncate_suffix(p.k) != 0; w.lml[r] = p.k; w.term[r]++; }
  else if (p.o == "reset") { bad = lw.reset(p.k) != 0; w.lmf[r] = p.k; w.lml[r] = p.k - 1; w.term[r]++; }
  else if (p.o == "destroy") { bad = !w.st->DestroyRegionLog(kIds[r]); w.Init(r); w.lmf[r] = 1; w.lml[r] = 0; }
  if (bad) { printf("REFUSED %s\n", p.o.c_str()); fflush(stdout); abort(); }
}
static int Hist(char** a) {
  Out out(a[0]); Rng g(atoi(a[1])); int n = atoi(a[2]), len = atoi(a[3]); long ev = 0;
  for (int hI = 0; hI < n; hI++) {
    W w(std::string(a[0]) + ".db", g.P(400), g.P(600)); std::vector<J> h; auto H = [&](J j) { h.push_back(j); ev++; };
    H(O({{"e", "new"}, {"m", w.two}, {"a", w.Dump()}}));
    for (int s = 0; s < len; s++) {
      int q = g.N(100), r = g.N(3); if (g.P(500)) r = 0;
      if (q < 62) { Op p = Gen(w, g, r); Do(w, p); H(O({{"e", "op"}, {"p", OpJ(p)}, {"a", w.Dump()}})); }
      else if (q < 68) {  // restart, clean or after a power failure
        bool pf = g.P(600); if (pf) shim::RocksPowerFail(w.path); w.Close(); if (pf) shim::RocksPowerFail(w.path); w.Open(); std::vector<J> c; for (int i = 0; i < 3; i++) { c.push_back(w.Init(i)); w.Sync(i); }
        H(O({{"e", "restart"}, {"c", J::Arr(c)}, {"a", w.Dump()}})); }
      else if (q < 74) {  // the machine stops somewhere inside an operation
        Op p = Gen(w, g, r); std::vector<shim::RocksDump> im; shim::SetRocksWriteHook([&](const shim::RocksWrite& x) { im.push_back(shim::RocksGetContent(x.path)); return rocksdb::Status(); });
        Do(w, p); shim::SetRocksWriteHook(nullptr); im.push_back(shim::RocksGetContent(w.path)); auto pick = im[g.N(im.size())]; w.Close(); shim::RocksSetContent(w.path, pick); w.Open(); std::vector<J> c; for (int i = 0; i < 3; i++) { c.push_back(w.Init(i)); w.Sync(i); }
        H(O({{"e", "crash"}, {"p", OpJ(p)}, {"c", J::Arr(c)}, {"a", w.Dump()}})); }
      else if (q < 82) { int64_t f = w.lmf[r], l = w.lml[r]; if (w.cache && l < f) continue; int64_t i = w.cache ? f + g.N(l - f + 1) : std::max<int64_t>(1, f - 2 + g.N(l - f + 5)); H(O({{"e", "term"}, {"r", r + 1}, {"i", i}, {"t", w.w[r]->get_term(i)}})); }
      else if (q < 88) { int64_t f = w.lmf[r], l = w.lml[r], i = std::max<int64_t>(1, f - 2 + g.N(l - f + 5)); auto* e = w.w[r]->get_entry(i); H(O({{"e", "entry"}, {"r", r + 1}, {"i", i}, {"x", e ? J::Arr(std::vector<J>{EJ(Un(e))}) : J::Arr(std::vector<int>{})}})); }
      else if (q < 95) { int64_t f = w.lmf[r], l = w.lml[r], x = std::max<int64_t>(0, f - 2 + g.N(l - f + 4)), y = g.P(200) ? INT64_MAX : x + g.N(l - f + 4); bool d = g.P(500); auto v = d ? w.st->GetDataEntries(kIds[r], x, y) : w.st->GetEntries(kIds[r], x, y); H(O({{"e", "range"}, {"r", r + 1}, {"d", d}, {"i", x}, {"j", std::min<int64_t>(y, 1000000)}, {"x", w.Ents(v, kIds[r])}})); }
      else { int64_t f = w.lmf[r], l = w.lml[r], x = std::max<int64_t>(0, f - 2 + g.N(l - f + 4)), y = g.P(500) ? INT64_MAX : x + g.N(l - f + 4); int k = g.P(500) ? 3 : 2; int64_t t = g.P(500) ? 0 : w.term[r]; bool has = w.st->HasSpecificLog(kIds[r], x, y, [&](const wal::LogEntry& e) { return (int)e.type == k && (t == 0 || e.term == t); }); H(O({{"e", "has"}, {"r", r + 1}, {"i", x}, {"j", std::min<int64_t>(y, 1000000)}, {"k", k}, {"t", t}, {"b", has}})); }
    }
    w.Close(); out.Line(O({{"h", J::Arr(h)}}));
  }
  printf("histories %d events %ld\n", n, ev); return 0;
}
static int Conc(char** a) {
  Out out(a[0]); Rng g(atoi(a[1])); int n = atoi(a[2]); long ev = 0, fails = 0;
  wal::FLAGS_rocks_log_write_wait_time_ms = 0;
  for (int hI = 0; hI < n; hI++) {
    std::unique_ptr<W> w; std::vector<J> pre, ops[4], dump; std::vector<J> c; int done[4] = {0}, at[4] = {-1, -1, -1, -1}; shim::RocksDump img; bool got = false; int64_t when = g.N(10); J first; bool cache = g.P(300);
    auto res = shim::RunSched({.seed = g.Next(), .preempt_permille = (int)(100 + g.N(500))}, {[&] {
      w = std::make_unique<W>(std::string(a[0]) + ".db", cache, true);
      for (int s = 0; s < 4; s++) { Op p = Gen(*w, g, 0); if (p.o == "destroy") continue; Do(*w, p); pre.push_back(OpJ(p)); }
      first = w->Dump(); int64_t left = when; std::vector<bthread_t> ts; std::vector<std::function<void()>*> fs;
      auto ack = [&](int i) { done[i]++; if (left-- == 0) { got = true; img = shim::RocksGetDurable(w->path); for (int j = 0; j < 4; j++) at[j] = done[j]; } };
      std::vector<Op> plan[4]; for (int i = 0; i < 3; i++) plan[i] = {}; int64_t l = w->lml[0];
      { int m = 1 + g.N(2); for (int i = 0; i < m; i++) { Op p; p.o = "tp"; p.c = 1; p.k = std::max<int64_t>(1, w->lmf[0] + g.N(l - w->lmf[0] + 3)); plan[3].push_back(p); } }
      int cnt[3]; for (int& x : cnt) x = 1 + g.N(4);
      for (int i = 0; i < 4; i++) { auto* f = new std::function<void()>([&, i] { if (i < 3) for (int s = 0; s < cnt[i]; s++) { Op p = Gen(*w, g, i); if (p.o == "destroy" || (p.o == "tp" && p.c == 1)) continue; ops[i].push_back(OpJ(p)); Do(*w, p); ack(i); } else for (auto& p : plan[3]) { ops[3].push_back(OpJ(p)); Do(*w, p); ack(3); } });
        bthread_t t; bthread_start_background(&t, nullptr, +[](void* x) -> void* { (*(std::function<void()>*)x)(); return nullptr; }, f); ts.push_back(t); fs.push_back(f); }
      for (auto t : ts) bthread_join(t, nullptr);
      for (auto* f : fs) delete f;
      auto live = w->Dump(); w->Close();
      if (got) shim::RocksSetContent(w->path, img); else { for (int j = 0; j < 4; j++) at[j] = done[j]; shim::RocksPowerFail(w->path); }
      w->Open(); for (int i = 0; i < 3; i++) c.push_back(w->Init(i)); auto after = w->Dump(); w->Close();
      dump = {live, after};
    }});
    if (res.deadlock || res.overrun) { printf("STUCK %s\n", res.blocked.c_str()); fflush(stdout); abort(); }
    std::vector<J> oo; for (auto& o : ops) { oo.push_back(J::Arr(o)); ev += o.size(); } if (got) fails++;
    out.Line(O({{"pre", J::Arr(pre)}, {"first", first}, {"ops", J::Arr(oo)}, {"at", J::Arr(std::vector<int>(at, at + 4))}, {"live", dump[0]}, {"after", dump[1]}, {"c", J::Arr(c)}}));
  }
  printf("histories %d events %ld failures %ld\n", n, ev, fails); return 0;
}
int main(int, char** v) {
  SetRole("store"); FLAGS_minloglevel = 3; FLAGS_logtostderr = true;
  int rc = std::string(v[1]) == "hist" ? Hist(v + 2) : Conc(v + 2); fflush(nullptr); _exit(rc);
}
