// Drives the real versioned key-value store of the coordinator.
//   kv hist OUT SEED N     random histories, every step recorded
#include "kvlib.h"
#include "shim/sched.h"
using namespace h;
struct KvGen {
  Rng& r; KvWorld& w; int nextw = 1; std::vector<int64_t> leases; int nk = 3;
  int key() { return 1 + r.N(nk); }
  int64_t lease() { return leases.empty() || r.P(100) ? 5 + r.N(2) : leases[r.N(leases.size())]; }
  void range(KvOp& o) { o.k = key(); if (r.P(20)) o.k = 0; o.k2 = r.P(350) ? 0 : r.P(400) ? -1 : o.k + 1 + r.N(nk); if (r.P(30)) o.k2 = 1 + r.N(o.k ? o.k : 1); }
  std::set<std::string> focus;
  KvOp Next() { for (int i = 0; i < 20; i++) { KvOp o = Any(); if (focus.empty() || focus.count(o.o) || r.P(250) || o.o == "lead") return o; } return Any(); }
  KvOp Any() {
    KvOp o; int q = r.N(1000); int64_t rev = w.Rev();
    if (!w.L.lead) {
      if (q < 350) { o.o = "lead"; return o; }
      if (q < 550) { o.o = "fput"; o.k = key(); o.v = 1 + r.N(5); std::vector<pb::coordinator_internal::LeaseInternal> l; w.C().ListLeases(l); if (!l.empty() && r.P(500)) o.l = l[r.N(l.size())].id(); o.il = r.P(150); o.iv = r.P(100); if (o.il) o.l = 0; if (o.iv) o.v = 0; return o; }
      if (q < 700) { o.o = "fdel"; o.k = key(); return o; }
      q = r.N(1000);
    } else if (q < 25) { o.o = "stop"; return o; }
    else if (q < 50) { o.o = "crash"; return o; }
    q = r.N(1000);
    if (q < 260) { o.o = "put"; o.k = r.P(10) ? 0 : key(); o.v = 1 + r.N(5); o.l = r.P(600) ? 0 : lease(); o.pv = r.P(300); o.il = r.P(150); o.iv = r.P(120); if (o.iv && r.P(700)) o.v = 0; if (r.P(20)) o.v = 0; if (!o.il && r.P(400)) { pb::coordinator_internal::KvIndexInternal x; pb::coordinator_internal::KvRevInternal k; if (w.C().GetRawKvIndex(KK(o.k), x).ok() && w.C().GetRawKvRev(x.mod_revision(), k).ok()) o.l = k.kv().lease(); } }
    else if (q < 380) { o.o = "del"; range(o); o.pv = r.P(400); }
    else if (q < 460) { o.o = "range"; range(o); o.n = r.P(500) ? 0 : 1 + r.N(3); o.iv = r.P(200); o.il = r.P(200); }
    else if (q < 530) { o.o = "compact"; range(o); o.n = 1 + r.N(rev + 2); }
    else if (q < 550) { o.o = "auto"; o.n = r.N(6); if (!w.L.lead) o.o = "list"; }
    else if (q < 630) { o.o = "grant"; o.id = r.P(600) ? 0 : 1 + r.N(3); o.ttl = r.P(50) ? 0 : 1 + r.N(12); if (r.P(50)) o.ttl = 1000; }
    else if (q < 660) { o.o = "renew"; o.id = r.P(30) ? 0 : lease(); }
    else if (q < 700) { o.o = "revoke"; o.id = r.P(30) ? 0 : lease(); }
    else if (q < 730) { o.o = "query"; o.id = lease(); o.pv = r.P(700); }
    else if (q < 740) o.o = "list";
    else if (q < 790) { o.o = "tick"; o.n = 1 + r.N(7); }
    else if (q < 850) o.o = "task";
    else if (q < 950) { o.o = "watch"; o.id = nextw++; o.k = r.P(20) ? 0 : key(); o.st = r.P(500) ? 0 : std::max<int64_t>(1, rev + r.N(4) - 1); o.np = r.P(200); o.nd = r.P(200); o.pv = r.P(500); o.wt = r.P(650); }
    else if (q < 975 && !w.ws.empty()) { o.o = "cancel"; auto i = w.ws.begin(); std::advance(i, r.N(w.ws.size())); o.id = i->first; }
    else { o.o = "reap"; if (!w.L.lead) o.o = "list"; }
    return o;
  }
};
static int Hist(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = argc > 5 ? atoi(argv[5]) : 30; Watch wd(60); Out f(argv[2]); std::map<std::string, int> cnt; int steps = 0; std::set<std::string> focus; for (int i = 6; i < argc; i++) focus.insert(argv[i]); std::map<std::string, int> ids; std::set<std::string> seen;
  auto st = [&](const std::string& j) { auto i = ids.find(j); if (i != ids.end()) return i->second; int n = ids.size() + 1; ids[j] = n; f.Line(J::Raw("{\"st\":" + j + "}")); return n; };
  auto rec = [&](int pre, const KvOp& o, const KvWorld::R& res, int post) { std::string e = "{\"n\":" + std::to_string(pre) + ",\"op\":" + o.Json().s + ",\"res\":" + res.Json().s + ",\"p\":" + std::to_string(post) + "}"; if (seen.insert(e).second) { f.Line(J::Raw(e)); cnt[o.o + (res.e == "ok" ? "" : "!" + res.e)]++; } };
  {  // many keys: compaction, range requests and leases in batches
    KvWorld w("/kvmany", 64); w.L.Lead(); w.C().LeaseTask(); auto P = [&](KvOp o) { wd.Tick(); return w.Do(o); }; auto S = [&](KvOp o) { wd.Tick(); int n = st(w.State().s); auto x = w.Do(o); rec(n, o, x, st(w.State().s)); steps++; };
    KvOp g; g.o = "grant"; g.id = 7; g.ttl = 5; P(g); int n = 52 + r.N(10);
    for (int k = 1; k <= n; k++) { KvOp o; o.o = "put"; o.k = k; o.v = 1; o.l = k % 3 ? 0 : 7; P(o); }
    for (int k = 1; k <= n; k++) { if (r.P(300)) continue; KvOp o; o.o = r.P(300) ? "del" : "put"; o.k = k; o.v = 2; o.il = o.o == "put"; P(o); }
    KvOp o; o.o = "range"; o.k = 1; o.k2 = -1; S(o); o.n = 50 + r.N(3); S(o); o.n = 0; o.iv = true; S(o);
    KvOp c; c.o = "compact"; c.k = 1; c.k2 = 20 + r.N(20); c.n = n + 5; S(c); KvOp a; a.o = "auto"; a.n = 5; S(a); S(a);
    KvOp d0; d0.o = "del"; d0.k = 3 + r.N(4); d0.k2 = d0.k + 8 + r.N(10); S(d0); d0.k = 30 + r.N(4); d0.k2 = 40 + r.N(10); S(d0); KvOp ql; ql.o = "query"; ql.id = 7; ql.pv = true; S(ql);
    KvOp t; t.o = "tick"; t.n = 6; P(t); t = KvOp(); t.o = "task"; S(t); KvOp d; d.o = "del"; d.k = 2; d.k2 = -1; d.pv = true; S(d); a.n = 0; S(a); S(o);
  }
  for (int h = 0; h < N; h++) {
    KvWorld w("/kv" + std::to_string(h), 4); KvGen g{r, w}; g.focus = focus; w.L.Lead(); w.C().LeaseTask(); int pre = st(w.State().s);
    for (int i = 0; i < len; i++) {
      wd.Tick(); KvOp o = g.Next(); auto res = w.Do(o); if (o.o == "grant" && res.e == "ok") g.leases.push_back(res.id); int post = st(w.State().s); steps++;
      rec(pre, o, res, post); pre = post;
    }
  }
  printf("steps %zu of %d states %zu :", seen.size(), steps, ids.size()); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n"); return 0;
}
// Replicas: the log of a history applied elsewhere, with restarts, crashes at every write, and snapshots.
static int Rep(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = argc > 5 ? atoi(argv[5]) : 30; Watch wd(60); Out f(argv[2]); std::map<std::string, int> ids, ents; std::set<std::string> seen; std::map<std::string, int> cnt; int64_t crashes = 0;
  auto st = [&](const std::string& j) { auto i = ids.find(j); if (i != ids.end()) return i->second; int n = ids.size() + 1; ids[j] = n; f.Line(J::Raw("{\"st\":" + j + "}")); return n; };
  auto en = [&](const std::string& j) { auto i = ents.find(j); if (i != ents.end()) return i->second; int n = ents.size() + 1; ents[j] = n; f.Line(J::Raw("{\"en\":" + j + "}")); return n; };
  auto step = [&](int n, const char* o, int x, int p) { std::string e = "{\"n\":" + std::to_string(n) + ",\"o\":\"" + o + "\",\"x\":" + std::to_string(x) + ",\"p\":" + std::to_string(p) + "}"; if (seen.insert(e).second) { f.Line(J::Raw(e)); cnt[o]++; } };
  for (int h = 0; h < N; h++) {
    std::vector<Entry> log; int nk = 4; int64_t now0 = 1000000;
    { KvWorld w("/kvl" + std::to_string(h), nk); KvGen g{r, w}; w.L.Lead(); w.C().LeaseTask(); for (int i = 0; i < len; i++) { wd.Tick(); KvOp o = g.Next(); if (o.o == "watch" || o.o == "range") o.o = "task"; auto res = w.Do(o); if (o.o == "grant" && res.e == "ok") g.leases.push_back(res.id); } log = w.L.log; }
    std::vector<int> e; for (auto& x : log) e.push_back(en(KvWorld::EntryJ(x, now0).s));
    auto S = [&](MetaReplica<KvControl>& x) { return st(KvWorld::Replica(*x.ctl, nk, now0).s); };
    auto apply = [&](MetaReplica<KvControl>& x, size_t i) { wd.Tick(); int n = S(x); x.Apply(log[i]); step(n, "apply", e[i], S(x)); };
    // run `act` on x, and also run it cut short by a crash at each of its writes and started over
    auto cut = [&](MetaReplica<KvControl>& x, const char* o, int arg, const std::function<void()>& act, int permille) {
      std::string db = x.path + "/rocksdb"; auto base = shim::RocksGetContent(db); int n = S(x); std::vector<shim::RocksDump> at;
      shim::SetRocksWriteHook([&](const shim::RocksWrite&) { at.push_back(shim::RocksGetContent(db)); return rocksdb::Status::OK(); });
      act(); shim::SetRocksWriteHook(nullptr); step(n, o, arg, S(x)); auto done = shim::RocksGetContent(db); at.push_back(done);
      for (auto& c : at) { if (!r.P(permille)) continue; wd.Tick(); crashes++; shim::RocksSetContent(db, c); x.Restart(); act(); step(n, o, arg, S(x)); }
      shim::RocksSetContent(db, done); x.Restart(); step(n, o, arg, S(x));
    };
    MetaReplica<KvControl> A("/kva" + std::to_string(h)), B("/kvb" + std::to_string(h)); if (log.empty()) continue; size_t n = log.size();
    size_t i = r.N(n + 1), j = i == 0 || r.P(300) ? 0 : r.N(i); std::string snap; int sn = 0;
    for (size_t k = 0; k <= n; k++) {
      if (k == i) { sn = S(A); snap = A.Save("/tmp/verif-kvsnap-" + std::to_string(getpid())); step(sn, "same", 0, S(A)); }
      if (k == n) break;
      if (r.P(250)) cut(A, "apply", e[k], [&] { A.Apply(log[k]); }, 1000); else apply(A, k);
      if (r.P(60)) { int s = S(A); A.Apply(log[r.N(k + 1)]); step(s, "same", 0, S(A)); }
    }
    for (size_t k = 0; k < j; k++) apply(B, k);
    if (i > 0) { cut(B, "install", sn, [&] { if (B.Load(snap, log[i - 1].index, log[i - 1].term)) Setup("load"); }, 1000); for (size_t k = i; k < n; k++) apply(B, k); step(S(B), "same", 0, S(A)); }
    std::filesystem::remove_all(snap);
  }
  printf("replica steps %zu states %zu entries %zu crashes %ld :", seen.size(), ids.size(), ents.size(), (long)crashes); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n"); return 0;
}
// Two requests at the same time, the log applied by a third thread.
static int Conc(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = argc > 5 ? atoi(argv[5]) : 14; Watch wd(60); Out f(argv[2]); std::map<std::string, int> ids; std::set<std::string> seen; std::map<std::string, int> cnt; int64_t runs = 0;
  auto st = [&](const std::string& j) { auto i = ids.find(j); if (i != ids.end()) return i->second; int n = ids.size() + 1; ids[j] = n; f.Line(J::Raw("{\"st\":" + j + "}")); return n; };
  std::vector<std::string> A = {"put", "put", "put", "del", "del", "put", "revoke", "task", "grant"}, B = {"watch", "watch", "watch", "watch", "put", "del", "task", "task", "revoke", "grant", "grant", "renew", "range", "compact", "cancel", "reap"};
  if (argc > 6) { B.assign(argv + 6, argv + argc); }
  for (int h = 0; h < N; h++) {
    std::vector<KvOp> ops; KvOp a, b; std::vector<int64_t> ls; int nw;
    auto want = [&](KvGen& g, const std::string& o) { for (int i = 0; i < 5000; i++) { KvOp x = g.Next(); if (x.o == o && x.k2 == 0) return x; } KvOp x; x.o = "reap"; return x; };
    { KvWorld w("/kvc" + std::to_string(h)); KvGen g{r, w}; g.nk = 2; w.L.Lead(); w.C().LeaseTask();
      for (int i = 0; i < len; i++) { KvOp o = g.Next(); if (i % 4 == 3) o = want(g, "put"); if (o.o == "stop" || o.o == "crash" || o.o == "auto") continue; if (o.o == "grant" && r.P(400)) o.ttl = 3; auto res = w.Do(o); ops.push_back(o); if (o.o == "grant" && res.e == "ok") g.leases.push_back(res.id); }
      a = want(g, A[r.N(A.size())]); b = want(g, B[r.N(B.size())]); if (b.k && a.k && r.P(800)) { b.k = a.k; } if (b.o == "cancel" && w.ws.empty()) b.o = "reap";
      if (a.o == "grant" && r.P(700)) b = a; if (a.o == "grant") a.id = 0; if (b.o == "grant") b.id = 0; if (a.o == "task" || b.o == "task") { KvOp t; t.o = "tick"; t.n = 1 + r.N(4); w.Do(t); ops.push_back(t); } }
    for (int t = 0; t < 8; t++) {
      wd.Tick(); KvWorld w("/kvc" + std::to_string(h)); w.L.Lead(); w.C().LeaseTask(); for (auto& o : ops) w.Do(o);
      int n = st(w.State().s); LogBackend::Queue q; q.open = 2; w.conc = &q; w.L.be->queue = &q; KvWorld::R ra, rb, rf;
      shim::SchedOpts so; so.seed = r.Next(); so.preempt_permille = 60 + r.N(500); so.max_steps = 100000;
      auto sr = shim::RunSched(so, {[&] { ra = w.Do(a); q.Leave(); }, [&] { rb = w.Do(b); q.Leave(); }, [&] { q.Serve(); }}); runs++;
      if (sr.deadlock || sr.overrun) { fprintf(stderr, "error: two requests block each other: %s %s %s\n", a.Json().s.c_str(), b.Json().s.c_str(), sr.blocked.c_str()); fflush(nullptr); _exit(70); }
      w.conc = nullptr; w.L.be->queue = nullptr; w.Reap(rf); int p = st(w.State().s); w.ws.clear(); w.L.Crash(); int64_t disk = std::max<int64_t>(90000, w.C().GetPresentId(IdEpochType::ID_NEXT_LEASE));
      std::string e = "{\"n\":" + std::to_string(n) + ",\"a\":" + a.Json().s + ",\"b\":" + b.Json().s + ",\"ra\":" + ra.Json().s + ",\"rb\":" + rb.Json().s + ",\"disk\":" + std::to_string(disk) + ",\"fired\":" + J::Arr(rf.fired).s + ",\"p\":" + std::to_string(p) + "}";
      if (seen.insert(e).second) { f.Line(J::Raw(e)); cnt[a.o + "/" + b.o]++; }
    }
  }
  printf("concurrent outcomes %zu of %ld runs, states %zu :", seen.size(), (long)runs, ids.size()); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n"); return 0;
}
int main(int argc, char** argv) { std::string m = argc > 1 ? argv[1] : ""; int r = m == "hist" ? Hist(argc, argv) : m == "rep" ? Rep(argc, argv) : m == "conc" ? Conc(argc, argv) : 77; fflush(nullptr); _exit(r); }
