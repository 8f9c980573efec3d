// Drives the real transaction service over a pool of store contents and records single steps.
//   txn edges OUT SEED N FOCUS...     FOCUS: operation names whose steps are recorded
#include "txnlib.h"
#include "shim/sched.h"
using namespace h;
struct Gen {
  Rng& r; const St& s;
  int key() { return 1 + r.N(3); }
  std::vector<int64_t> starts() { std::vector<int64_t> v; for (auto& l : s.l) v.push_back(l.lock_ts()); for (auto& w : s.w) { v.push_back(w.s); } return v; }
  int64_t ts() { return 1 + r.N(11); }
  int64_t start() { auto v = starts(); if (!v.empty() && r.P(750)) return v[r.N(v.size())]; return ts(); }
  int64_t lockstart(int k) { for (auto& l : s.l) if (KI(l.key()) == k && r.P(800)) return l.lock_ts(); return start(); }
  int64_t anyts() { std::vector<int64_t> v = starts(); for (auto& w : s.w) v.push_back(w.c); for (auto& l : s.l) if (l.min_commit_ts()) v.push_back(l.min_commit_ts()); if (!v.empty() && r.P(500)) return std::max<int64_t>(1, v[r.N(v.size())] + r.N(3) - 1); return ts(); }
  std::vector<int> keys() { std::vector<int> v; int a = 1 + r.N(3); for (int i = 0; i < a; i++) { int k = key(); if (std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k); } return v; }
  std::vector<int> txnkeys(int64_t t) { std::vector<int> v; for (auto& l : s.l) if (l.lock_ts() == t) v.push_back(KI(l.key())); if (v.empty() || r.P(300)) return keys(); if (v.size() > 1 && r.P(300)) v.pop_back(); if (r.P(200)) std::reverse(v.begin(), v.end()); return v; }
  const LockInfo* lockat(int k) { for (auto& l : s.l) if (KI(l.key()) == k) return &l; return nullptr; }
  Op make(const std::string& o) {
    Op p; p.o = o; p.mono = r.P(200); p.mt = r.P(500) ? 0 : r.N(10);
    if (o == "get" || o == "bget" || o == "scan") { p.rc = r.P(150); p.s = anyts(); p.ks = o == "get" ? std::vector<int>{key()} : keys(); if (r.P(250)) for (auto& l : s.l) if (r.P(600)) p.rl.push_back(l.lock_ts()); if (o == "scan") { p.ks.clear(); p.a = r.P(600) ? 0 : r.N(4); p.b = r.P(600) ? 4 : p.a + 1 + r.N(4 - p.a); p.lim = 1 + r.N(4); } }
    else if (o == "scanlock") { p.s = anyts(); p.a = r.P(600) ? 0 : r.N(4); p.b = r.P(600) ? 4 : p.a + 1 + r.N(4 - p.a); p.lim = 1 + r.N(4); }
    else if (o == "plock") { p.s = start(); for (int k : keys()) p.mu.push_back({r.P(970) ? 'L' : 'P', k, r.P(700) ? 0 : (int)(1 + r.N(2))}); p.p = r.P(700) ? p.mu[0].k : key(); p.ttl = 1 + r.N(9); p.fu = r.P(700) ? p.s + r.N(5) : anyts(); if (r.P(300)) if (auto* l = lockat(p.mu[0].k)) if (l->for_update_ts()) p.fu = l->for_update_ts(); p.rv = r.P(400); }
    else if (o == "prb") { p.s = start(); p.ks = txnkeys(p.s); p.fu = r.P(600) ? p.s + r.N(5) : ts(); if (r.P(400)) if (auto* l = lockat(p.ks[0])) if (l->for_update_ts()) p.fu = l->for_update_ts(); }
    else if (o == "prewrite" || o == "prewrite1" || o == "prewritep") {
      p.o = "prewrite"; p.s = start();
      bool pess = o == "prewritep"; for (auto& l : s.l) if (l.lock_type() == pb::store::Lock && l.lock_ts() == p.s) pess = r.P(850);
      for (int k : pess ? txnkeys(p.s) : keys()) { static const char ops[] = "PPPPDDAC"; char c = ops[r.N(pess && r.P(950) ? 7 : 8)]; int v = c == 'P' || c == 'A' ? (r.P(30) ? 0 : 1 + (int)r.N(3)) : 0; p.mu.push_back({c, k, v}); }
      p.p = r.P(800) ? p.mu[0].k : key(); p.ttl = 1 + r.N(9); p.sz = 1 + r.N(2); p.mc = r.P(500) ? 0 : p.s + r.N(4); p.maxc = r.P(700) ? 0 : p.s + r.N(6);
      if (o == "prewrite1" || r.P(150)) { p.onepc = r.P(500); if (!p.onepc || r.P(300)) { for (auto& m : p.mu) if (m.k != p.p) p.sec.push_back(m.k); if (p.sec.empty() || r.P(200)) p.sec.push_back(1 + p.p % 3); } }
      if (pess || r.P(50)) for (auto& m : p.mu) { auto* l = lockat(m.k); bool c = l ? l->lock_type() == pb::store::Lock && r.P(950) : r.P(500); p.pc.push_back(c); p.fc.push_back(c && r.P(400) ? (r.P(700) && l && l->for_update_ts() ? l->for_update_ts() : p.s + 1 + r.N(3)) : 0); }
      if (r.P(100)) for (auto& m : p.mu) { (void)m; p.ex.push_back(r.N(3)); }
    }
    else if (o == "commit") { p.ks = {key()}; p.s = lockstart(p.ks[0]); p.ks = txnkeys(p.s); p.c = r.P(850) ? p.s + 1 + r.N(5) : anyts(); if (r.P(300)) for (auto& w : s.w) if (w.s == p.s) p.c = w.c; }
    else if (o == "rollback") { p.s = start(); p.ks = txnkeys(p.s); }
    else if (o == "cts") { p.p = key(); for (auto& l : s.l) if (r.P(400)) p.p = KI(l.primary_lock()); p.s = lockstart(p.p); p.c = r.P(500) ? 0 : anyts(); p.cur = r.P(500) ? 1 + r.N(4) : 8 + r.N(5); p.force = r.P(300); p.rine = r.P(500); }
    else if (o == "csl") { p.s = start(); p.ks = txnkeys(p.s); }
    else if (o == "resolve") { p.s = start(); p.c = r.P(500) ? 0 : p.s + 1 + r.N(5); for (auto& w : s.w) if (w.s == p.s && w.op != "R" && r.P(800)) p.c = w.c; int q = r.N(10); if (q < 5) p.ks = txnkeys(p.s); else if (q < 7) {} else { std::set<int64_t> seen; int n = 1 + r.N(2); for (int i = 0; i < n; i++) { int64_t t = start(); if (seen.insert(t).second) p.ti.push_back({t, r.P(500) ? 0 : t + 1 + r.N(5)}); } std::sort(p.ti.begin(), p.ti.end()); p.s = p.c = 0; } }
    else if (o == "hb") { p.p = key(); p.s = lockstart(p.p); p.ttl = 1 + r.N(10); }
    else if (o == "gc") { p.s = anyts(); }
    return p;
  }
};
// States a client that follows the protocol can leave behind: a transaction has at most one record per key, its long value is there.
static bool WellFormed(const St& s) {
  std::set<std::pair<int, int64_t>> seen;
  for (auto& w : s.w) { if (!seen.insert({w.k, w.s}).second) return false; if (w.op == "P" && w.v == 0) { bool ok = false; for (auto& d : s.d) ok |= d.k == w.k && d.s == w.s; if (!ok) return false; } }
  for (auto& l : s.l) if (seen.count({KI(l.key()), l.lock_ts()})) return false;
  return true;
}
static int Edges(int argc, char** argv) {
  std::string out = argv[2]; Rng r(atoi(argv[3])); int N = atoi(argv[4]); std::set<std::string> focus; for (int i = 5; i < argc; i++) focus.insert(argv[i]);
  TxnWorld w(std::string("/txn")); Watch wd; Out f(out);
  struct E { shim::RocksDump d; St s; };
  std::vector<E> pool; std::map<std::string, int> idx; std::set<std::string> seen;
  auto add = [&](const shim::RocksDump& d0) { shim::RocksDump d = Only(d0); St s = Decode(d); std::string j = StateJ(s); auto i = idx.find(j); if (i != idx.end()) return i->second; int n = pool.size(); idx[j] = n; pool.push_back({d, s}); f.Line(J::Raw("{\"st\":" + j + "}")); return n; };
  auto base = shim::RocksGetContent(w.w.DbPath());
  auto set = [&](const shim::RocksDump& d) { auto m = shim::RocksGetContent(w.w.DbPath()); for (auto& [k, v] : d) m[k] = v; shim::RocksSetContent(w.w.DbPath(), m); };
  add(base);
  static const std::vector<std::string> all = {"get", "bget", "scan", "scanlock", "plock", "prb", "prewrite", "prewrite1", "prewritep", "commit", "rollback", "cts", "csl", "resolve", "hb", "gc"};
  static const std::vector<std::string> movers = {"plock", "plock", "prewrite", "prewrite", "prewrite", "prewrite1", "prewritep", "prewritep", "commit", "commit", "commit", "commit", "rollback", "cts", "csl", "resolve", "hb", "gc"};
  std::vector<std::string> fo; for (auto& o : all) if (focus.count(o) || (o.compare(0, 8, "prewrite") == 0 && focus.count("prewrite"))) fo.push_back(o);
  int rec = 0, steps = 0; std::vector<int> live{0}; std::map<std::string, int> cnt;
  std::vector<int> mids; int depth = 0, cur = 0;
  // pessimistic transactions commit in an order unrelated to their start timestamps
  for (int i = 0; i < 60; i++) {
    set(base.empty() ? Only({}) : Only(base)); w.rr->txn_access_max_ts_ = 0; wd.Tick();
    std::vector<int> ss{1, 2, 3, 4, 5, 6, 7}; for (int j = 6; j > 0; j--) std::swap(ss[j], ss[r.N(j + 1)]);
    int n = 2 + r.N(3); int64_t c = 7; 
    for (int t = 0; t < n; t++) {
      std::vector<int> ks{1 + (int)r.N(2)}; if (r.P(500)) ks = {1, 2}; int64_t s = ss[t]; int v = 1 + r.N(3); bool del = r.P(200);
      if (r.P(200)) { Op b; b.o = "rollback"; b.s = s; b.ks = ks; w.Do(b); continue; }
      Op l; l.o = "plock"; l.s = s; l.fu = c; l.ttl = 9; l.p = ks[0]; for (int k : ks) l.mu.push_back({'L', k, 0}); w.Do(l);
      Op p; p.o = "prewrite"; p.s = s; p.p = ks[0]; p.ttl = 9; for (int k : ks) { p.mu.push_back({del ? 'D' : 'P', k, del ? 0 : v}); p.pc.push_back(1); p.fc.push_back(0); } w.Do(p);
      c += 1; Op m; m.o = "commit"; m.s = s; m.c = c; m.ks = ks; w.Do(m);
      int pn = add(shim::RocksGetContent(w.w.DbPath())); if (WellFormed(pool[pn].s)) live.push_back(pn);
    }
  }
  shim::SetRocksWriteHook({});
  while (rec < N && steps < N * 20) {
    wd.Tick(); steps++;
    int n = depth > 0 ? cur : live[r.P(500) ? r.N(live.size()) : std::max<int>(0, (int)live.size() - 1 - r.N(200))]; depth = depth > 0 ? depth - 1 : r.N(4);
    bool mv = r.P(450); const std::string& o = mv ? movers[r.N(movers.size())] : fo[r.N(fo.size())];
    Gen g{r, pool[n].s}; Op op = g.make(o); bool want = focus.count(op.o) || focus.count(o);
    set(pool[n].d); w.rr->txn_access_max_ts_ = op.mt; w.rm->txn_access_max_ts_ = op.mt;
    if (op.o == "gc") { Flag("gc_delete_batch_count", 1 + (int)r.N(3)); op.lim = r.P(300) ? 1 + r.N(2) : 0; }
    mids.clear(); int nw = 0; std::vector<shim::RocksDump> md;
    shim::SetRocksWriteHook([&](const shim::RocksWrite& b) { if (nw++) md.push_back(Only(shim::RocksGetContent(w.w.DbPath()))); 
      if (op.o == "gc" && nw == op.lim) w.w.meta->GetGCSafePointManager()->SetGcFlagAndSafePointTs({{0, op.s}}, true);  // collection is switched off in the middle
      return rocksdb::Status::OK(); });
    bool sw = (op.o == "scan" || op.o == "scanlock") && r.P(400); w.between = {};
    if (sw) w.between = [&](int) { set(pool[live[r.N(live.size())]].d); };  // other transactions change the region between two pages
    Res res = w.Do(op); shim::SetRocksWriteHook({}); if (sw) set(pool[n].d);
    auto post = shim::RocksGetContent(w.w.DbPath()); int pn = add(post);
    std::set<int> ms; for (auto& d : md) { int m = add(d); if (m != n && m != pn) ms.insert(m); }
    auto& ps = pool[pn].s;
    if (WellFormed(ps) && ps.w.size() <= 7 && ps.l.size() <= 3 && (pn != n) && (int)live.size() < 60000) { if (std::find(live.end() - std::min<size_t>(live.size(), 50), live.end(), pn) == live.end()) live.push_back(pn); cur = pn; } else cur = n;
    if (want) { std::string e = "{\"n\":" + std::to_string(n + 1) + ",\"op\":" + op.Json().s + ",\"res\":" + res.Json().s + ",\"p\":" + std::to_string(pn + 1) + ",\"mid\":" + J::Arr(ms, [](int x) { return x + 1; }).s + "}"; if (seen.insert(e).second) { f.Line(J::Raw(e)); rec++; cnt[op.o]++; } }
  }
  printf("edges %d steps %d states %zu :", rec, steps, pool.size()); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n");
  return 0;
}
// Two operations at the same time: every recorded line is (state, both operations, both results, final state).
static int Conc(int argc, char** argv) {
  std::string out = argv[2]; Rng r(atoi(argv[3])); int N = atoi(argv[4]);
  TxnWorld w(std::string("/txn")); Watch wd(60); Out f(out);
  struct E { shim::RocksDump d; St s; };
  std::vector<E> pool; std::map<std::string, int> idx; std::set<std::string> seen;
  auto add = [&](const shim::RocksDump& d0) { shim::RocksDump d = Only(d0); St s = Decode(d); std::string j = StateJ(s); auto i = idx.find(j); if (i != idx.end()) return i->second; int n = pool.size(); idx[j] = n; pool.push_back({d, s}); f.Line(J::Raw("{\"st\":" + j + "}")); return n; };
  auto set = [&](const shim::RocksDump& d) { auto m = shim::RocksGetContent(w.w.DbPath()); for (auto& [k, v] : d) m[k] = v; shim::RocksSetContent(w.w.DbPath(), m); };
  add(shim::RocksGetContent(w.w.DbPath()));
  static const std::vector<std::string> A = {"prewrite", "prewrite1", "prewrite1", "prewrite1", "prewritep", "commit", "commit", "rollback", "plock", "resolve", "cts", "csl", "prb", "hb"};
  static const std::vector<std::string> B = {"get", "bget", "scan", "get", "bget", "scan", "prewrite", "prewrite1", "commit", "rollback", "plock", "cts", "csl", "resolve", "hb", "prb"};
  std::vector<int> live{0}; int rec = 0, cur = 0, depth = 0; int64_t runs = 0, stuck = 0;
  auto keysof = [](const Op& o) { std::set<int> k(o.ks.begin(), o.ks.end()); for (auto& m : o.mu) k.insert(m.k); if (o.o == "cts" || o.o == "hb") k.insert(o.p); if (o.o == "scan" || !o.ti.empty()) k = {1, 2, 3}; return k; };
  for (int step = 0; step < N * 20 && rec < N; step++) {
    wd.Tick();
    int n = depth > 0 ? cur : live[r.N(live.size())]; depth = depth > 0 ? depth - 1 : r.N(4);
    { Gen g{r, pool[n].s}; static const std::vector<std::string> mv = {"plock", "prewrite", "prewrite", "prewrite1", "commit", "commit", "commit", "rollback"}; Op op = g.make(mv[r.N(mv.size())]); set(pool[n].d); w.rr->txn_access_max_ts_ = op.mt; w.rm->txn_access_max_ts_ = op.mt; w.Do(op); int pn = add(shim::RocksGetContent(w.w.DbPath())); if (pn != n && WellFormed(pool[pn].s) && pool[pn].s.w.size() <= 5 && live.size() < 20000) { live.push_back(pn); cur = pn; } }
    Op a, b; { Gen g{r, pool[n].s}; for (int t = 0; t < 20; t++) { a = g.make(A[r.N(A.size())]); b = g.make(B[r.N(B.size())]); auto ka = keysof(a), kb = keysof(b); bool share = false; for (int k : ka) share |= kb.count(k); if (share) break; } }
    a.mono = b.mono = r.P(500); int64_t mt = a.mt; b.mt = mt; if (b.o == "scan") b.lim = 4;
    if (b.o == "get" || b.o == "bget" || b.o == "scan") { b.rc = false; if (a.o == "prewrite" && r.P(600)) b.s = a.s + r.N(4); }
    int tries = 6;
    for (int t = 0; t < tries; t++) {
      set(pool[n].d); w.rr->txn_access_max_ts_ = mt; w.rm->txn_access_max_ts_ = mt; Res ra, rb;
      shim::SchedOpts so; so.seed = r.Next(); so.preempt_permille = 60 + r.N(500); so.max_steps = 50000;
      auto sr = shim::RunSched(so, {[&] { ra = w.Do(a); }, [&] { rb = w.Do(b); }}); runs++;
      if (sr.deadlock || sr.overrun) { stuck++; fprintf(stderr, "error: two requests block each other: %s %s %s\n", a.Json().s.c_str(), b.Json().s.c_str(), sr.blocked.c_str()); fflush(nullptr); _exit(70); }
      int pn = add(shim::RocksGetContent(w.w.DbPath()));
      std::map<std::string, LockInfo> ml; auto region = w.Region(a); region->GetMemoryLocks(ml);
      std::string e = "{\"n\":" + std::to_string(n + 1) + ",\"a\":" + a.Json().s + ",\"b\":" + b.Json().s + ",\"ra\":" + ra.Json().s + ",\"rb\":" + rb.Json().s + ",\"p\":" + std::to_string(pn + 1) + ",\"ml\":" + std::to_string(ml.size()) + ",\"am\":" + std::to_string(region->TxnAccessMaxTs()) + "}";
      if (seen.insert(e).second) { f.Line(J::Raw(e)); rec++; }
    }
  }
  printf("concurrent pairs %d runs %ld states %zu\n", rec, (long)runs, pool.size()); return 0;
}
// Whole histories: clients that follow the commit protocol (or stop anywhere), readers, and others cleaning up after them.
static int Proto(int argc, char** argv) {
  std::string out = argv[2]; Rng r(atoi(argv[3])); int N = atoi(argv[4]);
  TxnWorld w(std::string("/txn")); Watch wd; Out f(out);
  std::map<std::string, int> idx; shim::RocksDump empty = Only({});
  auto set = [&](const shim::RocksDump& d) { auto m = shim::RocksGetContent(w.w.DbPath()); for (auto& [k, v] : d) m[k] = v; shim::RocksSetContent(w.w.DbPath(), m); };
  auto state = [&] { St s = Decode(Only(shim::RocksGetContent(w.w.DbPath()))); std::string j = StateJ(s); auto i = idx.find(j); if (i != idx.end()) return i->second; int n = idx.size() + 1; idx[j] = n; f.Line(J::Raw("{\"st\":" + j + "}")); return n; };
  struct Cl { int kind; std::vector<int> ks, done; int64_t st = 0, fu = 0, c = 0, mc = 0; int phase = 0; bool asy = false; int v; bool del; };  // kind 0 2pc 1 async 2 1pc 3 pess
  enum { NEW, LOCK, PRE, TS, COM, ABORT, END };
  int64_t acks = 0, rds = 0, aborts = 0;
  for (int h = 0; h < N; h++) {
    wd.Tick(); set(empty); w.rr->txn_access_max_ts_ = 0;
    int64_t clock = 1; std::vector<Cl> cl; int n = 2 + r.N(3), mix = r.N(6);
    for (int i = 0; i < n; i++) { Cl c; c.kind = mix < 4 ? mix : r.N(4); for (int k = 1; k <= 3; k++) if (r.P(700)) c.ks.push_back(k); if (c.ks.empty()) c.ks.push_back(1); if (r.P(500)) std::reverse(c.ks.begin(), c.ks.end()); c.v = 1 + r.N(3); c.del = r.P(150); cl.push_back(c); }
    std::vector<std::string> ev; int prev = state();
    std::vector<std::string> log;
    auto run = [&](Op& op) { op.mt = 0; Res x = w.Do(op); log.push_back(op.Json().s); return x; };
    auto ok = [](const Res& x) { return x.e == 0 && x.t.empty() && x.ae.empty(); };
    auto emit = [&](const std::string& e) { int s = state(); if (s != prev || !e.empty()) ev.push_back("{\"p\":" + std::to_string(s) + (e.empty() ? "" : "," + e) + "}"); prev = s; };
    auto left = [](const Cl& c) { std::vector<int> v; for (int k : c.ks) if (std::find(c.done.begin(), c.done.end(), k) == c.done.end()) v.push_back(k); return v; };
    auto some = [&](const Cl& c, bool first) { auto v = left(c); if (first && c.done.empty() && r.P(500)) return std::vector<int>{c.ks[0]}; if (first && c.done.empty()) { int m = 1 + r.N(v.size()); v.resize(m); return v; } std::vector<int> o; for (int k : v) if (r.P(600)) o.push_back(k); if (o.empty()) o.push_back(v[0]); return o; };
    int steps = 12 + r.N(30);
    for (int t = 0; t < steps; t++) {
      int q = r.N(100);
      if (q < 18) {  // a reader
        if (clock < 2) continue;
        Op o; o.s = 1 + r.N(clock - 1); if (r.P(400)) o.s = clock - 1; o.o = r.P(500) ? "get" : r.P(500) ? "bget" : "scan"; o.ks = o.o == "get" ? std::vector<int>{1 + (int)r.N(3)} : std::vector<int>{1, 2, 3}; o.lim = 1 + r.N(3);
        Res x = run(o); std::vector<std::string> vs; if (x.e == 0 && o.o != "scan" && x.t.empty()) for (size_t i = 0; i < o.ks.size(); i++) if (i < x.kv.size()) vs.push_back("[" + std::to_string(o.ks[i]) + "," + std::to_string(o.s) + "," + x.kv[i].s.substr(x.kv[i].s.find("\"v\":") + 4, 1) + "]");
        if (o.o == "scan" && x.e == 0 && !x.pg.empty() && x.pg.back().s.find("locked") == std::string::npos) { std::string all; for (auto& p : x.pg) all += p.s; for (int k = 1; k <= 3; k++) { std::string key = "{\"k\":" + std::to_string(k) + ",\"v\":"; auto i = all.find(key); vs.push_back("[" + std::to_string(k) + "," + std::to_string(o.s) + "," + (i == std::string::npos ? "0" : all.substr(i + key.size(), 1)) + "]"); } }
        if (!vs.empty()) { std::string e = "\"rd\":["; for (size_t i = 0; i < vs.size(); i++) e += (i ? "," : "") + vs[i]; emit(e + "]"); rds++; }
      } else if (q < 32) {  // somebody meets a lock
        St s = Decode(Only(shim::RocksGetContent(w.w.DbPath()))); if (s.l.empty() || clock < 2) continue;
        auto l = s.l[r.N(s.l.size())]; bool late = r.P(500);
        Op o; o.o = "cts"; o.p = KI(l.primary_lock()); o.s = l.lock_ts(); o.c = clock - 1; o.cur = late ? 1000 : 0; o.rine = true; o.mono = false;
        auto cts = [&](bool force) { pb::store::TxnCheckTxnStatusRequest a; pb::store::TxnCheckTxnStatusResponse b; SetCtx(a.mutable_context(), 10); a.set_primary_key(K(o.p)); a.set_lock_ts(o.s); a.set_caller_start_ts(o.c); a.set_current_ts(o.cur); a.set_force_sync_commit(force); a.set_rollback_if_not_exist(true); w.w.Call(&StoreServiceImpl::TxnCheckTxnStatus, a, b); log.push_back(o.Json().s); return b; };
        auto b = cts(false); if (b.error().errcode()) continue; emit("");
        int64_t c = -1; std::vector<int> keys{KI(l.key())};
        if (b.commit_ts()) c = b.commit_ts();
        else if (b.action() == pb::store::TTLExpireRollback || b.action() == pb::store::LockNotExistRollback) c = 0;
        else if (b.txn_result().has_locked() && b.txn_result().locked().use_async_commit() && late) {
          auto pl = b.txn_result().locked(); pb::store::TxnCheckSecondaryLocksRequest a; pb::store::TxnCheckSecondaryLocksResponse sb; SetCtx(a.mutable_context(), 10); a.set_start_ts(o.s); for (auto& k : pl.secondaries()) a.add_keys(k);
          if (pl.secondaries_size()) w.w.Call(&StoreServiceImpl::TxnCheckSecondaryLocks, a, sb);
          if (sb.error().errcode()) continue; emit("");
          keys = {KI(pl.key())}; for (auto& k : pl.secondaries()) keys.push_back(KI(k));
          if (sb.commit_ts()) c = sb.commit_ts(); else if (sb.locks_size() == pl.secondaries_size()) { c = pl.min_commit_ts(); bool all = true; for (auto& x : sb.locks()) { c = std::max<int64_t>(c, x.min_commit_ts()); all &= x.use_async_commit(); } if (!all) { c = -1; auto b2 = cts(true); emit(""); keys = {KI(l.key())}; if (b2.commit_ts()) c = b2.commit_ts(); else if (b2.action() == pb::store::TTLExpireRollback || b2.action() == pb::store::LockNotExistRollback) c = 0; } } else c = 0;
        }
        if (c < 0) continue;
        Op o2; o2.o = "resolve"; o2.s = l.lock_ts(); o2.c = c; o2.ks = keys; if (r.P(300)) { o2.ks.clear(); o2.ti = {{o2.s, c}}; o2.s = o2.c = 0; } run(o2); emit("");
      } else {
        auto& c = cl[r.N(cl.size())];
        if (c.phase == NEW) { c.st = c.fu = clock++; c.phase = c.kind == 3 ? LOCK : PRE; }
        else if (c.phase == LOCK) { auto ks = some(c, true); Op o; o.o = "plock"; o.s = c.st; o.fu = c.fu; o.p = c.ks[0]; o.ttl = 5; o.rv = r.P(300); for (int k : ks) o.mu.push_back({'L', k, 0}); Res x = run(o); if (ok(x)) { for (int k : ks) c.done.push_back(k); if (left(c).empty()) { c.done.clear(); c.phase = PRE; } } else { c.fu = clock++; if (r.P(200)) { c.phase = ABORT; } } emit(""); }
        else if (c.phase == PRE) {
          auto ks = c.kind == 2 ? c.ks : some(c, true); Op o; o.o = "prewrite"; o.s = c.st; o.p = c.ks[0]; o.ttl = 5; o.sz = 1;
          for (int k : ks) o.mu.push_back({c.del && k == 2 ? 'D' : 'P', k, c.del && k == 2 ? 0 : c.v});
          if (c.kind == 0) o.mc = c.st + 1; if (c.kind == 2) o.onepc = true; if (c.kind == 3) for (size_t i = 0; i < ks.size(); i++) { o.pc.push_back(1); o.fc.push_back(0); }
          if (c.kind == 1) { for (size_t i = 1; i < c.ks.size(); i++) o.sec.push_back(c.ks[i]); if (o.sec.empty()) c.kind = 0; }
          if (r.P(150)) o.maxc = c.st + 1 + r.N(3);
          Res x = run(o);
          if (ok(x)) {
            if (c.kind == 2 && x.c) { c.c = x.c; c.phase = END; emit("\"ack\":" + std::to_string(c.st) + ",\"ks\":" + J::Arr(c.ks).s); acks++; }
            else { if (c.kind == 1 && c.done.empty()) c.asy = true; if (c.kind == 1 && !x.m) c.asy = false; for (int k : ks) c.done.push_back(k); c.mc = std::max(c.mc, x.m);
              if (left(c).empty()) { c.phase = TS; if (c.kind == 1 && c.asy) { emit("\"ack\":" + std::to_string(c.st) + ",\"ks\":" + J::Arr(c.ks).s); acks++; } else emit(""); } else emit(""); }
          } else { if (x.e == 0 && !x.t.empty() && x.t[0].s.find("locked") != std::string::npos && r.P(700)) { emit(""); } else { if (c.kind == 1 && left(c).empty()) c.phase = END; else c.phase = ABORT; aborts++; emit(""); } }
        }
        else if (c.phase == TS) { if (c.kind == 1 && c.asy) c.c = c.mc; else c.c = clock++; if (c.c >= clock) clock = c.c + 1; c.done.clear(); c.phase = COM; }
        else if (c.phase == COM) {
          auto ks = some(c, !(c.kind == 1 && c.asy)); Op o; o.o = "commit"; o.s = c.st; o.c = c.c; o.ks = ks; Res x = run(o);
          if (ok(x)) { bool first = c.done.empty(); for (int k : ks) c.done.push_back(k); if (left(c).empty()) c.phase = END; if (first) { emit("\"ack\":" + std::to_string(c.st) + ",\"ks\":" + J::Arr(c.ks).s); acks++; } else emit(""); }
          else { if (!x.t.empty() && x.t[0].s.find("\"ce\"") != std::string::npos) c.c = clock++; else c.phase = c.done.empty() && !(c.kind == 1 && c.asy) ? ABORT : END; emit(""); }
        }
        else if (c.phase == ABORT) { Op o; o.o = c.kind == 3 ? "prb" : "rollback"; o.s = c.st; o.fu = c.fu; o.ks = c.ks; run(o); c.phase = END; emit(""); }
      }
    }
    if (!ev.empty()) { std::string e = "{\"kinds\":["; bool fst = true; for (auto& c : cl) if (c.st) { e += std::string(fst ? "" : ",") + "[" + std::to_string(c.st) + "," + std::to_string(c.kind) + "]"; fst = false; } e += "],\"ev\":["; for (size_t i = 0; i < ev.size(); i++) e += (i ? "," : "") + ev[i]; e += "],\"log\":["; for (size_t i = 0; i < log.size(); i++) e += (i ? "," : "") + log[i]; f.Line(J::Raw(e + "]}")); }
  }
  printf("histories %d states %zu acks %ld aborts %ld reads %ld\n", N, idx.size(), (long)acks, (long)aborts, (long)rds); return 0;
}
int main(int argc, char** argv) { std::string m = argc > 1 ? argv[1] : ""; int r = m == "edges" ? Edges(argc, argv) : m == "conc" ? Conc(argc, argv) : m == "proto" ? Proto(argc, argv) : 1; fflush(nullptr); _exit(r); }
