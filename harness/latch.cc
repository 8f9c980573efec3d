// latch seq OUT DEPTH SLOTS SEED RANDOM | latch svc OUT SLOTS SEED COUNT SYSTEMATIC
#include <algorithm>
#include "common/latch.h"
#include "common/synchronization.h"
#include "meta/store_meta_manager.h"
#include "server/service_helper.h"
#include "shim/sched.h"
#include "trie.h"
using namespace dingodb;
static std::vector<std::string> Keys() {
  std::vector<std::string> k = {"alpha", "beta", "gamma"};
  std::sort(k.begin(), k.end(), [](auto& a, auto& b) { return Lock({a}).requiredHashes[0] < Lock({b}).requiredHashes[0]; });
  return k;
}
struct Op { char o; int c; int ks; int d; };  // a acquire, t retry, r release, k release and hand over (ks) to d
struct World {
  Latches l; std::vector<std::string> k; 
  struct C { int ph = 0; int ks = 0; std::unique_ptr<Lock> lock; bool begun = false; };  // ph 0 idle 1 wait 2 woken 3 hold
  C c[4];
  World(int slots, const std::vector<std::string>& kk) : l(slots), k(kk) {}
  std::vector<std::string> Sel(int m) { std::vector<std::string> r; for (int i = 2; i >= 0; i--) if (m >> i & 1) r.push_back(k[i]); return r; }
  static h::J KJ(int m) { std::vector<int> v; for (int i = 0; i < 3; i++) if (m >> i & 1) v.push_back(i + 1); return h::J::Arr(v); }
  std::vector<Op> Enabled() {
    std::vector<Op> r;
    for (int i = 1; i <= 3; i++) {
      if (c[i].ph == 0 && (i == 1 || c[i - 1].begun)) for (int m = 1; m < 8; m++) r.push_back({'a', i, m, 0});
      if (c[i].ph == 2) r.push_back({'t', i, 0, 0});
      if (c[i].ph == 3) { r.push_back({'r', i, 0, 0});
        for (int d = 1; d <= 3; d++) if (d != i && c[d].ph == 0) for (int m = 1; m < 8; m++) if ((m & c[i].ks) == m) { r.push_back({'k', i, m, d}); break; } }
    }
    return r;
  }
  int Do(const Op& o, h::Trie& t, int node) {
    h::J op, res; bool ok = true; std::vector<uint64_t> w;
    if (o.o == 'a') { c[o.c].begun = true; c[o.c].ks = o.ks; c[o.c].lock = std::make_unique<Lock>(Sel(o.ks)); ok = l.Acquire(c[o.c].lock.get(), o.c); c[o.c].ph = ok ? 3 : 1; op = h::O({{"o", "acq"}, {"c", o.c}, {"k", KJ(o.ks)}}); }
    else if (o.o == 't') { ok = l.Acquire(c[o.c].lock.get(), o.c); c[o.c].ph = ok ? 3 : 1; op = h::O({{"o", "try"}, {"c", o.c}}); }
    else if (o.o == 'r') { w = l.Release(c[o.c].lock.get(), o.c, std::nullopt); c[o.c].ph = 0; op = h::O({{"o", "rel"}, {"c", o.c}}); }
    else { auto nl = std::make_unique<Lock>(Sel(o.ks)); nl->ForceAssumeAcquired(); w = l.Release(c[o.c].lock.get(), o.c, std::make_pair((uint64_t)o.d, nl.get())); c[o.c].ph = 0; c[o.d].begun = true; c[o.d].ks = o.ks; c[o.d].lock = std::move(nl); c[o.d].ph = 3; op = h::O({{"o", "keep"}, {"c", o.c}, {"d", o.d}, {"k", KJ(o.ks)}}); }
    std::sort(w.begin(), w.end());
    for (auto x : w) if (x >= 1 && x <= 3 && c[x].ph == 1) c[x].ph = 2;
    res = h::O({{"ok", ok}, {"w", h::J::Arr(w)}});
    return t.Child(node, op.s, res.s);
  }
};
static int Seq(char** a) {
  h::Trie t; int depth = atoi(a[1]), slots = atoi(a[2]); h::Rng rng(atoi(a[3])); int nrand = atoi(a[4]);
  auto keys = Keys();
  std::function<void(std::vector<Op>&)> dfs = [&](std::vector<Op>& path) {
    World w(slots, keys); int node = 0; for (auto& o : path) node = w.Do(o, t, node);
    if ((int)path.size() >= depth) return;
    for (auto& o : w.Enabled()) { path.push_back(o); dfs(path); path.pop_back(); }
  };
  std::vector<Op> p; dfs(p);
  for (int i = 0; i < nrand; i++) { World w(slots, keys); int node = 0; for (int j = 0; j < 30; j++) { auto e = w.Enabled(); if (e.empty()) break; node = w.Do(e[rng.N(e.size())], t, node); } }
  t.Write(a[0]); printf("nodes %zu\n", t.n.size()); return 0;
}
static int Svc(char** a) {
  h::Out out(a[0]); if (gflags::SetCommandLineOption("latch_slot_num", a[1]).empty()) h::Setup("latch_slot_num"); h::Rng rng(atoi(a[2])); int count = atoi(a[3]); bool sys = atoi(a[4]);
  auto keys = Keys(); int64_t n = 0; std::set<std::string> seen;
  auto one = [&](const std::vector<std::vector<int>>& plan, shim::SchedOpts so) {
    auto region = store::Region::New(1); std::vector<h::J> ev;
    std::vector<std::function<void()>> bodies;
    for (size_t c = 0; c < plan.size(); c++) bodies.push_back([&, c] {
      for (int m : plan[c]) {
        std::vector<std::string> ks; for (int i = 0; i < 3; i++) if (m >> i & 1) ks.push_back(keys[i]);
        { LatchContext ctx(region, ks);
          ev.push_back(h::O({{"e", "begin"}, {"c", (int)c + 1}, {"k", World::KJ(m)}}));
          ServiceHelper::LatchesAcquire(ctx, c % 2 == 0);
          ev.push_back(h::O({{"e", "grant"}, {"c", (int)c + 1}, {"k", World::KJ(m)}}));
          shim::SchedPoint();
          ev.push_back(h::O({{"e", "rel"}, {"c", (int)c + 1}, {"k", World::KJ(m)}}));
          ServiceHelper::LatchesRelease(ctx);
          ev.push_back(h::O({{"e", "end"}, {"c", (int)c + 1}, {"k", World::KJ(m)}}));
        }
      }
    });
    auto r = shim::RunSched(so, bodies);
    if (r.deadlock || r.overrun) ev.push_back(h::O({{"e", "stuck"}, {"c", 0}, {"k", h::J::Arr(std::vector<int>{})}}));
    auto j = h::O({{"ev", h::J::Arr(ev)}}); n++;
    if (seen.insert(j.s).second) out.Line(j);
    return r;
  };
  if (sys) {  // every schedule with at most `count` preemptions of small plans
    std::vector<std::vector<std::vector<int>>> plans = {{{3}, {3}, {3}}, {{1, 2}, {3}, {3}}, {{1}, {3}, {2}}, {{1, 1}, {1, 1}}, {{3}, {6}, {5}}, {{7}, {1}, {2}, {4}}};
    for (auto& p : plans) { std::vector<int> prefix; int64_t lim = 0; do { shim::SchedOpts so; so.systematic = true; so.prefix = prefix; auto r = one(p, so); if (!shim::NextPrefix(r, count, &prefix)) break; } while (++lim < 20000); }
  } else for (int i = 0; i < count; i++) {
    std::vector<std::vector<int>> p; int th = 2 + rng.N(3); for (int c = 0; c < th; c++) { std::vector<int> v; int k = 1 + rng.N(3); while (k--) v.push_back(1 + rng.N(7)); p.push_back(v); }
    shim::SchedOpts so; so.seed = rng.Next(); so.preempt_permille = 100 + rng.N(600); one(p, so);
  }
  printf("runs %ld distinct %zu\n", (long)n, seen.size()); return 0;
}
int main(int argc, char** argv) {
  if (argc < 5) h::Setup("arguments");
  return std::string(argv[1]) == "seq" ? Seq(argv + 2) : Svc(argv + 2);
}
