// Drives the real timestamp oracle and the real auto-increment service of the coordinator: three nodes, one log.
//   ids tso OUT SEED N [len]      histories of the timestamp oracle
//   ids inc OUT SEED N [len]      histories of the auto-increment service
#include "coord.h"
#include "txnlib.h"
#include "coordinator/auto_increment_control.h"
#include "coordinator/tso_control.h"
#include "server/meta_service.h"
using namespace h;
using namespace pb::meta;
template <class Control> struct Group {
  struct Node; struct Pend { std::string data; braft::Closure* done; };
  struct Be : shim::RaftBackend { Node* n; Group* g; braft::NodeOptions o; int init(const braft::NodeOptions& x) override { o = x; return 0; } bool is_leader() override { return n->lead; }
    void apply(const braft::Task& t) override { n->pend.push_back({t.data->to_string(), t.done}); if (g->prop) g->prop(n->id, n->pend.back().data); } };
  struct Node { int id; bool lead = false; int64_t term = 0, base = 0; size_t ap = 0; std::deque<Pend> pend; std::shared_ptr<Be> be; std::shared_ptr<Control> ctl; std::shared_ptr<RaftStoreEngine> eng; std::shared_ptr<MetaServiceImpl> svc; int skew = 0; };
  std::vector<std::unique_ptr<Node>> nodes; std::vector<Entry> log; int64_t term = 0, rid; int active = 0; std::function<void(int, const std::string&)> prop; std::function<void(MetaServiceImpl&, std::shared_ptr<Control>)> wire; std::shared_ptr<RocksRawEngine> raw;
  Group(int64_t r, int n, std::function<void(MetaServiceImpl&, std::shared_ptr<Control>)> w) : rid(r), wire(w) {
    auto c = InitConf("coordinator", "/ids"); c->m["store.path"] = "/ids"; c->m["coordinator.peers"] = "127.0.0.1:22001"; c->m["raft.election_timeout_s"] = "6"; static auto lg = wal::RocksLogStorage::New("/idslog"); Server::GetInstance().log_storage_ = lg;
    for (int i = 0; i < n; i++) { nodes.push_back(std::make_unique<Node>()); nodes[i]->id = i + 1; Fresh(*nodes[i]); }
  }
  void Fresh(Node& n) {
    Fail(n); n.be.reset(); shim::SetRaftFactory([this, &n](const std::string&, const braft::PeerId&) { n.be = std::make_shared<Be>(); n.be->n = &n; n.be->g = this; return n.be; });
    n.ctl = std::make_shared<Control>(); n.ctl->Init(); n.ctl->Recover(); n.eng = std::make_shared<RaftStoreEngine>(nullptr, nullptr, nullptr); n.lead = false; n.ap = 0;
    pb::common::RegionDefinition d; d.set_id(rid); d.set_name("g"); d.mutable_epoch()->set_version(1); d.mutable_epoch()->set_conf_version(1);
    if (!n.eng->AddNode(std::make_shared<pb::common::RegionDefinition>(d), n.ctl, true).ok()) Setup("AddNode");
    n.ctl->SetKvEngine(n.eng); n.svc = std::make_shared<MetaServiceImpl>(); n.svc->SetKvEngine(n.eng); n.svc->SetWorkSet(std::make_shared<InlineWorkers>()); wire(*n.svc, n.ctl);
  }
  void Fail(Node& n) { while (!n.pend.empty()) { auto p = n.pend.front(); n.pend.pop_front(); p.done->status().set_error(EPERM, "not leader"); p.done->Run(); } }
  void Apply(Node& n, const Entry& e, braft::Closure* done) { std::vector<braft::IterEntry> v(1); v[0].index = e.index; v[0].term = e.term; v[0].data.append(e.data); v[0].done = done; braft::Iterator it(&v); n.be->o.fsm->on_apply(it); n.ap = e.index; }
  void Deliver(Node& n) { Apply(n, log[n.ap], nullptr); }
  void Commit(Node& n) { auto p = n.pend.front(); n.pend.pop_front(); log.push_back({(int64_t)log.size() + 1, n.term, p.data}); Apply(n, log.back(), p.done); }
  void Orphan(Node& n) { log.push_back({(int64_t)log.size() + 1, n.term, n.pend.front().data}); n.lead = false; Fail(n); n.be->o.fsm->on_leader_stop(butil::Status(1, "stop")); }
  void Lead(Node& n) { n.lead = true; n.term = ++term; n.be->o.fsm->on_leader_start(n.term); }
  void Stop(Node& n) { n.lead = false; Fail(n); n.be->o.fsm->on_leader_stop(butil::Status(1, "stop")); }
  std::string Save(Node& n, const std::string& dir) { FileSnap w(dir); SnapDone d; n.be->o.fsm->on_snapshot_save(&w, &d); for (int i = 0; i < 1000 && !d.ran; i++) bthread_usleep(1); for (int i = 0; i < 60000 && !d.ran; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); if (!d.ran || !d.status().ok()) Setup("snapshot"); return dir; }
  void Load(Node& n, const std::string& dir, int64_t i, int64_t t) { FileSnapReader r(dir, i, t); if (n.be->o.fsm->on_snapshot_load(&r)) Setup("load"); n.ap = i; }
  Node* True() { for (auto& n : nodes) if (n->lead && n->term == term) return n.get(); return nullptr; }
};
struct Hd : google::protobuf::Closure { std::function<void()> f; void Run() override { f(); } };
static std::string EN(const pb::error::Error& e) { return e.errcode() == 0 ? "ok" : std::to_string(e.errcode()); }
static pb::coordinator_internal::MetaIncrement Inc(const std::string& data) { pb::raft::RaftCmdRequest c; if (!c.ParseFromString(data) || c.requests_size() != 1) Setup("entry"); return c.requests(0).meta_req().meta_increment(); }
// ---- timestamps ----
static const int64_t kT0 = 1700000000000ll;  // the clock starts here; times are recorded relative to it
static int Tso(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = argc > 5 ? atoi(argv[5]) : 60; Watch wd(60); Out f(argv[2]); std::map<std::string, int> cnt; int64_t evs = 0, given = 0;
  int64_t P0 = kT0 - kBaseTimestampMs; auto P = [&](int64_t p) { return p == 0 ? (int64_t)0 : p - P0 + 10000; };  // relative physical; 0 stays 0
  for (int h = 0; h < N; h++) {
    std::vector<std::string> ev; auto E = [&](J j) { ev.push_back(j.s); evs++; }; bool over = false;
    shim::g_virtual_us = kT0 * 1000; 
    auto body = [&] {
      Group<TsoControl> g(Constant::kTsoRegionId, 3, [](MetaServiceImpl& s, std::shared_ptr<TsoControl> c) { s.SetTsoControl(c); }); int64_t now = kT0 * 1000; int open = 0; std::string dir = "/tmp/verif-ids-" + std::to_string(getpid());
      auto V = [&](Group<TsoControl>::Node& n) { auto& o = n.ctl->tso_obj_; return O({{"ph", P(o.current_timestamp.physical())}, {"lo", o.current_timestamp.logical()}, {"sv", P(o.last_save_physical)}}); };
      auto EJ = [&](const std::string& data) { auto m = Inc(data); auto& q = m.timestamp_oracles(0).tso_request(); return O({{"op", q.op_type() == OP_UPDATE_TSO ? "upd" : q.op_type() == OP_RESET_TSO ? "reset" : "other"}, {"ph", P(q.current_timestamp().physical())}, {"lo", q.current_timestamp().logical()}, {"sv", P(q.save_physical())}, {"force", q.force()}}); };
      g.prop = [&](int n, const std::string& d) { E(O({{"e", "prop"}, {"n", n}, {"x", EJ(d)}})); };
      std::vector<std::pair<std::string, std::pair<int64_t, int64_t>>> snaps; std::vector<std::shared_ptr<void>> keep; std::vector<std::unique_ptr<Bthread>> kids; int64_t clock_owner = 0;
      auto at = [&](Group<TsoControl>::Node& n) { int64_t x = shim::g_virtual_us; shim::g_virtual_us = x + n.skew * 1000ll; return x; };
      // let the others run until they all wait; the clock of node n is shown meanwhile
      auto settle = [&](Group<TsoControl>::Node* n, int64_t us = 1) { int64_t s = n ? n->skew * 1000ll : 0; now = std::max(now, shim::g_virtual_us); shim::g_virtual_us += s; bthread_usleep(us); shim::g_virtual_us -= s; };
      auto request = [&](Group<TsoControl>::Node& n, TsoOpType op, int64_t c, int64_t ph, int64_t lo, int64_t sv, bool force, bool must) {
        struct Rq { TsoRequest q; TsoResponse p; brpc::Controller c; Hd d; }; auto x = std::make_shared<Rq>(); keep.push_back(x); x->q.set_op_type(op); x->q.set_count(c); if (op != OP_GEN_TSO && op != OP_QUERY_TSO_INFO) { x->q.mutable_current_timestamp()->set_physical(ph); x->q.mutable_current_timestamp()->set_logical(lo); x->q.set_save_physical(sv); x->q.set_force(force); }
        int id = n.id; open++; auto* pn = &n; int64_t tm = n.lead ? n.term : 0;
        if (op == OP_UPDATE_TSO || op == OP_RESET_TSO) E(O({{"e", "req"}, {"n", id}, {"x", O({{"op", op == OP_UPDATE_TSO ? "upd" : "reset"}, {"ph", P(ph)}, {"lo", lo}, {"sv", P(sv)}, {"force", force}})}}));
        x->d.f = [&, id, op, c, must, xp = x.get()] { open--; if (op == OP_GEN_TSO) { if (xp->p.error().errcode() == 0) given++; E(O({{"e", "gen"}, {"n", id}, {"c", std::min<int64_t>(c, 2000000000)}, {"r", EN(xp->p.error())}, {"ph", P(xp->p.start_timestamp().physical())}, {"lo", xp->p.start_timestamp().logical()}, {"rc", xp->p.count()}, {"must", must}})); } else E(O({{"e", "ans"}, {"n", id}, {"r", EN(xp->p.error())}, {"x", O({{"op", op == OP_UPDATE_TSO ? "upd" : "reset"}, {"ph", P(xp->q.current_timestamp().physical())}, {"lo", xp->q.current_timestamp().logical()}, {"sv", P(xp->q.save_physical())}, {"force", xp->q.force()}})}})); };
        auto svc = n.svc; auto b = std::make_unique<Bthread>(); b->Run([svc, x] { svc->TsoService(&x->c, &x->q, &x->p, &x->d); }); kids.push_back(std::move(b)); settle(&n);
      };
      auto post = [&](const char* e, Group<TsoControl>::Node& n) { E(O({{"e", e}, {"n", n.id}, {"t", n.term}, {"v", V(n)}})); cnt[e]++; };
      auto lead = [&](Group<TsoControl>::Node& n) { while (n.ap < g.log.size()) { g.Deliver(n); post("deliver", n); } int64_t s = n.skew * 1000ll; shim::g_virtual_us += s; n.lead = true; n.term = ++g.term; E(O({{"e", "lead"}, {"n", n.id}, {"t", n.term}})); cnt["lead"]++; n.be->o.fsm->on_leader_start(n.term); shim::g_virtual_us -= s; if (r.P(850)) settle(&n); };
      auto commit = [&](Group<TsoControl>::Node& n) { g.Commit(n); post("commit", n); settle(&n); };
      auto timer = [&](Group<TsoControl>::Node& n) { if (!n.ctl->tso_update_timer_.started()) return; auto c = n.ctl; auto b = std::make_unique<Bthread>(); b->Run([c] { c->UpdateTimestamp(); }); kids.push_back(std::move(b)); settle(&n); };
      for (int i = 0; i < len; i++) {
        wd.Tick(); auto& n = *g.nodes[r.N(3)]; auto* t = g.True(); int q = r.N(1000);
        if (!t && q < 300) { if (!n.lead) lead(n); }
        else if (q < 30) { if (!n.lead) lead(n); }
        else if (q < 250) { if (t && !t->pend.empty() && t->ap == g.log.size()) commit(*t); }
        else if (q < 330) { if (n.ap < g.log.size() && !(n.lead && n.term == g.term)) { if (n.lead) { g.Stop(n); post("stop", n); settle(&n); } g.Deliver(n); post("deliver", n); } }
        else if (q < 370) { if (n.lead && r.P(n.term == g.term ? 300 : 1000)) { g.Stop(n); post("stop", n); settle(&n); } }
        else if (q < 385) { if (t && !t->pend.empty() && t->ap == g.log.size()) { std::string d = t->pend.front().data; E(O({{"e", "orphan"}, {"n", t->id}, {"x", EJ(d)}})); cnt["orphan"]++; g.Orphan(*t); post("stop", *t); settle(t); } }
        else if (q < 480) { int64_t ms = r.P(700) ? r.N(60) : r.N(4000); settle(nullptr, ms * 1000 + 1); }
        else if (q < 590) { if (n.lead) timer(n); else if (t) timer(*t); }
        else if (q < 880) { auto& m = t && r.P(700) ? *t : n; int64_t c = r.P(700) ? 1 + r.N(50) : r.P(500) ? kMaxLogical / 3 + r.N(kMaxLogical / 3) : r.P(500) ? kMaxLogical - r.N(3) : r.P(500) ? -r.N(5) : kMaxLogical + r.N(1000); if (r.P(5)) c = INT64_MAX - r.N(30); request(m, OP_GEN_TSO, c, 0, 0, 0, false, false); }
        else if (q < 920) { auto& m = t && r.P(800) ? *t : n; auto& o = m.ctl->tso_obj_; int64_t ph = o.current_timestamp.physical() + (r.P(400) ? 0 : r.N(7) - 2), sv = o.last_save_physical + (r.P(300) ? 0 : r.N(7) - 2); if (ph <= P0 - 5000) ph = P0 + r.N(50); if (sv <= P0 - 5000) sv = ph + r.N(20); if (sv < ph) sv = ph; bool fo = r.P(60); request(m, r.P(600) ? OP_UPDATE_TSO : OP_RESET_TSO, 0, ph, r.P(500) ? 0 : r.N(100), sv, fo, false); }
        else if (q < 945) { n.skew = r.P(500) ? 0 : (int)r.N(9000) - 4500; }
        else if (q < 965) { auto& m = n; if (m.ap > 0) { std::string d = dir + "-" + std::to_string(snaps.size()); g.Save(m, d); snaps.push_back({d, {m.ap, g.log[m.ap - 1].term}}); E(O({{"e", "save"}, {"n", m.id}, {"k", (int64_t)snaps.size()}})); cnt["save"]++; } }
        else if (q < 985) { bool busy = !n.pend.empty(); g.Stop(n); post("stop", n); settle(&n); if (open == 0) { int k = snaps.empty() || r.P(300) ? 0 : 1 + r.N(snaps.size()); g.Fresh(n); if (k) g.Load(n, snaps[k - 1].first, snaps[k - 1].second.first, snaps[k - 1].second.second); E(O({{"e", "restart"}, {"n", n.id}, {"k", k}, {"v", V(n)}})); cnt["restart"]++; } (void)busy; }
        else if (t) { settle(t, 3000000); }
      }
      // at the end: one leader, everything committed, the timer runs: timestamps must be available again
      for (auto& n : g.nodes) if (n->lead && n->term != g.term) { g.Stop(*n); post("stop", *n); settle(n.get()); }
      auto* t = g.True(); if (!t) { t = g.nodes[r.N(3)].get(); lead(*t); } t->skew = 0; settle(t);
      auto drain = [&] { for (int k = 0; k < 40 && !t->pend.empty(); k++) commit(*t); };
      drain(); for (int k = 0; k < 3; k++) { settle(t, 60000); timer(*t); drain(); } for (int k = 0; k < 220 && (k < 60 || open); k++) { settle(t, 60000); drain(); }
      wd.Tick(); if (open) E(O({{"e", "hang"}})); request(*t, OP_GEN_TSO, 5, 0, 0, 0, false, true); for (int k = 0; k < 60 && open; k++) { settle(t, 60000); drain(); if (k % 5 == 0) { timer(*t); drain(); } }
      if (open) E(O({{"e", "hang"}}));
      for (auto& n : g.nodes) { g.Stop(*n); settle(n.get()); } for (int k = 0; k < 60; k++) settle(nullptr, 60000); for (auto& k : kids) k->Join(); for (auto& s : snaps) std::filesystem::remove_all(s.first);
    };
    shim::SchedOpts so; so.seed = r.Next(); so.preempt_permille = 0; so.max_steps = 3000000; auto sr = shim::RunSched(so, {body});
    if (sr.deadlock || sr.overrun) { fprintf(stderr, "error: blocked %s\n", sr.blocked.c_str()); fflush(nullptr); _exit(70); }
    f.Line(J::Raw("{\"h\":" + J::Arr(ev, [](const std::string& s) { return J::Raw(s); }).s + "}"));
  }
  printf("events %ld histories %d timestamps given %ld :", (long)evs, N, (long)given); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n"); return 0;
}
// ---- auto-increment ----
static int AutoInc(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = argc > 5 ? atoi(argv[5]) : 60; Watch wd(60); Out f(argv[2]); std::map<std::string, int> cnt; int64_t evs = 0;
  auto Q = [](int64_t x) { return J::Raw("[" + std::to_string(x >> 14) + "," + std::to_string(x & 16383) + "]"); };
  for (int h = 0; h < N; h++) {
    std::vector<std::string> ev; auto E = [&](J j) { ev.push_back(j.s); evs++; }; shim::g_virtual_us = kT0 * 1000;
    auto body = [&] {
      Group<AutoIncrementControl> g(Constant::kAutoIncrementRegionId, 3, [](MetaServiceImpl& s, std::shared_ptr<AutoIncrementControl> c) { s.SetAutoIncrementControl(c); }); int open = 0, id = 0, cur = 0; std::string dir = "/tmp/verif-inc-" + std::to_string(getpid());
      auto V = [&](Group<AutoIncrementControl>::Node& n) { std::map<int64_t, int64_t> m; for (auto& p : n.ctl->auto_increment_map_) m[p.first] = p.second; std::vector<std::pair<int64_t, int64_t>> v(m.begin(), m.end()); return J::Arr(v, [&](auto& p) { return O({{"t", p.first}, {"s", Q(p.second)}}); }); };
      g.prop = [&](int n, const std::string& d) { auto m = Inc(d); std::vector<pb::coordinator_internal::MetaIncrementAutoIncrement> v(m.auto_increment().begin(), m.auto_increment().end()); using namespace pb::coordinator_internal;
        E(O({{"e", "prop"}, {"n", n}, {"id", cur}, {"x", J::Arr(v, [&](auto& a) { auto& c = a.increment(); const char* op = a.op_type() == CREATE ? "create" : a.op_type() == DELETE ? "delete" : a.op_type() != UPDATE ? "other" : c.update_type() == READ_MODIFY_WRITE ? "gen" : "set"; return O({{"op", op}, {"t", a.id()}, {"s", Q(c.start_id())}, {"from", Q(c.source_start_id())}, {"c", (int64_t)c.generate_count()}, {"inc", (int64_t)c.increment()}, {"off", (int64_t)c.offset()}}); })}})); };
      std::vector<std::pair<std::string, std::pair<int64_t, int64_t>>> snaps; std::vector<std::shared_ptr<void>> keep; std::vector<std::unique_ptr<Bthread>> kids;
      auto settle = [&] { bthread_usleep(1); };
      auto post = [&](const char* e, Group<AutoIncrementControl>::Node& n) { E(O({{"e", e}, {"n", n.id}, {"t", n.term}, {"v", V(n)}})); cnt[e]++; };
      auto lead = [&](Group<AutoIncrementControl>::Node& n) { while (n.ap < g.log.size()) { g.Deliver(n); post("deliver", n); } E(O({{"e", "lead"}, {"n", n.id}, {"t", g.term + 1}})); cnt["lead"]++; g.Lead(n); settle(); };
      auto commit = [&](Group<AutoIncrementControl>::Node& n) { g.Commit(n); post("commit", n); settle(); };
      auto start = [&] { return r.P(500) ? 1 + r.N(9) : r.P(500) ? (int64_t)r.N(100000) : (1ll << 32) - 20 + (int64_t)r.N(40); };
      auto request = [&](Group<AutoIncrementControl>::Node& n) {
        struct Rq { GetAutoIncrementRequest gq; GetAutoIncrementResponse gp; GetAutoIncrementsRequest aq; GetAutoIncrementsResponse ap; CreateAutoIncrementRequest cq; CreateAutoIncrementResponse cp; UpdateAutoIncrementRequest uq; UpdateAutoIncrementResponse up; GenerateAutoIncrementRequest nq; GenerateAutoIncrementResponse np; DeleteAutoIncrementRequest dq; DeleteAutoIncrementResponse dp; CreateAutoIncrementsRequest csq; CreateAutoIncrementsResponse csp; CreateOrUpdateAutoIncrementsRequest oq; CreateOrUpdateAutoIncrementsResponse op; brpc::Controller c; Hd d; };
        auto x = std::make_shared<Rq>(); keep.push_back(x); auto* p = x.get(); open++; int me = cur = ++id; int64_t t = 1 + r.N(3); auto svc = n.svc; std::function<void()> run; int q = r.N(100); std::string op; std::vector<std::pair<int64_t, int64_t>> grp; int64_t s = 0, c = 0, inc = 0, off = 0; bool force = false;
        auto& real = n.ctl->auto_increment_map_; int64_t* curp = real.seek(t); int64_t cv = curp ? *curp : 0; auto ans = [&, me](const pb::error::Error& e, J a) { open--; E(O({{"e", "ans"}, {"id", me}, {"r", e.errcode() == 0 ? "ok" : e.errcode() == pb::error::ERAFT_NOTLEADER ? "nl" : "err"}, {"a", a}})); };
        auto none = J::Raw("[]");
        if (q < 45) { op = "gen"; c = r.P(800) ? 1 + r.N(30) : r.P(500) ? 100000 - (int64_t)r.N(3) : r.N(2) * 100001; inc = r.P(500) ? 1 : r.P(700) ? 1 + r.N(12) : r.P(700) ? 65535 - (int64_t)r.N(500) : r.N(2) * 65536; off = r.P(500) ? 1 : r.P(700) ? 1 + r.N(12) : r.P(600) ? 65535 - (int64_t)r.N(3) : r.N(2) * 65536; auto& a = x->nq; a.mutable_table_id()->set_entity_id(t); a.set_count(c); a.set_auto_increment_increment(inc); a.set_auto_increment_offset(off); x->d.f = [p, ans, Q] { ans(p->np.error(), J::Raw("[" + Q(p->np.start_id()).s + "," + Q(p->np.end_id()).s + "]")); }; run = [svc, p] { svc->GenerateAutoIncrement(&p->c, &p->nq, &p->np, &p->d); }; }
        else if (q < 57) { op = "create"; s = start(); if (r.P(200)) s = cv; auto& a = x->cq; a.mutable_table_id()->set_entity_id(t); a.set_start_id(s); x->d.f = [p, ans, none] { ans(p->cp.error(), none); }; run = [svc, p] { svc->CreateAutoIncrement(&p->c, &p->cq, &p->cp, &p->d); }; }
        else if (q < 72) { op = "set"; force = r.P(250); s = r.P(700) ? cv + r.N(60) - 10 : start(); if (s < 0) s = 0; auto& a = x->uq; a.mutable_table_id()->set_entity_id(t); a.set_start_id(s); a.set_force(force); x->d.f = [p, ans, none] { ans(p->up.error(), none); }; run = [svc, p] { svc->UpdateAutoIncrement(&p->c, &p->uq, &p->up, &p->d); }; }
        else if (q < 78) { op = "delete"; auto& a = x->dq; a.mutable_table_id()->set_entity_id(t); x->d.f = [p, ans, none] { ans(p->dp.error(), none); }; run = [svc, p] { svc->DeleteAutoIncrement(&p->c, &p->dq, &p->dp, &p->d); }; }
        else if (q < 90) { bool up = r.P(600); op = up ? "restore" : "creates"; int k = 1 + r.N(3); for (int j = 1; j <= k; j++) { int64_t tt = up || r.P(500) ? 1 + (t + j) % 3 : 1 + r.N(3); int64_t* cp = real.seek(tt); grp.push_back({tt, r.P(300) && cp ? *cp + r.N(20) - (r.P(200) ? 5 : 0) : start()}); if (grp.back().second < 0) grp.back().second = 0; }
          auto fill = [&](auto& a) { for (auto& e : grp) { auto* i = a.mutable_table_increment_group()->add_table_increments(); i->set_table_id(e.first); i->set_start_id(e.second); } }; if (up) { fill(x->oq); x->d.f = [p, ans, none] { ans(p->op.error(), none); }; run = [svc, p] { svc->CreateOrUpdateAutoIncrements(&p->c, &p->oq, &p->op, &p->d); }; } else { fill(x->csq); x->d.f = [p, ans, none] { ans(p->csp.error(), none); }; run = [svc, p] { svc->CreateAutoIncrements(&p->c, &p->csq, &p->csp, &p->d); }; } }
        else if (q < 96) { op = "get"; x->gq.mutable_table_id()->set_entity_id(t); x->d.f = [p, ans, Q] { ans(p->gp.error(), J::Raw("[" + Q(p->gp.start_id()).s + "]")); }; run = [svc, p] { svc->GetAutoIncrement(&p->c, &p->gq, &p->gp, &p->d); }; }
        else { op = "gets"; x->d.f = [p, ans, Q] { std::map<int64_t, int64_t> m; for (auto& i : p->ap.table_increments()) m[i.table_id()] = i.start_id(); std::vector<std::pair<int64_t, int64_t>> v(m.begin(), m.end()); ans(p->ap.error(), J::Arr(v, [&](auto& e) { return O({{"t", e.first}, {"s", Q(e.second)}}); })); }; run = [svc, p] { svc->GetAutoIncrements(&p->c, &p->aq, &p->ap, &p->d); }; }
        cnt["op-" + op]++; E(O({{"e", "req"}, {"n", n.id}, {"id", me}, {"op", op}, {"t", t}, {"s", Q(s)}, {"force", force}, {"c", c}, {"inc", inc}, {"off", off}, {"g", J::Arr(grp, [&](auto& e) { return O({{"t", e.first}, {"s", Q(e.second)}}); })}}));
        auto b = std::make_unique<Bthread>(); b->Run([run] { run(); }); kids.push_back(std::move(b)); settle(); cur = 0;
      };
      auto stop = [&](Group<AutoIncrementControl>::Node& n) { g.Stop(n); post("stop", n); settle(); };
      for (int i = 0; i < len; i++) {
        wd.Tick(); auto& n = *g.nodes[r.N(3)]; auto* t = g.True(); int q = r.N(1000);
        if (!t && q < 400) { if (!n.lead) lead(n); }
        else if (q < 15) { if (!n.lead) lead(n); }
        else if (q < 380) { if (t && !t->pend.empty() && t->ap == g.log.size()) commit(*t); }
        else if (q < 470) { if (n.ap < g.log.size() && !(n.lead && n.term == g.term)) { if (n.lead) stop(n); g.Deliver(n); post("deliver", n); } }
        else if (q < 490) { if (n.lead && r.P(n.term == g.term ? 300 : 1000)) stop(n); }
        else if (q < 505) { if (t && !t->pend.empty() && t->ap == g.log.size()) { E(O({{"e", "orphan"}, {"n", t->id}})); cnt["orphan"]++; g.Orphan(*t); post("stop", *t); settle(); } }
        else if (q < 900) request(t && r.P(900) ? *t : n);
        else if (q < 930) { if (n.ap > 0) { std::string d = dir + "-" + std::to_string(snaps.size()); g.Save(n, d); snaps.push_back({d, {n.ap, g.log[n.ap - 1].term}}); E(O({{"e", "save"}, {"n", n.id}})); cnt["save"]++; } }
        else if (q < 945) { stop(n); if (open == 0) { int k = snaps.empty() || r.P(300) ? 0 : 1 + r.N(snaps.size()); g.Fresh(n); if (k) g.Load(n, snaps[k - 1].first, snaps[k - 1].second.first, snaps[k - 1].second.second); E(O({{"e", "restart"}, {"n", n.id}, {"k", k}, {"v", V(n)}})); cnt["restart"]++; } }
        else if (q < 955) { int k = snaps.empty() ? 0 : 1 + r.N(snaps.size()); if (k && (size_t)snaps[k - 1].second.first > n.ap && !n.lead) { g.Load(n, snaps[k - 1].first, snaps[k - 1].second.first, snaps[k - 1].second.second); E(O({{"e", "restart"}, {"n", n.id}, {"k", k}, {"v", V(n)}})); cnt["install"]++; } }
      }
      auto* t = g.True(); for (int k = 0; t && k < 60 && !t->pend.empty(); k++) commit(*t);
      for (auto& n : g.nodes) { g.Stop(*n); settle(); } for (int k = 0; k < 20 && open; k++) settle(); if (open) E(O({{"e", "hang"}}));
      for (auto& n : g.nodes) while (n->ap < g.log.size()) { g.Deliver(*n); post("deliver", *n); }
      for (auto& k : kids) k->Join(); for (auto& s : snaps) std::filesystem::remove_all(s.first);
    };
    shim::SchedOpts so; so.seed = r.Next(); so.preempt_permille = 0; so.max_steps = 3000000; auto sr = shim::RunSched(so, {body});
    if (sr.deadlock || sr.overrun) { fprintf(stderr, "error: blocked %s\n", sr.blocked.c_str()); fflush(nullptr); _exit(70); }
    f.Line(J::Raw("{\"h\":" + J::Arr(ev, [](const std::string& s) { return J::Raw(s); }).s + "}"));
  }
  printf("events %ld histories %d :", (long)evs, N); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n"); return 0;
}
int main(int argc, char** argv) { std::string m = argc > 1 ? argv[1] : ""; int r = m == "tso" ? Tso(argc, argv) : m == "inc" ? AutoInc(argc, argv) : 77; fflush(nullptr); _exit(r); }
