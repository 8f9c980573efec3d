// Jobs and heartbeats: the real coordinator against stand-in stores that hold replicas of regions, lag behind their leader, change
// leaders, lose replies and report late.
#pragma once
struct JobWorld {
  Coord c; Rng& r; std::vector<std::string> ev; std::map<std::string, int> cnt; int fault = 0, downexec = 0; int64_t down = 0; bool nochild = false; static const int64_t B = 30000; int ns;
  struct Rep { int64_t lo, hi, v, cv; std::string st; std::set<int64_t> ps; size_t at = 0; bool fresh = false; };
  struct Op { int k; int64_t a, b, v; std::set<int64_t> ps; };                   // 1 split(to, key) 2 prepare merge(to) 3 commit merge(from) 4 peers
  struct Grp { std::vector<Op> log; int64_t lead = 0; };
  std::map<int64_t, Grp> G; std::map<int64_t, std::map<int64_t, Rep>> S; std::map<int64_t, std::set<int64_t>> done; std::vector<pb::coordinator::StoreHeartbeatRequest> late; std::vector<J> sent;
  static std::string K(int64_t k) { return std::string("w0000000") + (char)('A' + k); }
  static int64_t UK(const std::string& s) { return s.size() == 9 && s[0] == 'w' ? s[8] - 'A' : s == Helper::GenMaxStartKey() ? 999 : s.empty() ? -1 : 998; }
  template <class P> static std::set<int64_t> Ps(const P& d) { std::set<int64_t> s; for (auto& p : d.peers()) s.insert(p.store_id() - B); return s; }
  JobWorld(const std::string& p, Rng& rr, int n) : c(p), r(rr), ns(n) {
    shim::SetRpcHandler([this](const butil::EndPoint& e, const google::protobuf::MethodDescriptor* m, brpc::Controller* k, const google::protobuf::Message* q, google::protobuf::Message* a) {
      if (m->name() != "PushStoreOperation") Setup("rpc " + m->name()); Push(e.port - 20000 - B, *static_cast<const pb::push::PushStoreOperationRequest*>(q), *static_cast<pb::push::PushStoreOperationResponse*>(a), k); });
    c.L.Lead(); for (int i = 1; i <= ns; i++) c.Store(B + i);
  }
  ~JobWorld() { shim::SetRpcHandler({}); }
  // the stores
  bool Member(int64_t id, int64_t s) { auto& g = G[id]; return S[s].count(id) && g.lead && S[g.lead].count(id) && S[g.lead][id].ps.count(s); }
  void Elect(int64_t id, bool move) {
    auto& g = G[id]; if (g.lead && S[g.lead].count(id) && !move) return; int64_t old = g.lead && S[g.lead].count(id) ? g.lead : 0; std::vector<int64_t> v; size_t top = 0; std::set<int64_t> ps;
    for (auto& [s, m] : S) if (m.count(id) && !m[id].fresh) { if (m[id].at >= top) { if (m[id].at > top || ps.empty()) ps = m[id].ps; top = m[id].at; } }
    int have = 0; for (auto s : ps) if (S[s].count(id)) { have++; if (!S[s][id].fresh && S[s][id].at == top) v.push_back(s); }
    if (have * 2 <= (int)ps.size() || v.empty()) { if (!old) g.lead = 0; return; } g.lead = v[r.N(v.size())];
  }
  bool Step1(int64_t s, int64_t id) {   // the replica applies its next entry
    auto& g = G[id]; if (!S[s].count(id)) return false; auto& x = S[s][id];
    if (x.fresh) { if (!Member(id, s)) return false; auto y = S[g.lead][id]; if (y.fresh || y.st == "MERGING") return false; x = y; return true; }
    if (x.at >= g.log.size()) return false; auto o = g.log[x.at];
    if (o.k == 1) { auto it = S[s].find(o.a); if (it == S[s].end()) { if (o.v) { S[s][o.a] = Rep{999, x.lo, 1, 1, "STANDBY", x.ps}; } else { nochild = true; x.at++; return true; } } auto& y = S[s][o.a]; y.lo = x.lo; y.hi = o.b; y.v = 2; y.st = "NORMAL"; x.lo = o.b; x.v++; }
    if (o.k == 2) { x.st = "MERGING"; x.v++; }
    if (o.k == 3) { auto it = S[s].find(o.a); if (it != S[s].end()) { while (it->second.st != "MERGING" && Step1(s, o.a)) ; auto& y = it->second; if (y.st != "MERGING") return false; int64_t v = std::max(x.v, y.v) + 1; if (y.hi == x.lo) x.lo = y.lo; else x.hi = y.hi; x.v = v; y.st = "TOMBSTONE"; y.v++; y.lo = 999; } else { nochild = true; } }
    if (o.k == 4) { x.ps = o.ps; x.cv++; }
    x.at++; if (o.k == 1) Elect(o.a, false); return true;
  }
  void Catch(int64_t s, int64_t id, bool all) { while (Step1(s, id) && all) ; }
  void Add(int64_t id, Op o) { G[id].log.push_back(o); Catch(G[id].lead, id, true); }
  pb::error::Errno Exec(int64_t s, const pb::coordinator::RegionCmd& q, int64_t& other) {
    using namespace pb::coordinator; auto id = q.region_id(); bool has = S[s].count(id); auto& g = G[id];
    if (done[s].count(q.id())) return pb::error::EREGION_REPEAT_COMMAND;
    if (fault && r.N(1000) < fault) return pb::error::EINTERNAL;
    auto lead = [&] { if (!has) return pb::error::EREGION_NOT_FOUND; if (g.lead != s) { other = g.lead ? g.lead + B : 0; if (fault && r.P(200)) other = 0; return pb::error::ERAFT_NOTLEADER; } Catch(s, id, true); return S[s][id].st == "NORMAL" ? pb::error::OK : pb::error::EREGION_STATE; };
    pb::error::Errno e = pb::error::OK;
    switch (q.region_cmd_type()) {
      case CMD_CREATE: { if (has) return pb::error::EREGION_EXIST; auto& d = q.create_request().region_definition(); bool isnew = false; for (auto& [z, m] : S) if (m.count(id)) isnew = true;
        Rep x{UK(d.range().start_key()), UK(d.range().end_key()), d.epoch().version(), d.epoch().conf_version(), q.create_request().split_from_region_id() > 0 ? "STANDBY" : "NORMAL", Ps(d)}; x.fresh = isnew && g.lead && S[g.lead].count(id) && !S[g.lead][id].ps.count(s); S[s][id] = x; Elect(id, false); break; }
      case CMD_DELETE: if (!has) return pb::error::EREGION_NOT_FOUND; S[s].erase(id); if (g.lead == s) { g.lead = 0; Elect(id, false); } break;
      case CMD_SPLIT: { e = lead(); if (e) return e; auto& p = q.split_request(); auto& x = S[s][id]; int64_t k = UK(p.split_watershed_key()); if (k <= x.lo || k >= x.hi) return pb::error::EKEY_INVALID;
        if (!p.store_create_region()) for (auto z : x.ps) { if (!S[z].count(p.split_to_region_id())) return pb::error::EREGION_NOT_FOUND; if (S[z][p.split_to_region_id()].st != "STANDBY") return pb::error::EREGION_STATE; } Add(id, {1, p.split_to_region_id(), k, p.store_create_region()}); break; }
      case CMD_MERGE: { e = lead(); if (e) return e; auto t = q.merge_request().target_region_id(); if (!S[s].count(t)) return pb::error::EREGION_NOT_FOUND; auto& x = S[s][id]; Elect(t, false); if (!G[t].lead) return pb::error::EREGION_STATE; Catch(G[t].lead, t, true); auto& y = S[G[t].lead][t]; if (y.st != "NORMAL" || x.ps != y.ps) return pb::error::EREGION_STATE; if (x.hi != y.lo && y.hi != x.lo) return pb::error::EMERGE_RANGE_NOT_MATCH;
        Add(id, {2, t, 0, 0}); G[t].log.push_back({3, id, 0, 0}); Catch(G[t].lead, t, true); break; }
      case CMD_CHANGE_PEER: { e = lead(); if (e) return e; auto ps = Ps(q.change_peer_request().region_definition()); for (auto z : ps) if (!S[z].count(id)) return pb::error::EREGION_NOT_FOUND; for (auto z : ps) if (S[z][id].fresh) S[z][id] = S[s][id];  /* a new peer catches up first */ Add(id, {4, 0, 0, 0, ps}); if (!ps.count(s)) { std::vector<int64_t> v(ps.begin(), ps.end()); auto z = v[r.N(v.size())]; Catch(z, id, true); g.lead = z; } break; }
      case CMD_TRANSFER_LEADER: { e = lead(); if (e) return e; auto z = q.transfer_leader_request().peer().store_id() - B; if (!S[s][id].ps.count(z) || !S[z].count(id)) return pb::error::EILLEGAL_PARAMTETERS; Catch(z, id, true); g.lead = z; break; }
      default: Setup("command " + std::to_string(q.region_cmd_type()));
    }
    done[s].insert(q.id()); return e;
  }
  static std::string EN(int e) { using namespace pb::error; return e == OK ? "ok" : e == EREGION_REPEAT_COMMAND ? "repeat" : e == EREGION_EXIST ? "exist" : e == EREGION_NOT_FOUND ? "notfound" : e == ERAFT_NOTLEADER ? "notleader" : "other"; }
  void Push(int64_t s, const pb::push::PushStoreOperationRequest& q, pb::push::PushStoreOperationResponse& a, brpc::Controller* k) {
    std::vector<J> ids, res; for (auto& x : q.store_operation().region_cmds()) ids.push_back(x.id());
    bool lost = s == down || (fault && r.P(fault)); bool exec = !lost || r.P(s == down ? downexec : 500); bool bad = false; a.Clear();
    if (exec) for (auto& x : q.store_operation().region_cmds()) { int64_t other = 0; auto e = Exec(s, x, other); if (e != pb::error::OK) bad = true; auto* o = a.add_region_cmd_results(); o->set_region_cmd_id(x.id()); o->set_region_cmd_type(x.region_cmd_type()); o->mutable_error()->set_errcode(e); if (other) o->mutable_error()->set_store_id(other);
      res.push_back(O({{"c", x.id()}, {"e", EN(e)}, {"o", other ? other - B : 0}})); cnt["cmd " + std::to_string(x.region_cmd_type()) + (lost ? " lost" : " " + EN(e))]++; }
    if (bad) a.mutable_error()->set_errcode(pb::error::EINTERNAL); if (lost) { a.Clear(); k->SetFailed(EHOSTDOWN, "down"); }
    sent.push_back(O({{"s", s}, {"to", q.store_operation().store_id() - B}, {"c", J::Arr(ids)}, {"a", lost ? "lost" : bad ? "res" : "ok"}, {"res", J::Arr(res)}}));
  }
  // what the coordinator shows
  J SetJ(const std::set<int64_t>& s) { return J::Arr(s); }
  J Cmd(const pb::coordinator::RegionCmd& q) {
    using namespace pb::coordinator; int64_t a = 0, b = 0, d = 0; std::set<int64_t> ps; auto t = q.region_cmd_type(); std::string k = "other";
    if (t == CMD_CREATE) { k = "create"; auto& x = q.create_request(); a = UK(x.region_definition().range().start_key()); b = UK(x.region_definition().range().end_key()); d = x.split_from_region_id(); ps = Ps(x.region_definition()); if (x.region_definition().id() != q.region_id()) k = "other"; }
    if (t == CMD_DELETE) { k = "delete"; if (q.delete_request().region_id() != q.region_id()) k = "other"; }
    if (t == CMD_SPLIT) { k = "split"; a = q.split_request().split_to_region_id(); b = UK(q.split_request().split_watershed_key()); d = q.split_request().store_create_region(); if (q.split_request().split_from_region_id() != q.region_id()) k = "other"; }
    if (t == CMD_MERGE) { k = "merge"; a = q.merge_request().target_region_id(); if (q.merge_request().source_region_id() != q.region_id()) k = "other"; }
    if (t == CMD_CHANGE_PEER) { k = "peers"; ps = Ps(q.change_peer_request().region_definition()); if (q.change_peer_request().region_definition().id() != q.region_id()) k = "other"; }
    if (t == CMD_TRANSFER_LEADER) { k = "transfer"; a = q.transfer_leader_request().peer().store_id() - B; }
    return O({{"c", q.id()}, {"k", k}, {"r", q.region_id()}, {"a", a}, {"b", b}, {"d", d}, {"ps", SetJ(ps)}});
  }
  J Pre(const pb::coordinator::TaskPreCheck& p) {
    using namespace pb::coordinator; std::string k = "none", st; int64_t s = 0, id = 0, lo = -1, hi = -1; std::set<int64_t> ps;
    if (p.type() == REGION_CHECK) { k = "region"; auto& x = p.region_check(); id = x.region_id(); if (x.state()) st = pb::common::RegionState_Name(x.state()).substr(7); if (x.has_range()) { lo = UK(x.range().start_key()); hi = UK(x.range().end_key()); } ps = Ps(x); }
    if (p.type() == STORE_REGION_CHECK) { k = "store"; auto& x = p.store_region_check(); id = x.region_id(); s = x.store_id() - B; if (x.store_region_state()) st = pb::common::StoreRegionState_Name(x.store_region_state()); ps = Ps(x); if (x.has_range() || x.raft_node_status()) k = "other"; }
    return O({{"k", k}, {"s", s}, {"r", id}, {"st", st}, {"lo", lo}, {"hi", hi}, {"ps", SetJ(ps)}});
  }
  J Jobs() {
    butil::FlatMap<int64_t, pb::coordinator::Job> m; m.init(100); c.C().GetJobAll(m); std::map<int64_t, J> o;
    for (auto& [id, j] : m) { std::vector<J> ts; for (auto& t : j.tasks()) { std::vector<J> ops; for (auto& x : t.store_operations()) { std::vector<J> cs; for (auto& q : x.region_cmds()) cs.push_back(Cmd(q)); ops.push_back(O({{"s", x.store_id() - B}, {"p", Pre(x.pre_check())}, {"cs", J::Arr(cs)}, {"ok", x.is_success()}, {"rc", x.retry_count()}})); }
        std::vector<int64_t> dr; for (auto& x : t.coordinator_operations()) dr.push_back(x.drop_region_operation().region_id()); ts.push_back(O({{"ops", J::Arr(ops)}, {"dr", J::Arr(dr)}})); }
      o[id] = O({{"id", id}, {"nm", j.name()}, {"nx", j.next_step()}, {"ts", J::Arr(ts)}}); }
    std::vector<J> v; for (auto& [id, j] : o) v.push_back(j); return J::Arr(v);
  }
  std::map<int64_t, pb::common::Region> Regs() { pb::common::RegionMap m; c.C().GetRegionMapFull(m); std::map<int64_t, pb::common::Region> o; for (auto& x : m.regions()) o[x.id()] = x; return o; }
  J RegsJ() { std::vector<J> v; for (auto& [id, x] : Regs()) { auto& d = x.definition(); v.push_back(O({{"id", id}, {"st", pb::common::RegionState_Name(x.state()).substr(7)}, {"lo", UK(d.range().start_key())}, {"hi", UK(d.range().end_key())}, {"cv", d.epoch().conf_version()}, {"v", d.epoch().version()}, {"ps", SetJ(Ps(d))}})); } return J::Arr(v); }
  void Ev(const std::string& e, std::initializer_list<std::pair<const char*, J>> l) { std::string s = O(l).s; s.pop_back(); ev.push_back("{\"e\":" + Q(e) + (s.size() > 1 ? "," + s.substr(1) : "") + ",\"rs\":" + RegsJ().s + ",\"js\":" + Jobs().s + "}"); }
  // what happens
  pb::coordinator::StoreHeartbeatRequest Compose(int64_t s, std::set<int64_t> only, bool partial, bool upd) {
    pb::coordinator::StoreHeartbeatRequest q; auto* st = q.mutable_store(); int64_t id = B + s; st->set_id(id); st->set_keyring("TO_BE_CONTINUED"); st->set_state(pb::common::STORE_NORMAL); st->set_in_state(pb::common::STORE_IN); st->set_store_type(pb::common::NODE_TYPE_STORE);
    st->mutable_server_location()->set_host("127.0.0.1"); st->mutable_server_location()->set_port(20000 + id); st->mutable_raft_location()->set_host("127.0.0.1"); st->mutable_raft_location()->set_port(21000 + id);
    auto* m = q.mutable_store_metrics(); m->set_id(id); m->set_is_partial_region_metrics(partial); m->set_is_update_epoch_version(upd); auto all = c.C().GetStore(id); auto locs = [&](int64_t z) { return c.C().GetStore(B + z); };
    for (auto& [rid, x] : S[s]) { if (partial && !only.count(rid)) continue; if (x.st == "MERGING") continue; auto& g = G[rid]; auto& o = (*m->mutable_region_metrics_map())[rid]; o.set_id(rid); o.set_leader_store_id(fault && r.P(100) ? 0 : g.lead ? g.lead + B : 0);
      o.set_store_region_state(x.st == "NORMAL" ? pb::common::NORMAL : x.st == "STANDBY" ? pb::common::STANDBY : pb::common::TOMBSTONE); o.mutable_braft_status()->set_raft_state(g.lead == s ? pb::common::STATE_LEADER : pb::common::STATE_FOLLOWER); o.set_snapshot_epoch_version(INT64_MAX);
      auto* d = o.mutable_region_definition(); auto rg = Regs(); if (rg.count(rid)) *d = rg[rid].definition(); d->set_id(rid); d->mutable_range()->set_start_key(x.lo == 999 ? Helper::GenMaxStartKey() : K(x.lo)); d->mutable_range()->set_end_key(K(x.hi)); d->mutable_epoch()->set_version(x.v); d->mutable_epoch()->set_conf_version(x.cv); d->clear_peers();
      for (auto z : x.ps) { auto* p = d->add_peers(); p->set_store_id(B + z); auto sx = locs(z); *p->mutable_server_location() = sx.server_location(); *p->mutable_raft_location() = sx.raft_location(); } }
    return q;
  }
  void Beat(const pb::coordinator::StoreHeartbeatRequest& q) {
    auto a = c.X(&CoordinatorServiceImpl::StoreHeartbeat, q); auto& m = q.store_metrics(); std::map<int64_t, J> v; for (auto& [id, x] : m.region_metrics_map()) { auto& d = x.region_definition(); v[id] = O({{"id", id}, {"st", pb::common::StoreRegionState_Name(x.store_region_state())}, {"lo", UK(d.range().start_key())}, {"hi", UK(d.range().end_key())}, {"cv", d.epoch().conf_version()}, {"v", d.epoch().version()}, {"ps", SetJ(Ps(d))}, {"ld", x.braft_status().raft_state() == pb::common::STATE_LEADER}, {"ls", x.leader_store_id() ? x.leader_store_id() - B : 0}}); }
    std::vector<J> l; for (auto& [id, x] : v) l.push_back(x); cnt["hb"]++; Ev("hb", {{"s", m.id() - B}, {"pt", m.is_partial_region_metrics()}, {"up", m.is_update_epoch_version()}, {"ok", a.error().errcode() == 0}, {"m", J::Arr(l)}});
  }
  void Proc() { sent.clear(); down = fault && r.P(80) ? 1 + r.N(ns) : 0; downexec = r.P(500) ? 1000 : 0; c.C().ProcessJobList(); cnt["proc"]++; Ev("proc", {{"sent", J::Arr(sent)}}); }
  int64_t AnyReg() { std::vector<int64_t> v; for (auto& [id, x] : Regs()) v.push_back(id); return v.empty() ? 0 : v[r.N(v.size())]; }
  bool Busy(int64_t id) { butil::FlatMap<int64_t, pb::coordinator::Job> m; m.init(100); c.C().GetJobAll(m); for (auto& [k, j] : m) for (auto& t : j.tasks()) for (auto& x : t.store_operations()) for (auto& q : x.region_cmds()) if (q.region_id() == id || q.merge_request().target_region_id() == id || q.split_request().split_to_region_id() == id) return true; return false; }
  void Create(int64_t lo, int64_t hi, int n) {
    pb::coordinator::CreateRegionRequest q; q.set_region_name("x"); q.set_replica_num(n); q.mutable_range()->set_start_key(K(lo)); q.mutable_range()->set_end_key(K(hi)); q.set_region_type(pb::common::STORE_REGION); q.set_raw_engine(pb::common::RAW_ENG_ROCKSDB); q.set_store_engine(pb::common::STORE_ENG_RAFT_STORE); q.set_schema_id(2);
    auto a = c.X(&CoordinatorServiceImpl::CreateRegion, q); cnt[std::string("create") + E(a.error())]++; Ev("req", {{"k", "create"}, {"r", 0}, {"a", lo}, {"b", hi}, {"d", n}, {"ps", SetJ({})}, {"ok", a.error().errcode() == 0}});
  }
  void Req() {
    if (r.P(30)) { int64_t lo = 10 + r.N(36), hi = lo + 1 + r.N(12); Create(lo, hi, r.P(600) ? 3 : 2); return; }
    int x = r.N(100); auto id = AnyReg(); if (!id) return; auto rg = Regs(); if (rg.size() > 1 && r.P(250)) { Settle(); rg = Regs(); id = AnyReg(); if (!id) return; } for (int i = 0; i < 4 && Busy(id) && r.P(550); i++) id = AnyReg(); if (Busy(id) && r.P(400)) { Proc(); int64_t s = 1 + r.N(ns); if (!S[s].empty()) { for (auto& [z, y] : S[s]) if (r.P(500)) Catch(s, z, true); auto q = Compose(s, {}, false, false); if (q.store_metrics().region_metrics_map_size()) { Keep(q); Beat(q); } } return; } bool idle = rg.size() > 1; for (auto& [z, y] : rg) idle = idle && !Busy(z); if (idle && r.P(450)) x = 50; if (rg.size() < 2 && x >= 40 && x < 65) x = 10; auto& d = rg[id].definition(); int64_t a = 0, b = 0, dd = 0; std::set<int64_t> ps; std::string k; pb::error::Error err;
    if (x < 40) { int64_t lo = UK(d.range().start_key()), hi = UK(d.range().end_key()); Split(id, lo < hi ? lo + r.N(hi - lo + 1) : 5, r.P(300)); return; }
    else if (x < 65) { k = "merge"; a = AnyReg(); bool adj = r.P(850); for (auto& [z, y] : rg) if (adj && z != id && (y.definition().range().start_key() == d.range().end_key() || y.definition().range().end_key() == d.range().start_key())) a = z; pb::coordinator::MergeRegionRequest q; q.mutable_merge_request()->set_source_region_id(id); q.mutable_merge_request()->set_target_region_id(a); err = c.X(&CoordinatorServiceImpl::MergeRegion, q).error(); }
    else if (x < 88) { ps = Ps(d); int64_t z = 1 + r.N(ns); if (ps.count(z)) ps.erase(z); else ps.insert(z); if (r.P(60)) { z = 1 + r.N(ns); if (ps.count(z)) ps.erase(z); else ps.insert(z); } if (!ps.empty()) Peers(id, ps); return; }
    else if (x < 96) { k = "transfer"; a = 1 + r.N(ns); pb::coordinator::TransferLeaderRegionRequest q; q.set_region_id(id); q.set_leader_store_id(B + a); err = c.X(&CoordinatorServiceImpl::TransferLeaderRegion, q).error(); }
    else { if (Busy(id) || rg.size() < 3) return; k = "drop"; pb::coordinator::DropRegionRequest q; q.set_region_id(id); err = c.X(&CoordinatorServiceImpl::DropRegion, q).error(); }
    cnt[k + E(err)]++; Ev("req", {{"k", k}, {"r", id}, {"a", a}, {"b", b}, {"d", dd}, {"ps", SetJ(ps)}, {"ok", err.errcode() == 0}});
  }
  void Settle() { for (int i = 0; i < 2; i++) { for (auto& [s, m] : S) { std::vector<int64_t> ids; for (auto& [id, x] : m) ids.push_back(id); for (auto id : ids) Catch(s, id, true); } for (int s = 1; s <= ns; s++) Beat(Compose(s, {}, false, false)); Proc(); } }
  void Peers(int64_t id, const std::set<int64_t>& ps) { pb::coordinator::ChangePeerRegionRequest q; auto* f = q.mutable_change_peer_request()->mutable_region_definition(); f->set_id(id); for (auto z : ps) f->add_peers()->set_store_id(B + z); auto err = c.X(&CoordinatorServiceImpl::ChangePeerRegion, q).error(); cnt[std::string("peers") + E(err)]++; Ev("req", {{"k", "peers"}, {"r", id}, {"a", 0}, {"b", 0}, {"d", 0}, {"ps", SetJ(ps)}, {"ok", err.errcode() == 0}}); }
  void Split(int64_t id, int64_t b, bool sc) { pb::coordinator::SplitRegionRequest q; auto* s = q.mutable_split_request(); s->set_split_from_region_id(id); s->set_split_watershed_key(K(b)); s->set_store_create_region(sc); auto err = c.X(&CoordinatorServiceImpl::SplitRegion, q).error(); cnt[std::string("split") + E(err)]++; Ev("req", {{"k", "split"}, {"r", id}, {"a", 0}, {"b", b}, {"d", (int)sc}, {"ps", SetJ({})}, {"ok", err.errcode() == 0}}); }
  // known: a change of peers which is taken and not carried out
  void Ignored() { for (int i = 0; i < 4; i++) Settle(); auto id = AnyReg(); Split(id, 20, true); for (int i = 0; i < 6; i++) Settle(); auto rg = Regs(); auto ps = Ps(rg[id].definition()); int64_t other = 0; for (auto& [z, y] : rg) if (z != id) other = z; if (!other) return; c.Crash(); Ev("crash", {});
    int64_t last = *ps.rbegin(); for (auto z : ps) { if (z != last) Beat(Compose(z, {}, false, false)); } Beat(Compose(last, {other}, true, false)); auto to = ps; if (ps.size() == 3) to.erase(last); else for (int z = 1; z <= ns; z++) if (!ps.count(z)) { to.insert(z); break; } Peers(id, to); }
  void Keep(const pb::coordinator::StoreHeartbeatRequest& q) { bool ld = false; for (auto& [id, x] : q.store_metrics().region_metrics_map()) ld = ld || x.braft_status().raft_state() == pb::common::STATE_LEADER; if (fault && r.P(ld ? 500 : 100)) late.push_back(q); if (late.size() > 6) late.erase(late.begin() + r.N(3)); }
  void Random() {
    int x = r.N(100); int64_t s = 1 + r.N(ns);
    if (x < 24) Proc();
    else if (x < 44) { auto q = Compose(s, {}, false, false); if (q.store_metrics().region_metrics_map_size() == 0) return; Keep(q); Beat(q); }
    else if (x < 52) { std::vector<int64_t> v; for (auto& [id, y] : S[s]) v.push_back(id); if (v.empty()) return; std::set<int64_t> o{v[r.N(v.size())], v[r.N(v.size())]}; auto q = Compose(s, o, true, r.P(500)); if (q.store_metrics().region_metrics_map_size() == 0) return; Keep(q); Beat(q); }
    else if (x < 58) { if (!late.empty()) { auto k = r.N(late.size()); auto q = late[k]; late.erase(late.begin() + k); Beat(q); } }
    else if (x < 78) { for (auto& [id, y] : S[s]) if (r.P(700)) { Catch(s, id, r.P(600)); break; } }
    else if (x < 81) { if (!S[s].empty()) { auto it = S[s].begin(); std::advance(it, r.N(S[s].size())); Elect(it->first, true); } }
    else if (x < 97 || !fault) Req();
    else { c.Crash(); cnt["crash"]++; Ev("crash", {}); }
  }
  void Quiesce() {
    fault = 0; late.clear(); int idle = 0; for (int i = 0; i < 60 && idle < 3; i++) { for (int k = 0; k < 3; k++) for (auto& [s, m] : S) { std::vector<int64_t> ids; for (auto& [id, x] : m) ids.push_back(id); for (auto id : ids) Catch(s, id, true); } std::vector<int64_t> gs; for (auto& [id, g] : G) gs.push_back(id); for (auto id : gs) Elect(id, false);
      for (int s = 1; s <= ns; s++) { auto q = Compose(s, {}, false, false); Beat(q); } Proc(); butil::FlatMap<int64_t, pb::coordinator::Job> m; m.init(100); c.C().GetJobAll(m); idle = m.empty() ? idle + 1 : 0; }
    std::vector<J> v; for (auto& [s, m] : S) for (auto& [id, x] : m) v.push_back(O({{"s", s}, {"id", id}, {"st", x.st}, {"lo", x.lo}, {"hi", x.hi}, {"cv", x.cv}, {"v", x.v}, {"ps", SetJ(x.ps)}}));
    Ev("end", {{"bad", nochild}, {"st", J::Arr(v)}});
  }
};
static int Jobs(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = argc > 5 ? atoi(argv[5]) : 60; Watch wd(60); Out f(argv[2]); std::map<std::string, int> cnt; int64_t steps = 0; shim::g_virtual_us = 1700000000000000ll;
  for (int h = 0; h < N; h++) {
    wd.n++; int ns = 3 + r.N(2); FLAGS_task_retry_count = 1 + r.N(3); JobWorld w("/metaj" + std::to_string(h), r, ns); w.Create(10, 40, r.P(600) ? 3 : 2); for (int i = 0; i < 2; i++) { w.Proc(); for (int s = 1; s <= ns; s++) w.Beat(w.Compose(s, {}, false, false)); } w.fault = r.P(400) || h == 0 ? 0 : r.N(150);
    if (h == 0) w.Ignored(); for (int i = 0; i < len; i++) { wd.n++; w.Random(); } w.Quiesce(); for (auto& [k, v] : w.cnt) cnt[k] += v; steps += w.ev.size();
    std::string l; for (auto& e : w.ev) l += (l.empty() ? "" : ",") + e; f.Line(J::Raw("{\"rt\":" + std::to_string(FLAGS_task_retry_count) + ",\"ns\":" + std::to_string(ns) + ",\"h\":[" + l + "]}"));
  }
  printf("steps %ld :", (long)steps); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n"); return 0;
}
