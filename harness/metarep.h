// What a replica of the coordinator's state machine holds, what a log entry says, and entries to apply.
#pragma once
namespace h {
using CC = CoordinatorControl; using pb::coordinator_internal::MetaIncrement; using OpT = pb::coordinator_internal::MetaIncrementOpType; using pb::coordinator_internal::MetaIncrementOpType;
inline std::string Dg(const std::string& s) { uint64_t x = 1469598103934665603ull; for (unsigned char c : s) { x ^= c; x *= 1099511628211ull; } char b[20]; snprintf(b, 20, "%llx", (unsigned long long)x); return b; }
template <class P> std::string Dg(P p, std::function<void(P&)> f) { f(p); return Dg(p.SerializeAsString()); }
struct RepJ {
  int64_t Rv(int64_t r) { return r; }
  J Tn(pb::coordinator_internal::TenantInternal t) { auto q = t; q.clear_name(); q.clear_comment(); q.clear_safe_point_ts(); q.clear_resolve_lock_safe_point(); q.clear_update_timestamp(); q.clear_revision(); return O({{"id", t.id()}, {"nm", t.name() + "|" + t.comment()}, {"sp", t.safe_point_ts()}, {"rl", t.resolve_lock_safe_point()}, {"ut", std::to_string(t.update_timestamp())}, {"rv", Rv(t.revision())}, {"d", Dg(q.SerializeAsString())}}); }
  J Sc(pb::coordinator_internal::SchemaInternal t) { auto q = t; q.clear_table_ids(); q.clear_index_ids(); q.clear_revision(); return O({{"id", t.id()}, {"rv", Rv(t.revision())}, {"tb", J::Arr(t.table_ids())}, {"ix", J::Arr(t.index_ids())}, {"d", Dg(q.SerializeAsString())}}); }
  J Rg(pb::coordinator_internal::RegionInternal t) { auto q = t; q.mutable_definition()->clear_revision(); return O({{"id", t.id()}, {"rv", Rv(t.definition().revision())}, {"v", t.definition().epoch().version()}, {"s", t.definition().range().start_key()}, {"e", t.definition().range().end_key()}, {"lt", t.definition().range().start_key() < t.definition().range().end_key()}, {"d", Dg(q.SerializeAsString())}}); }
  J Ti(pb::coordinator_internal::TableIndexInternal t) { auto q = t; q.clear_table_ids(); q.clear_revision(); std::map<int64_t, int64_t> m; for (auto& x : t.table_ids()) m[x.entity_id()] = x.parent_entity_id(); return O({{"id", t.id()}, {"rv", Rv(t.revision())}, {"ids", J::Arr(m, [](auto& p) { return p.first; })}, {"d", Dg(q.SerializeAsString())}}); }
  J Tb(pb::coordinator_internal::TableInternal t) { auto q = t; q.clear_definition(); auto d = t.definition(); d.clear_revision(); return O({{"id", t.id()}, {"sc", t.schema_id()}, {"nm", t.definition().name()}, {"rv", Rv(t.definition().revision())}, {"dd", Dg(d.SerializeAsString())}, {"d", Dg(q.SerializeAsString())}}); }
  J So(pb::coordinator_internal::StoreOperationInternal t) { return O({{"id", t.id()}, {"c", J::Arr(t.region_cmd_ids())}}); }
  J Rc(pb::coordinator_internal::RegionCmdInternal t) { auto q = t; q.mutable_region_cmd()->clear_store_id(); return O({{"id", t.id()}, {"st", t.region_cmd().store_id()}, {"jb", t.region_cmd().job_id()}, {"er", Dg(t.error().SerializeAsString())}, {"d", Dg(q.SerializeAsString())}}); }
  J Jb(pb::coordinator::Job t) {
    auto q = t; q.clear_tasks(); q.clear_next_step(); q.clear_update_time(); q.clear_finish_time(); std::string tk = "["; bool f = true;
    for (auto& k : t.tasks()) { tk += f ? "" : ","; f = false; tk += J::Arr(k.store_operations(), [&](auto& o) { return O({{"st", o.store_id()}, {"ok", o.is_success()}, {"rt", o.retry_count()}, {"er", J::Arr(o.errors(), [](auto& e) { return Dg(e.SerializeAsString()); })}, {"c", J::Arr(o.region_cmds(), [](auto& c) { auto d = c; d.clear_status(); d.clear_retry(); d.clear_error(); return O({{"id", c.id()}, {"cr", c.region_cmd_type() == pb::coordinator::CMD_CREATE}, {"s", (int)c.status()}, {"re", (int)c.retry()}, {"er", Dg(c.error().SerializeAsString())}, {"d", Dg(d.SerializeAsString())}}); })}}); }).s; }
    return O({{"id", t.id()}, {"nx", t.next_step()}, {"tk", J::Raw(tk + "]")}, {"d", Dg(q.SerializeAsString())}});
  }
  template <class M, class F> void Flat(DingoSafeMap<int64_t, M>& m, F f) { butil::FlatMap<int64_t, M> c; c.init(1000); m.GetRawMapCopy(c); std::map<int64_t, M> s; for (auto& x : c) s[x.first] = x.second; for (auto& [k, v] : s) f(k, v); }
  template <class M, class F> J FlatJ(DingoSafeMap<int64_t, M>& m, F f) { std::vector<J> v; Flat(m, [&](int64_t, const M& x) { v.push_back(f(x)); }); return J::Arr(v); }
  std::vector<J> pl;
  template <class P> void Pl(const char* k, const P& p) { std::string id; if constexpr (std::is_same_v<decltype(p.id()), int64_t> || std::is_integral_v<std::decay_t<decltype(p.id())>>) id = std::to_string(p.id()); else id = p.id(); pl.push_back(O({{"k", k}, {"id", id}, {"d", Dg(p.SerializeAsString())}})); }
  template <class M> void PlD(const char* k, MetaDiskMap<M>* m) { std::vector<M> v; m->GetAllElements(v); std::map<std::string, J> s; for (auto& x : v) Pl(k, x); }
  template <class M> void PlS(const char* k, DingoSafeStdMap<std::string, M>& m) { std::map<std::string, M> c; m.GetRawMapCopy(c); for (auto& x : c) Pl(k, x.second); }
  J State(CC& c) {
    pl.clear(); std::vector<J> ep; int64_t ap = 0, at = 0;
    Flat(static_cast<DingoSafeMap<int64_t, pb::coordinator_internal::IdEpochInternal>&>(c.id_epoch_map_), [&](int64_t k, const pb::coordinator_internal::IdEpochInternal& e) { if (k == pb::coordinator::RAFT_APPLY_INDEX) ap = e.value(); else if (k == pb::coordinator::RAFT_APPLY_TERM) at = e.value(); else ep.push_back(O({{"id", k}, {"v", e.value()}})); });
    Flat(c.coordinator_map_, [&](int64_t, auto& x) { Pl("co", x); }); Flat(c.store_map_, [&](int64_t, auto& x) { Pl("st", x); }); PlS("ex", c.executor_map_); PlS("eu", c.executor_user_map_); PlS("cm", c.common_mem_map_);
    PlD("dr", c.deleted_region_meta_); PlD("dt", c.deleted_table_meta_); PlD("di", c.deleted_index_meta_); PlD("cd", c.common_disk_meta_);
    return O({{"ap", ap}, {"at", at}, {"ep", J::Arr(ep)}, {"pl", J::Arr(pl)}, {"tn", FlatJ(c.tenant_map_, [&](auto& x) { return Tn(x); })}, {"sc", FlatJ(c.schema_map_, [&](auto& x) { return Sc(x); })}, {"rg", FlatJ(c.region_map_, [&](auto& x) { return Rg(x); })}, {"ti", FlatJ(c.table_index_map_, [&](auto& x) { return Ti(x); })}, {"tb", FlatJ(c.table_map_, [&](auto& x) { return Tb(x); })}, {"ix", FlatJ(c.index_map_, [&](auto& x) { return Tb(x); })}, {"so", FlatJ(c.store_operation_map_, [&](auto& x) { return So(x); })}, {"rc", FlatJ(c.region_cmd_map_, [&](auto& x) { return Rc(x); })}, {"jb", FlatJ(c.job_map_, [&](auto& x) { return Jb(x); })}});
  }
  // The maps derived from the state: names and range starts (for lookups).
  J Maps(CC& c, bool names) {
    std::vector<J> sn, tn, xn, rm, ep; auto nm = [&](DingoSafeMap<std::string, int64_t>& m, std::vector<J>& v) { butil::FlatMap<std::string, int64_t> q; q.init(1000); m.GetRawMapCopy(q); std::map<std::string, int64_t> s; for (auto& x : q) s[x.first] = x.second; for (auto& [k, i] : s) v.push_back(O({{"k", k}, {"id", i}})); };
    if (names) { nm(c.schema_name_map_safe_temp_, sn); nm(c.table_name_map_safe_temp_, tn); nm(c.index_name_map_safe_temp_, xn); Flat(static_cast<DingoSafeMap<int64_t, pb::coordinator_internal::IdEpochInternal>&>(c.id_epoch_map_safe_temp_), [&](int64_t k, const pb::coordinator_internal::IdEpochInternal& e) { if (k != pb::coordinator::RAFT_APPLY_INDEX && k != pb::coordinator::RAFT_APPLY_TERM) ep.push_back(O({{"id", k}, {"v", e.value()}})); }); }
    std::map<std::string, pb::coordinator_internal::RegionInternal> q; c.range_region_map_.GetRawMapCopy(q); for (auto& [k, x] : q) rm.push_back(O({{"s", k}, {"id", x.id()}, {"d", Dg(x.SerializeAsString())}}));
    std::map<int64_t, std::string> rd; Flat(c.region_map_, [&](int64_t k, auto& x) { rd[k] = Dg(x.SerializeAsString()); });
    auto key = [&](auto& m, bool sch) { std::vector<J> v; Flat(m, [&](int64_t k, auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, pb::coordinator_internal::SchemaInternal>) v.push_back(O({{"id", k}, {"k", Helper::GenNewTenantCheckName(x.tenant_id(), x.name())}})); else v.push_back(O({{"id", k}, {"k", Helper::GenNewTableCheckName(x.schema_id(), x.definition().name())}})); }); return J::Arr(v); };
    return O({{"nm", names}, {"sn", J::Arr(sn)}, {"tn", J::Arr(tn)}, {"xn", J::Arr(xn)}, {"ep", J::Arr(ep)}, {"rm", J::Arr(rm)}, {"rd", J::Arr(rd, [](auto& p) { return O({{"id", p.first}, {"d", p.second}}); })}, {"ks", key(c.schema_map_, true)}, {"kt", key(c.table_map_, false)}, {"kx", key(c.index_map_, false)}});
  }
  J Ent(const Entry& e) {
    pb::raft::RaftCmdRequest c; if (!c.ParseFromString(e.data)) Setup("entry"); MetaIncrement m = c.requests(0).meta_req().meta_increment(); pl.clear(); std::vector<J> ps;
    auto op = [](auto o) { return (int)o == MetaIncrementOpType::CREATE ? "C" : (int)o == MetaIncrementOpType::UPDATE ? "U" : (int)o == MetaIncrementOpType::DELETE ? "D" : "M"; };
    auto plain = [&](const char* k, auto& l, auto get) { for (auto& x : l) { pl.clear(); Pl(k, get(x)); std::string id; if constexpr (std::is_same_v<std::decay_t<decltype(x.id())>, std::string>) id = x.id(); else id = std::to_string(x.id()); ps.push_back(O({{"o", op(x.op_type())}, {"k", k}, {"id", id}, {"p", pl[0]}})); } };
    plain("co", m.coordinators(), [](auto& x) { return x.coordinator(); }); plain("st", m.stores(), [](auto& x) { return x.store(); }); plain("ex", m.executors(), [](auto& x) { return x.executor(); }); plain("eu", m.executor_users(), [](auto& x) { return x.executor_user(); }); plain("cm", m.common_mem_s(), [](auto& x) { return x.common(); }); plain("dr", m.deleted_regions(), [](auto& x) { return x.region(); }); plain("dt", m.deleted_tables(), [](auto& x) { return x.table(); }); plain("di", m.deleted_indexes(), [](auto& x) { return x.table(); }); plain("cd", m.common_disk_s(), [](auto& x) { return x.common(); });
    auto l = [&](auto& r, auto f) { return J::Arr(r, [&](auto& x) { return O({{"o", op(x.op_type())}, {"id", x.id()}, {"p", f(x)}}); }); };
    return O({{"n", e.index}, {"t", e.term}, {"ep", J::Arr(m.idepochs(), [&](auto& x) { return O({{"o", op(x.op_type())}, {"id", x.id()}, {"v", x.idepoch().value()}}); })}, {"pl", J::Arr(ps)}, {"tn", l(m.tenants(), [&](auto& x) { return Tn(x.tenant()); })}, {"sc", l(m.schemas(), [&](auto& x) { return Sc(x.schema_internal()); })}, {"rg", l(m.regions(), [&](auto& x) { return Rg(x.region()); })},
      {"ti", J::Arr(m.table_indexes(), [&](auto& x) { auto a = [](auto& r) { std::vector<int64_t> v; for (auto& i : r) v.push_back(i.entity_id()); return J::Arr(v); }; return O({{"o", op(x.op_type())}, {"id", x.id()}, {"p", Ti(x.table_indexes())}, {"add", a(x.table_ids_to_add())}, {"del", a(x.table_ids_to_del())}}); })},
      {"tb", l(m.tables(), [&](auto& x) { return Tb(x.table()); })}, {"ix", l(m.indexes(), [&](auto& x) { return Tb(x.table()); })},
      {"so", J::Arr(m.store_operations(), [&](auto& x) { auto& v = x.move_region_cmd(); return O({{"o", op(x.op_type())}, {"id", x.id()}, {"c", J::Arr(x.store_operation().region_cmd_ids())}, {"f", v.from_store_id()}, {"t", v.to_store_id()}, {"mc", v.region_cmd_id()}}); })},
      {"rc", l(m.region_cmds(), [&](auto& x) { return Rc(x.region_cmd()); })},
      {"jb", J::Arr(m.jobs(), [&](auto& x) { auto& v = x.move_region_cmd(); return O({{"o", op(x.op_type())}, {"id", x.job_id()}, {"p", Jb(x.job())}, {"t", v.to_store_id()}, {"mc", x.has_move_region_cmd() ? v.region_cmd_id() : 0}, {"st", J::Arr(x.region_cmds_status(), [](auto& s) { return O({{"c", s.region_cmd_id()}, {"s", (int)s.status()}, {"er", Dg(s.error().SerializeAsString())}}); })}}); })}});
  }
};
// Entries as a leader could write them, by looking at the state they apply to.
struct IncGen {
  Rng& r; CC& c; int64_t nid = 700000;
  IncGen(Rng& a, CC& b, int64_t from) : r(a), c(b), nid(from) {}
  template <class M> std::map<int64_t, M> All(DingoSafeMap<int64_t, M>& m) { std::map<int64_t, M> s; butil::FlatMap<int64_t, M> q; q.init(1000); m.GetRawMapCopy(q); for (auto& x : q) s[x.first] = x.second; return s; }
  template <class M> M* Any(std::map<int64_t, M>& m) { if (m.empty()) return nullptr; auto i = m.begin(); std::advance(i, r.N(m.size())); return &i->second; }
  pb::error::Error Err() { pb::error::Error e; e.set_errcode(pb::error::EINTERNAL); e.set_errmsg("e" + std::to_string(r.N(5))); return e; }
  pb::coordinator::Job Job() {
    pb::coordinator::Job j; j.set_id(nid++); j.set_name("job"); int nt = 1 + r.N(3);
    for (int t = 0; t < nt; t++) { auto* k = j.add_tasks(); int ns = r.N(4); for (int s = 0; s < ns; s++) { auto* o = k->add_store_operations(); o->set_store_id(1001 + s); int nc = r.P(100) ? 0 : r.P(150) ? 2 : 1; for (int x = 0; x < nc; x++) { auto* q = o->add_region_cmds(); q->set_id(nid++); q->set_region_id(80001 + r.N(3)); q->set_job_id(j.id()); q->set_region_cmd_type(r.P(300) ? pb::coordinator::CMD_CREATE : pb::coordinator::CMD_DELETE); } } }
    return j;
  }
  void One(MetaIncrement& m, std::set<std::string>& used) {
    auto first = [&](const std::string& k) { return used.insert(k).second; };
    int x = r.N(24);
    auto tri = [&](auto* p, bool has) { int y = r.N(10); p->set_op_type(!has ? MetaIncrementOpType::CREATE : y < 6 ? MetaIncrementOpType::UPDATE : MetaIncrementOpType::DELETE); };
    switch (x) {
      case 0: { auto* p = m.add_coordinators(); int id = 1 + r.N(3); p->set_id(id); p->mutable_coordinator()->set_id(id); p->mutable_coordinator()->mutable_location()->set_port(r.N(9)); tri(p, r.P(700)); break; }
      case 1: { auto* p = m.add_stores(); int id = 1001 + r.N(4); p->set_id(id); p->mutable_store()->set_id(id); p->mutable_store()->mutable_server_location()->set_port(r.N(9)); p->set_op_type(r.P(900) ? MetaIncrementOpType::UPDATE : MetaIncrementOpType::DELETE); break; }
      case 2: { auto* p = m.add_executors(); std::string id = "e" + std::to_string(r.N(3)); p->set_id(id); p->mutable_executor()->set_id(id); p->mutable_executor()->set_last_seen_timestamp(r.N(9)); tri(p, r.P(700)); break; }
      case 3: { auto* p = m.add_executor_users(); std::string id = "u" + std::to_string(r.N(3)); p->set_id(id); p->mutable_executor_user()->set_id(id); p->mutable_executor_user()->set_keyring("k" + std::to_string(r.N(9))); tri(p, r.P(700)); break; }
      case 4: { bool d = r.P(500); auto* p = d ? m.add_common_disk_s() : m.add_common_mem_s(); std::string id = "c" + std::to_string(r.N(3)); p->set_id(id); p->mutable_common()->set_id(id); p->mutable_common()->set_value("v" + std::to_string(r.N(9))); tri(p, r.P(700)); break; }
      case 5: { auto* p = m.add_deleted_regions(); int id = 90 + r.N(3); p->set_id(id); p->mutable_region()->set_id(id); p->mutable_region()->set_epoch(r.N(9)); tri(p, r.P(600)); break; }
      case 6: { auto* p = r.P(500) ? m.add_deleted_tables() : nullptr; int id = 60 + r.N(3); if (p) { p->set_id(id); p->mutable_table()->set_id(id); p->mutable_table()->set_schema_id(r.N(9)); tri(p, r.P(600)); } else { auto* q = m.add_deleted_indexes(); q->set_id(id); q->mutable_table()->set_id(id); q->mutable_table()->set_schema_id(r.N(9)); tri(q, r.P(600)); } break; }
      case 7: { auto* p = m.add_idepochs(); int id = r.P(500) ? pb::coordinator::ID_NEXT_REGION_CMD : pb::coordinator::ID_GC_SAFE_POINT; p->set_id(id); p->mutable_idepoch()->set_id(id); int64_t now = 0; c.id_epoch_map_.GetPresentId(id, now); p->mutable_idepoch()->set_value(now + r.N(5) - 1); p->set_op_type(MetaIncrementOpType::UPDATE); break; }
      case 8: case 9: { auto a = All(c.tenant_map_); auto* t = Any(a); int y = r.N(10); if (!t || y < 2) { auto* p = m.add_tenants(); p->set_id(nid++); p->mutable_tenant()->set_id(p->id()); p->mutable_tenant()->set_name("t" + std::to_string(p->id())); p->mutable_tenant()->set_create_timestamp(5); p->set_op_type(MetaIncrementOpType::CREATE); } else { auto* p = m.add_tenants(); p->set_id(t->id()); *p->mutable_tenant() = *t; auto& q = *p->mutable_tenant(); p->set_op_type(MetaIncrementOpType::UPDATE); q.set_update_timestamp(r.N(99)); if (y == 2) { q.clear_safe_point_ts(); q.clear_resolve_lock_safe_point(); q.set_name("n" + std::to_string(r.N(9))); } else if (y == 3 && t->id() > 0) p->set_op_type(MetaIncrementOpType::DELETE); else { if (y < 8) q.set_safe_point_ts(t->safe_point_ts() + r.N(4) - 1); if (y > 5) q.set_resolve_lock_safe_point(t->resolve_lock_safe_point() + r.N(4) - 1); } } break; }
      case 10: { auto a = All(c.schema_map_); for (auto i = a.begin(); i != a.end();) { if (i->second.table_ids_size() || i->second.index_ids_size() || i->first <= 4) i = a.erase(i); else ++i; } auto* t = Any(a); auto* p = m.add_schemas(); if (!t || r.P(600)) { p->set_id(nid++); p->mutable_schema_internal()->set_id(p->id()); p->mutable_schema_internal()->set_name("s" + std::to_string(p->id())); p->set_op_type(MetaIncrementOpType::CREATE); } else if (first("sc" + std::to_string(t->id()))) { p->set_id(t->id()); p->mutable_schema_internal()->set_id(t->id()); p->set_op_type(MetaIncrementOpType::DELETE); } else m.mutable_schemas()->RemoveLast(); break; }
      case 11: case 12: case 13: {  // starts of valid ranges are unique, but for a child that reported before its parent did
        if (!first("rg")) break; auto a = All(c.region_map_); auto* t = Any(a); auto key = [](int k) { return "k" + std::to_string(k); }; auto ok = [](const pb::coordinator_internal::RegionInternal& x) { return x.definition().range().start_key() < x.definition().range().end_key(); };
        std::set<std::string> taken; for (auto& [k, x] : a) if (ok(x)) taken.insert(x.definition().range().start_key()); std::vector<std::string> fr; for (int k = 0; k < 8; k++) if (!taken.count(key(k))) fr.push_back(key(k));
        auto range = [&](pb::common::Range* g) { if (!fr.empty() && r.P(700)) { auto k = fr[r.N(fr.size())]; g->set_start_key(k); g->set_end_key(key(k[1] - '0' + 1 + r.N(3))); } else { int e = r.N(8); g->set_end_key(key(e)); g->set_start_key(key(e + r.N(8 - e))); } };
        auto same = [&](const pb::coordinator_internal::RegionInternal& q) { pb::coordinator_internal::RegionInternal* o = nullptr; if (ok(q)) for (auto& [k, x] : a) if (k != q.id() && ok(x) && x.definition().range().start_key() == q.definition().range().start_key()) o = &x; return o; };
        if (!t || a.size() < 3 || r.P(200)) { auto* p = m.add_regions(); p->set_id(nid++); p->mutable_region()->set_id(p->id()); range(p->mutable_region()->mutable_definition()->mutable_range()); p->mutable_region()->mutable_definition()->set_id(p->id()); p->mutable_region()->mutable_definition()->mutable_epoch()->set_version(1); p->set_op_type(MetaIncrementOpType::CREATE); break; }
        auto upd = [&](pb::coordinator_internal::RegionInternal& q, int dv) { auto* p = m.add_regions(); p->set_id(q.id()); *p->mutable_region() = q; p->mutable_region()->mutable_definition()->mutable_epoch()->set_version(q.definition().epoch().version() + dv); p->mutable_region()->set_epoch(r.N(9)); p->set_op_type(MetaIncrementOpType::UPDATE); return p->mutable_region()->mutable_definition()->mutable_range(); };
        if (auto* o = same(*t)) { pb::coordinator_internal::RegionInternal w; c.range_region_map_.Get(t->definition().range().start_key(), w); if (w.id() == t->id()) { if (r.P(500)) upd(*t, 1); else std::swap(t, o); } if (m.regions_size()) break; if (!fr.empty()) { auto* g = upd(*t, r.P(850)); auto k = fr[r.N(fr.size())]; g->set_start_key(k); g->set_end_key(key(k[1] - '0' + 1 + r.N(3))); } break; }
        int y = r.N(20); if (y < 3) { auto* p = m.add_regions(); p->set_id(t->id()); *p->mutable_region() = *t; p->set_op_type(MetaIncrementOpType::DELETE); break; }
        pb::coordinator_internal::RegionInternal *u = nullptr; for (auto& [k, x] : a) if (ok(x) && k != t->id() && !same(x) && r.P(500)) u = &x;
        if (y < 6 && u) { auto* g = upd(*t, 1); g->set_start_key(u->definition().range().start_key()); g->set_end_key(u->definition().range().end_key()); break; }   // a child takes the start of its parent
        if (y < 8 && u && !fr.empty()) { auto k = fr[r.N(fr.size())]; auto child = [&] { auto* g = upd(*t, 1); g->set_start_key(u->definition().range().start_key()); g->set_end_key(u->definition().range().end_key()); }; auto parent = [&] { auto* g = upd(*u, 1); g->set_start_key(k); g->set_end_key(key(k[1] - '0' + 1)); }; if (r.P(500)) { child(); parent(); } else { parent(); child(); } break; }  // both in one heartbeat
        auto* g = upd(*t, r.N(4) - 1); if (y < 14) range(g); break;
      }
      case 14: { auto a = All(c.table_index_map_); auto* t = Any(a); auto* p = m.add_table_indexes(); auto id = [&](auto* q) { q->set_entity_id(500 + r.N(5)); }; if (!t || r.P(300)) { p->set_id(nid++); p->mutable_table_indexes()->set_id(p->id()); id(p->mutable_table_indexes()->add_table_ids()); p->set_op_type(MetaIncrementOpType::CREATE); } else { p->set_id(t->id()); p->mutable_table_indexes()->set_id(t->id()); int y = r.N(10); if (y < 2) { p->set_op_type(MetaIncrementOpType::DELETE); break; } p->set_op_type(MetaIncrementOpType::UPDATE); if (y < 5) id(p->add_table_ids_to_add()); if (y > 3 && y < 8) id(p->add_table_ids_to_del()); if (y >= 8) *p->mutable_table_indexes() = *t, id(p->mutable_table_indexes()->add_table_ids()); } break; }
      case 15: case 16: { bool ix = x == 16; auto a = All(ix ? c.index_map_ : c.table_map_); auto* t = Any(a); auto go = [&](auto* p) { if (!t || r.P(450)) { auto s = All(c.schema_map_); s.erase(0); s.erase(1); auto* sc = Any(s); if (!sc || !first("sc" + std::to_string(sc->id()))) return false; p->set_id(nid++); p->mutable_table()->set_id(p->id()); p->mutable_table()->set_schema_id(sc->id()); p->mutable_table()->mutable_definition()->set_name("x" + std::to_string(p->id())); p->set_op_type(MetaIncrementOpType::CREATE); } else { p->set_id(t->id()); *p->mutable_table() = *t; if (r.P(400)) { p->mutable_table()->mutable_definition()->set_name("y" + std::to_string(r.N(9))); p->set_op_type(MetaIncrementOpType::UPDATE); } else { if (!first("sc" + std::to_string(t->schema_id()))) return false; p->set_op_type(MetaIncrementOpType::DELETE); } } return true; };
        if (ix) { if (!go(m.add_indexes())) m.mutable_indexes()->RemoveLast(); } else if (!go(m.add_tables())) m.mutable_tables()->RemoveLast(); break; }
      case 17: case 18: { auto a = All(c.store_operation_map_); auto* t = Any(a); int y = r.N(10); auto* p = m.add_store_operations(); if (!t || y < 4) { int64_t st = 1001 + r.N(3), id = nid++; p->set_id(st); p->mutable_store_operation()->set_id(st); p->mutable_store_operation()->add_region_cmd_ids(id); p->set_op_type(MetaIncrementOpType::CREATE); auto* q = m.add_region_cmds(); q->set_id(id); q->set_op_type(MetaIncrementOpType::CREATE); q->mutable_region_cmd()->set_id(id); auto* rc = q->mutable_region_cmd()->mutable_region_cmd(); rc->set_id(id); rc->set_store_id(st); auto j = All(c.job_map_); auto* jb = Any(j); if (jb && r.P(500)) rc->set_job_id(jb->id()); }
        else if (t->region_cmd_ids_size() && y < 7) { int64_t id = t->region_cmd_ids(r.N(t->region_cmd_ids_size())); p->set_id(t->id()); p->mutable_store_operation()->set_id(t->id()); p->mutable_store_operation()->add_region_cmd_ids(id); p->set_op_type(MetaIncrementOpType::DELETE); auto* q = m.add_region_cmds(); q->set_id(id); q->mutable_region_cmd()->set_id(id); q->set_op_type(MetaIncrementOpType::DELETE); auto rc = All(c.region_cmd_map_); if (rc.count(id)) *q->mutable_region_cmd() = rc[id]; }
        else { int64_t to = 1001 + r.N(3); if (!t->region_cmd_ids_size() || to == t->id()) { m.mutable_store_operations()->RemoveLast(); break; } p->set_id(t->id()); p->set_op_type(MetaIncrementOpType::MODIFY); auto* v = p->mutable_move_region_cmd(); v->set_from_store_id(t->id()); v->set_to_store_id(to); v->set_region_cmd_id(t->region_cmd_ids(r.N(t->region_cmd_ids_size()))); } break; }
      case 19: { auto a = All(c.region_cmd_map_); auto* t = Any(a); if (!t) break; auto* p = m.add_region_cmds(); p->set_id(t->id()); *p->mutable_region_cmd() = *t; *p->mutable_region_cmd()->mutable_error() = Err(); auto j = All(c.job_map_); auto* jb = Any(j); if (jb) { p->mutable_region_cmd()->mutable_region_cmd()->set_job_id(jb->id()); if (r.P(500) && jb->tasks_size() && jb->tasks(0).store_operations_size() && jb->tasks(0).store_operations(0).region_cmds_size()) { int64_t id = jb->tasks(0).store_operations(0).region_cmds(0).id(); p->set_id(id); p->mutable_region_cmd()->set_id(id); } } p->set_op_type(MetaIncrementOpType::UPDATE); break; }
      default: { auto a = All(c.job_map_); auto* t = Any(a); auto* p = m.add_jobs(); if (!t || r.P(150)) { *p->mutable_job() = Job(); p->set_job_id(p->job().id()); p->set_op_type(MetaIncrementOpType::CREATE); break; }
        p->set_job_id(t->id()); if (!first("jb" + std::to_string(t->id()))) { m.mutable_jobs()->RemoveLast(); break; } int y = r.N(20); if (y < 2) { p->set_op_type(MetaIncrementOpType::DELETE); break; } if (y < 4) { *p->mutable_job() = *t; p->mutable_job()->set_next_step(std::min<int>(t->tasks_size(), t->next_step() + 1)); p->set_op_type(MetaIncrementOpType::UPDATE); break; }
        p->set_op_type(MetaIncrementOpType::MODIFY); std::vector<int64_t> ids; int step = t->next_step() < t->tasks_size() && r.P(850) ? t->next_step() : r.N(t->tasks_size()); for (auto& o : t->tasks(step).store_operations()) for (auto& q : o.region_cmds()) ids.push_back(q.id());
        if (ids.empty()) { m.mutable_jobs()->RemoveLast(); break; } if (y < 6) { auto* v = p->mutable_move_region_cmd(); v->set_to_store_id(1001 + r.N(4)); v->set_region_cmd_id(ids[r.N(ids.size())]); break; }
        for (auto id : ids) { if (r.P(300)) continue; auto* s = p->add_region_cmds_status(); s->set_region_cmd_id(id); bool ok = r.P(450); s->set_status(ok ? pb::coordinator::STATUS_DONE : pb::coordinator::STATUS_FAIL); if (!ok) *s->mutable_error() = Err(); if (r.P(600)) break; } break; }
    }
  }
  MetaIncrement Next() { MetaIncrement m; std::set<std::string> used; int k = r.P(600) ? 1 : 2 + r.N(3); for (int i = 0; i < k || m.ByteSizeLong() == 0; i++) One(m, used); return m; }
};
}  // namespace h
