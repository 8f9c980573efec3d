// The coordinator's metadata, driven through the real services: MetaServiceImpl and CoordinatorServiceImpl in front of a
// CoordinatorControl that is led through the real RaftStoreEngine.
#include "coord.h"
#include "coordinator/coordinator_control.h"
#include "server/coordinator_service.h"
#include "server/meta_service.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <cxxabi.h>
using namespace h;
namespace dingodb { DECLARE_bool(async_create_table); DECLARE_int32(task_retry_count); DECLARE_int32(task_error_count); }
#include "metarep.h"
using ML = MetaLeader<CoordinatorControl>; using pb::meta::EntityType;
static thread_local char* t_tag = nullptr;                        // where a forked run notes the request it is about to make
template <class Q> static void Tag(const Q& q) { if (t_tag) { std::string n = abi::__cxa_demangle(typeid(q).name(), 0, 0, 0); n = n.substr(n.rfind(':') + 1); snprintf(t_tag, 64, "%s", n.substr(0, n.size() - 7).c_str()); } }
static const char* E(const pb::error::Error& e) { return e.errcode() == 0 ? "ok" : "err"; }
static pb::meta::DingoCommonId Id(EntityType t, int64_t p, int64_t e) { pb::meta::DingoCommonId i; i.set_entity_type(t); i.set_parent_entity_id(p); i.set_entity_id(e); return i; }
static const auto TBL = pb::meta::ENTITY_TYPE_TABLE, IDX = pb::meta::ENTITY_TYPE_INDEX, SCH = pb::meta::ENTITY_TYPE_SCHEMA, PRT = pb::meta::ENTITY_TYPE_PART;
static std::string Key(int64_t part) { std::string k = "r"; for (int i = 7; i >= 0; i--) k.push_back((char)(part >> (8 * i))); return k; }
struct Coord {
  ML L; MetaServiceImpl ms; CoordinatorServiceImpl cs; std::string msg;
  explicit Coord(const std::string& p) : L(p, Constant::kMetaRegionId, [](std::shared_ptr<CoordinatorControl> k) { if (!k->Init()) Setup("init"); }) { Wire(); }
  void Wire() { auto w = std::make_shared<InlineWorkers>(); L.rep.ctl->SetKvEngine(L.eng); ms.SetKvEngine(L.eng); ms.SetControl(L.rep.ctl); ms.SetWorkSet(w); cs.SetKvEngine(L.eng); cs.SetControl(L.rep.ctl); cs.SetWorkSet(w); }
  CoordinatorControl& C() { return *L.rep.ctl; }
  void Crash() { L.Crash(); Wire(); L.Lead(); }
  template <class Rq, class Rs> Rs M(void (MetaServiceImpl::*m)(google::protobuf::RpcController*, const Rq*, Rs*, google::protobuf::Closure*), const Rq& q) { Tag(q); Rs s; if (!StoreWorld::CallOn(ms, m, q, s)) Setup("no answer"); msg = s.error().errmsg(); return s; }
  template <class Rq, class Rs> Rs X(void (CoordinatorServiceImpl::*m)(google::protobuf::RpcController*, const Rq*, Rs*, google::protobuf::Closure*), const Rq& q) { Tag(q); Rs s; if (!StoreWorld::CallOn(cs, m, q, s)) Setup("no answer"); msg = s.error().errmsg(); return s; }
  void Store(int64_t id) {
    pb::coordinator::StoreHeartbeatRequest q; auto* s = q.mutable_store(); s->set_id(id); s->set_keyring("TO_BE_CONTINUED"); s->set_state(pb::common::STORE_NORMAL); s->set_in_state(pb::common::STORE_IN); s->set_store_type(pb::common::NODE_TYPE_STORE);
    s->mutable_server_location()->set_host("127.0.0.1"); s->mutable_server_location()->set_port(20000 + id); s->mutable_raft_location()->set_host("127.0.0.1"); s->mutable_raft_location()->set_port(21000 + id);
    auto r = X(&CoordinatorServiceImpl::StoreHeartbeat, q); if (r.error().errcode()) Setup("heartbeat " + r.error().errmsg());
  }
};
static pb::meta::TableDefinition Def(const std::string& nm, const std::vector<int64_t>& parts, int64_t owner) {
  pb::meta::TableDefinition d; d.set_name(nm); d.set_replica(3); d.set_engine(pb::common::ENG_ROCKSDB); d.set_store_engine(pb::common::STORE_ENG_RAFT_STORE); auto* c = d.add_columns(); c->set_name("a"); c->set_sql_type("INT");
  for (auto p : parts) { auto* x = d.mutable_table_partition()->add_partitions(); *x->mutable_id() = Id(PRT, owner, p); x->mutable_range()->set_start_key(Key(p)); x->mutable_range()->set_end_key(Key(p + 1)); }
  return d;
}
static pb::meta::IndexDefinition IDef(const std::string& nm, const std::vector<int64_t>& parts, int64_t owner) {
  pb::meta::IndexDefinition d; auto t = Def(nm, parts, owner); d.set_name(nm); d.set_replica(3); d.set_engine(pb::common::ENG_ROCKSDB); d.set_store_engine(pb::common::STORE_ENG_RAFT_STORE); *d.mutable_index_partition() = t.table_partition();
  d.mutable_index_parameter()->set_index_type(pb::common::INDEX_TYPE_SCALAR); d.mutable_index_parameter()->mutable_scalar_index_parameter()->set_scalar_index_type(pb::common::SCALAR_INDEX_TYPE_LSM); return d;
}
// The catalogue as the services show it.
static J Catalogue(Coord& c) {
  std::map<int64_t, J> tn, sc, tb, ix; pb::meta::GetTenantsRequest tq; auto tr = c.M(&MetaServiceImpl::GetTenants, tq); for (auto& t : tr.tenants()) tn[t.id()] = O({{"id", t.id()}, {"nm", t.name()}});
  pb::meta::GetSchemasRequest sq; sq.set_tenant_id(-1); *sq.mutable_schema_id() = Id(SCH, 0, 0); auto sr = c.M(&MetaServiceImpl::GetSchemas, sq);
  for (auto& s : sr.schemas()) {
    std::vector<int64_t> ti, ii; for (auto& t : s.table_ids()) ti.push_back(t.entity_id()); for (auto& t : s.index_ids()) ii.push_back(t.entity_id()); std::sort(ti.begin(), ti.end()); std::sort(ii.begin(), ii.end()); int64_t sid = s.id().entity_id();
    if (sid >= 1 && sid <= 4 && sid != 2) continue;
    sc[sid] = O({{"id", sid}, {"tn", s.tenant_id()}, {"nm", s.name()}, {"tb", J::Arr(ti)}, {"ix", J::Arr(ii)}});
    for (auto t : ti) {
      pb::meta::GetTablesRequest q; *q.mutable_table_id() = Id(TBL, sid, t); auto r = c.M(&MetaServiceImpl::GetTables, q); std::vector<int64_t> xs; std::string nm = "?"; if (r.error().errcode()) nm = "??";
      for (auto& d : r.table_definition_with_ids()) if (d.table_id().entity_type() == IDX) xs.push_back(d.table_id().entity_id()); else { nm = d.table_definition().name(); if (d.table_id().entity_id() != t || d.table_id().parent_entity_id() != sid) nm += "@"; }
      std::sort(xs.begin(), xs.end()); tb[t] = O({{"id", t}, {"sc", sid}, {"nm", nm}, {"ix", J::Arr(xs)}});
    }
    for (auto t : ii) { pb::meta::GetTablesRequest q; *q.mutable_table_id() = Id(IDX, sid, t); auto r = c.M(&MetaServiceImpl::GetTables, q); ix[t] = O({{"id", t}, {"sc", sid}, {"nm", r.error().errcode() || r.table_definition_with_ids_size() != 1 ? std::string("??") : r.table_definition_with_ids(0).table_definition().name()}}); }
  }
  auto L = [](std::map<int64_t, J>& m) { return J::Arr(m, [](auto& p) { return p.second; }); };
  return O({{"tn", L(tn)}, {"sc", L(sc)}, {"tb", L(tb)}, {"ix", L(ix)}});
}
struct CatGen {
  Rng& r; Coord& c; std::vector<int64_t> tn{0}, sc{2}, tb, ix, tbs, ixs; std::map<int64_t, std::vector<int64_t>> parts; std::map<int64_t, int64_t> own, tix; int64_t nt = 5000;
  CatGen(Rng& a, Coord& b) : r(a), c(b) {}
  template <class V> auto Pick(V& v) { return v[r.N(v.size())]; }
  int names = 3; bool conc = false;
  std::string Nm(const char* k) { return std::string(k) + std::to_string(r.N(names)); }
  J Step() {
    auto ev = [&](const char* o, const std::string& e, std::vector<std::pair<const char*, J>> f) { std::string s = "{\"o\":" + Q(o) + ",\"e\":" + Q(e); for (auto& [k, v] : f) s += "," + Q(k) + ":" + v.s; if (e != "ok") s += ",\"msg\":" + Q(c.msg); return J::Raw(s + "}"); };
    auto ids = [&](int n, std::vector<J>* log) { pb::meta::CreateTableIdsRequest q; q.set_count(n); *q.mutable_schema_id() = Id(SCH, 0, 2); auto s = c.M(&MetaServiceImpl::CreateTableIds, q); if (s.error().errcode()) Setup("ids " + s.error().errmsg()); std::vector<int64_t> v; for (auto& x : s.table_ids()) v.push_back(x.entity_id()); return v; };
    int64_t x = r.N(100);
    if (x < 4) { pb::meta::CreateTenantRequest q; int64_t id = r.P(700) ? nt++ : Pick(tn); auto nm = Nm("t"); q.mutable_tenant()->set_id(id); q.mutable_tenant()->set_name(nm); auto s = c.M(&MetaServiceImpl::CreateTenant, q); if (!s.error().errcode() && s.tenant().id()) tn.push_back(s.tenant().id()); return ev("tcreate", E(s.error()), {{"id", id}, {"nm", nm}, {"r", s.tenant().id()}}); }
    if (x < 6) { pb::meta::DropTenantRequest q; auto id = Pick(tn); q.set_tenant_id(id); auto s = c.M(&MetaServiceImpl::DropTenant, q); return ev("tdrop", E(s.error()), {{"id", id}}); }
    if (x < 8) { pb::meta::UpdateTenantRequest q; auto id = Pick(tn); auto nm = Nm("t"); q.mutable_tenant()->set_id(id); q.mutable_tenant()->set_name(nm); auto s = c.M(&MetaServiceImpl::UpdateTenant, q); return ev("tupdate", E(s.error()), {{"id", id}, {"nm", nm}}); }
    if (x < 15) { pb::meta::CreateSchemaRequest q; auto t = Pick(tn); auto nm = Nm("s"); q.set_tenant_id(t); q.set_schema_name(nm); *q.mutable_parent_schema_id() = Id(SCH, 0, 0); auto s = c.M(&MetaServiceImpl::CreateSchema, q); int64_t id = s.schema().id().entity_id(); if (!s.error().errcode()) sc.push_back(id); return ev("screate", E(s.error()), {{"tn", t}, {"nm", nm}, {"id", id}}); }
    if (x < 19) { pb::meta::DropSchemaRequest q; auto t = Pick(tn); auto id = Pick(sc); if (id == 2) id = sc.back(); if (id == 2) return Step(); if (r.P(700)) { pb::meta::GetSchemaRequest g; } q.set_tenant_id(t); *q.mutable_schema_id() = Id(SCH, 0, id); auto s = c.M(&MetaServiceImpl::DropSchema, q); return ev("sdrop", E(s.error()), {{"tn", t}, {"id", id}}); }
    if (x < 22) { pb::meta::GetSchemaByNameRequest q; auto t = Pick(tn); auto nm = Nm("s"); q.set_tenant_id(t); q.set_schema_name(nm); auto s = c.M(&MetaServiceImpl::GetSchemaByName, q); return ev("sname", E(s.error()), {{"tn", t}, {"nm", nm}, {"id", s.schema().id().entity_id()}}); }
    if (x < 34) {
      pb::meta::CreateTableRequest q; auto s0 = Pick(sc); auto nm = Nm("b"); int np = 1 + r.N(2); auto v = ids(np + 1, nullptr); int64_t id = tb.empty() || r.P(900) ? v[0] : Pick(tb); std::vector<int64_t> ps(v.begin() + 1, v.end());
      *q.mutable_schema_id() = Id(SCH, 0, s0); *q.mutable_table_id() = Id(TBL, s0, id); *q.mutable_table_definition() = Def(nm, ps, id); auto s = c.M(&MetaServiceImpl::CreateTable, q); if (!s.error().errcode()) { tb.push_back(id); own[id] = s0; }
      return ev("bcreate", E(s.error()), {{"sc", s0}, {"nm", nm}, {"id", id}, {"ids", J::Arr(v)}, {"r", s.table_id().entity_id()}});
    }
    if (x < 39) { if (tb.empty()) return Step(); pb::meta::DropTableRequest q; auto id = Pick(tb); auto s0 = r.P(900) ? own[id] : Pick(sc); *q.mutable_table_id() = Id(TBL, s0, id); auto s = c.M(&MetaServiceImpl::DropTable, q); return ev("bdrop", E(s.error()), {{"sc", s0}, {"id", id}}); }
    if (x < 43) { pb::meta::GetTableByNameRequest q; auto s0 = Pick(sc); auto nm = Nm("b"); *q.mutable_schema_id() = Id(SCH, 0, s0); q.set_table_name(nm); auto s = c.M(&MetaServiceImpl::GetTableByName, q); return ev("bname", E(s.error()), {{"sc", s0}, {"nm", nm}, {"id", s.table_definition_with_id().table_id().entity_id()}}); }
    if (x < 49) {
      pb::meta::CreateTablesRequest q; auto s0 = Pick(sc); auto nm = Nm("i"); auto v = ids(2, nullptr); int64_t id = ix.empty() || r.P(900) ? v[0] : Pick(ix);
      *q.mutable_schema_id() = Id(SCH, 0, s0); auto* d = q.add_table_definition_with_ids(); *d->mutable_table_id() = Id(IDX, s0, id); *d->mutable_table_definition() = Def(nm, {v[1]}, id); *d->mutable_table_definition()->mutable_index_parameter() = IDef("", {}, 0).index_parameter(); auto s = c.M(&MetaServiceImpl::CreateTables, q); if (!s.error().errcode()) { ix.push_back(id); own[id] = s0; }
      return ev("icreate", E(s.error()), {{"sc", s0}, {"nm", nm}, {"id", id}, {"ids", J::Arr(v)}, {"r", s.table_ids_size() ? s.table_ids(0).entity_id() : 0}});
    }
    if (x < 53) { if (ix.empty()) return Step(); pb::meta::DropIndexRequest q; auto id = Pick(ix); auto s0 = r.P(900) ? own[id] : Pick(sc); *q.mutable_index_id() = Id(IDX, s0, id); auto s = c.M(&MetaServiceImpl::DropIndex, q); return ev("idrop", E(s.error()), {{"sc", s0}, {"id", id}}); }
    if (x < 56) { pb::meta::GetIndexByNameRequest q; auto s0 = Pick(sc); auto nm = Nm("i"); *q.mutable_schema_id() = Id(SCH, 0, s0); q.set_index_name(nm); auto s = c.M(&MetaServiceImpl::GetIndexByName, q); return ev("iname", E(s.error()), {{"sc", s0}, {"nm", nm}, {"id", s.index_definition_with_id().index_id().entity_id()}}); }
    if (x < 68) {  // one table with its indexes
      pb::meta::CreateTablesRequest q; auto s0 = Pick(sc); int ni = r.N(3); auto v = ids(2 + 2 * ni, nullptr); int64_t id = tb.empty() || r.P(900) ? v[0] : Pick(tb); auto nm = Nm("b"); std::vector<J> xi; std::vector<int64_t> xids;
      *q.mutable_schema_id() = Id(SCH, 0, s0); auto* t = q.add_table_definition_with_ids(); *t->mutable_table_id() = Id(TBL, s0, id); *t->mutable_table_definition() = Def(nm, {v[1]}, id);
      for (int k = 0; k < ni; k++) { int64_t xid = ix.empty() || r.P(900) ? v[2 + 2 * k] : Pick(ix); if (k && xid == xids[0]) xid = v[2 + 2 * k]; auto xn = Nm("i"); if (r.P(500)) xn += std::to_string(k); auto* d = q.add_table_definition_with_ids(); *d->mutable_table_id() = Id(IDX, r.P(500) ? s0 : id, xid); *d->mutable_table_definition() = Def(xn, {v[3 + 2 * k]}, xid); *d->mutable_table_definition()->mutable_index_parameter() = IDef("", {}, 0).index_parameter(); xi.push_back(O({{"id", xid}, {"nm", xn}})); xids.push_back(xid); }
      auto s = c.M(&MetaServiceImpl::CreateTables, q); if (!s.error().errcode()) { tb.push_back(id); own[id] = s0; for (auto k : xids) { ix.push_back(k); own[k] = s0; tix[k] = id; } }
      return ev("btcreate", E(s.error()), {{"sc", s0}, {"nm", nm}, {"id", id}, {"ids", J::Arr(v)}, {"xs", J::Arr(xi)}});
    }
    if (x < 75) {  // drop tables (with their indexes) and indexes of tables
      pb::meta::DropTablesRequest q; std::vector<J> l; std::set<int64_t> used; int n = 1 + r.N(2); for (int k = 0; k < n; k++) {
        bool t = ix.empty() || r.P(650); if (t && tb.empty()) continue; int64_t id = t ? Pick(tb) : Pick(ix); if (!used.insert(id).second) continue; if (!t && tix.count(id) && used.count(tix[id])) continue; if (t) { bool clash = false; for (auto u : used) if (tix.count(u) && tix[u] == id) clash = true; if (clash) continue; } int64_t s0 = r.P(900) ? own[id] : Pick(sc); *q.add_table_ids() = Id(t ? TBL : IDX, s0, id); l.push_back(O({{"t", t}, {"sc", s0}, {"id", id}})); }
      if (l.empty()) return Step(); auto s = c.M(&MetaServiceImpl::DropTables, q); return ev("btdrop", E(s.error()), {{"l", J::Arr(l)}});
    }
    if (x < 80) { if (tb.empty()) return Step(); pb::meta::AddIndexOnTableRequest q; auto id = Pick(tb); auto s0 = own[id]; auto v = ids(2, nullptr); auto nm = Nm("i"); int64_t xid = ix.empty() || r.P(900) ? v[0] : Pick(ix); *q.mutable_table_id() = Id(TBL, s0, id); auto* d = q.mutable_table_definition_with_id(); *d->mutable_table_id() = Id(IDX, s0, xid); *d->mutable_table_definition() = Def(nm, {v[1]}, xid); *d->mutable_table_definition()->mutable_index_parameter() = IDef("", {}, 0).index_parameter(); auto s = c.M(&MetaServiceImpl::AddIndexOnTable, q); if (!s.error().errcode()) { ix.push_back(xid); own[xid] = s0; tix[xid] = id; } return ev("xadd", E(s.error()), {{"sc", s0}, {"tb", id}, {"id", xid}, {"nm", nm}, {"ids", J::Arr(v)}}); }
    if (x < 84) { if (tb.empty() || ix.empty()) return Step(); pb::meta::DropIndexOnTableRequest q; auto xid = Pick(ix); auto id = tix.count(xid) && r.P(850) ? tix[xid] : Pick(tb); auto s0 = own[id]; *q.mutable_table_id() = Id(TBL, s0, id); *q.mutable_index_id() = Id(IDX, s0, xid); auto s = c.M(&MetaServiceImpl::DropIndexOnTable, q); return ev("xdrop", E(s.error()), {{"sc", s0}, {"tb", id}, {"id", xid}}); }
    if (conc) return Step();
    if (x < 88) { L(0); return ev("lead", "ok", {}); }
    if (x < 91) { L(1); return ev("crash", "ok", {}); }
    return Step();
  }
  void L(int k) { if (k == 0) { c.L.Stop(); c.L.Lead(); } else c.Crash(); }
};
static int Cat(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = argc > 5 ? atoi(argv[5]) : 40; Out f(argv[2]); std::map<std::string, int> cnt; int64_t steps = 0;
  dingodb::FLAGS_async_create_table = true;
  for (int h = 0; h < N; h++) {
    Coord c("/meta" + std::to_string(h)); c.L.Lead(); for (int i = 1; i <= 3; i++) c.Store(30000 + i);
    CatGen g(r, c); std::string line; 
    for (int i = 0; i < len; i++) { J e = g.Step(); std::string s = e.s; s.pop_back(); s += ",\"z\":" + Catalogue(c).s + "}"; line += (i ? "," : "") + s; steps++; cnt[e.s.substr(6, e.s.find('"', 6) - 6) + (e.s.find("\"e\":\"ok\"") != std::string::npos ? "+" : "-")]++; }
    f.Line(J::Raw("{\"h\":[" + line + "]}"));
  }
  printf("steps %ld :", (long)steps); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n"); return 0;
}
// Two requests at the same time, the log applied by a third thread; each run in a process of its own.
static void ConcRun(int h, uint64_t seed, int nm, uint64_t pair, int len, uint64_t sd, int pre, char* sh) {
  Rng q(seed); Coord c("/metac" + std::to_string(h)); c.L.Lead(); for (int i = 1; i <= 3; i++) c.Store(30000 + i);
  CatGen g(q, c); g.names = nm; g.conc = true; std::string line; for (int i = 0; i < len; i++) line += (i ? "," : "") + g.Step().s;
  LogBackend::Queue lq; lq.open = 2; c.L.be->queue = &lq; J a, b; q = Rng(pair); uint64_t pa = q.Next(), pb = q.P(500) ? pa : q.Next(); Rng ra(pa), rb(pb);
  struct Gen2 : CatGen { Gen2(const CatGen& x, Rng& y) : CatGen(y, x.c) { tn = x.tn; sc = x.sc; tb = x.tb; ix = x.ix; own = x.own; tix = x.tix; nt = x.nt; names = x.names; conc = true; } } g1(g, ra), g2(g, rb);
  snprintf(sh + 256, 1 << 19, "{\"h\":[%s]", line.c_str());
  shim::SchedOpts so; so.seed = sd; so.preempt_permille = pre; so.max_steps = 400000;
  auto sr = shim::RunSched(so, {[&] { t_tag = sh; a = g1.Step(); lq.Leave(); }, [&] { t_tag = sh + 64; b = g2.Step(); lq.Leave(); }, [&] { lq.Serve(); }});
  if (sr.deadlock || sr.overrun) _exit(70);
  c.L.be->queue = nullptr; std::string z = Catalogue(c).s;
  if (snprintf(sh + 256, 1 << 19, "{\"h\":[%s],\"a\":%s,\"b\":%s,\"z\":%s}", line.c_str(), a.s.c_str(), b.s.c_str(), z.c_str()) >= 1 << 19) _exit(77);
}
static int Conc(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = argc > 5 ? atoi(argv[5]) : 10; Watch wd(60); Out f(argv[2]); std::map<std::string, int> cnt; std::set<std::string> seen; int64_t runs = 0;
  char* sh = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  dingodb::FLAGS_async_create_table = true;
  for (int h = 0; h < N; h++) {
    uint64_t seed = r.Next(); int nm = 1 + r.N(2); uint64_t pair = r.Next();
    for (int t = 0; t < 6; t++, runs++) {
      wd.Tick(); uint64_t sd = r.Next(); int pre = 60 + r.N(500); memset(sh, 0, 1 << 20); fflush(nullptr); pid_t pid = fork();
      if (pid == 0) { alarm(60); if (!getenv("SHOW")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); } ConcRun(h, seed, nm, pair, len, sd, pre, sh); _exit(0); }
      int st = 0; waitpid(pid, &st, 0); std::string line = sh + 256, e;
      if (line.empty()) Setup("the history of a concurrent run failed");
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) e = line; else { if (WIFEXITED(st) && WEXITSTATUS(st) == 77) Setup("concurrent run"); std::string a = sh, b = sh + 64; if (b < a) std::swap(a, b); e = line + ",\"died\":\"" + a + "-" + b + (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM || WIFEXITED(st) ? ":hang" : ":abort") + "\"}"; }
      auto o = [&](const char* k) { auto p = e.find(k); if (p == std::string::npos) return std::string("died"); std::string x = e.substr(p + 5); x = x.substr(0, x.find("\"e\"") + 10); return x.substr(6, x.find('"', 6) - 6) + (x.find("\"e\":\"ok\"") != std::string::npos ? "+" : "-"); };
      if (seen.insert(e).second) { f.Line(J::Raw(e)); cnt[o("\"a\":{") + "/" + o("\"b\":{")]++; }
    }
  }
  printf("concurrent outcomes %zu of %ld runs :", seen.size(), (long)runs); for (auto& [k, v] : cnt) if (v > 3) printf(" %s=%d", k.c_str(), v); printf("\n"); return 0;
}
// Replicas: the log of a history applied elsewhere, with restarts, crashes at every write, and snapshots.
static int Rep(int argc, char** argv) {
  Rng r(atoi(argv[3])); int N = atoi(argv[4]), len = argc > 5 ? atoi(argv[5]) : 30; Watch wd(60); Out f(argv[2]); std::set<std::string> seen; std::map<std::string, int> cnt; int64_t crashes = 0; std::map<std::string, std::map<std::string, int>> ids;
  dingodb::FLAGS_async_create_table = true; FLAGS_task_retry_count = 1; FLAGS_task_error_count = 2; shim::g_virtual_us = 1700000000000000; RepJ rj;
  auto in = [&](const char* k, const std::string& j) { auto& m = ids[k]; auto i = m.find(j); if (i != m.end()) return i->second; int n = m.size() + 1; m[j] = n; f.Line(J::Raw("{\"" + std::string(k) + "\":" + j + "}")); return n; };
  auto step = [&](int n, const char* o, int x, int p) { std::string e = "{\"n\":" + std::to_string(n) + ",\"o\":\"" + o + "\",\"x\":" + std::to_string(x) + ",\"p\":" + std::to_string(p) + "}"; if (seen.insert(e).second) { f.Line(J::Raw(e)); cnt[o]++; } };
  using MR = MetaReplica<CoordinatorControl>; auto init = [](std::shared_ptr<CoordinatorControl> k) { if (!k->Init()) Setup("init"); };
  auto S = [&](MR& x) { return in("st", rj.State(*x.ctl).s); };
  auto maps = [&](MR& x, bool lead) { if (lead) x.ctl->OnLeaderStart(1); step(S(x), "maps", 0, in("mp", rj.Maps(*x.ctl, lead).s)); };
  for (int h = 0; h < N; h++) {
    std::vector<Entry> log; int syn = r.N(4);
    { Coord c("/metal" + std::to_string(h)); c.L.Lead(); c.Store(1001); c.Store(1002); c.Store(1003); CatGen g(r, c); int64_t nid = 700000;
      for (int i = 0; i < len; i++) { wd.Tick(); if (r.P(syn == 0 ? 300 : 950)) { IncGen q(r, c.C(), nid); c.L.Follow(EncodeIncrement(Constant::kMetaRegionId, q.Next())); nid = q.nid; } else g.Step(); }
      log = c.L.log; }
    std::vector<int> e; for (auto& x : log) e.push_back(in("en", rj.Ent(x).s));
    auto apply = [&](MR& x, size_t i) { wd.Tick(); int n = S(x); x.Apply(log[i]); step(n, "apply", e[i], S(x)); maps(x, false); };
    // run `act` on x, and also run it cut short by a crash at each of its writes and started over
    auto cut = [&](MR& x, const char* o, const char* o2, int arg, const std::function<void()>& act, int permille) {
      std::string db = x.path + "/rocksdb"; auto base = shim::RocksGetContent(db); int n = S(x); std::vector<shim::RocksDump> at;
      shim::SetRocksWriteHook([&](const shim::RocksWrite&) { at.push_back(shim::RocksGetContent(db)); return rocksdb::Status::OK(); });
      act(); shim::SetRocksWriteHook(nullptr); step(n, o, arg, S(x)); maps(x, false); auto done = shim::RocksGetContent(db); at.push_back(done);
      for (auto& c : at) { if (!r.P(permille)) continue; wd.Tick(); crashes++; shim::RocksSetContent(db, c); x.Restart(); act(); step(n, o2, arg, S(x)); if (r.P(200)) maps(x, r.P(500)); }
      shim::RocksSetContent(db, done); x.Restart(); step(n, o2, arg, S(x)); maps(x, r.P(300));
    };
    MR A("/metaa" + std::to_string(h), init), B("/metab" + std::to_string(h), init); if (log.empty()) continue; size_t n = log.size();
    size_t i = r.N(n + 1), j = i == 0 || r.P(300) ? 0 : r.N(i); std::string snap; int sn = 0;
    for (size_t k = 0; k <= n; k++) {
      if (k == i) { sn = S(A); snap = A.Save("/tmp/verif-metasnap-" + std::to_string(getpid())); step(sn, "same", 0, S(A)); }
      if (k == n) break;
      if (r.P(300)) cut(A, "apply", "redo", e[k], [&] { A.Apply(log[k]); }, 1000); else apply(A, k);
      if (r.P(60)) { int s = S(A); A.Apply(log[r.N(k + 1)]); step(s, "same", 0, S(A)); }
      if (r.P(60)) maps(A, true);
    }
    for (size_t k = 0; k < j; k++) apply(B, k);
    if (i > 0) { cut(B, "install", "install", sn, [&] { if (B.Load(snap, log[i - 1].index, log[i - 1].term)) Setup("load"); }, 250); for (size_t k = i; k < n; k++) apply(B, k); step(S(B), "same", 0, S(A)); }
    std::filesystem::remove_all(snap);
  }
  printf("replica steps %zu states %zu entries %zu crashes %ld :", seen.size(), ids["st"].size(), ids["en"].size(), (long)crashes); for (auto& [k, v] : cnt) printf(" %s=%d", k.c_str(), v); printf("\n"); { std::error_code ec; std::filesystem::remove_all("/tmp/verif-metasnap-" + std::to_string(getpid()), ec); } return 0;
}
#include "metajob.h"
int main(int argc, char** argv) { std::string m = argc > 1 ? argv[1] : ""; int r = m == "cat" ? Cat(argc, argv) : m == "conc" ? Conc(argc, argv) : m == "rep" ? Rep(argc, argv) : m == "job" ? Jobs(argc, argv) : 77; fflush(nullptr); _exit(r); }
