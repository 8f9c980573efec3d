// Transactional requests against the real store service, in the small vocabulary of specs/Txn.tla:
// keys 1..3, values 0 (none) 1 2 (short) 3 (long), small timestamps.
#pragma once
#include <thread>
#include <atomic>
#include "store.h"
namespace h {
using namespace dingodb;
using pb::store::LockInfo;
inline std::string K(int k) { return k == 0 ? "xa" : k >= 4 ? "xz" : "xk" + std::to_string(k); }
inline int KI(const std::string& s) { if (s.empty()) return 0; if (s.size() == 3 && s[0] == 'x' && s[1] == 'k') return s[2] - '0'; return 99; }
inline std::string Val(int v) { return v == 0 ? "" : v == 3 ? std::string(300, 'L') : v == 1 ? "s1" : "s2"; }
inline int VI(const std::string& s) { return s.empty() ? 0 : s == "s1" ? 1 : s == "s2" ? 2 : s == std::string(300, 'L') ? 3 : 99; }
inline std::string OpS(pb::store::Op o) { switch (o) { case pb::store::Put: return "P"; case pb::store::Delete: return "D"; case pb::store::Rollback: return "R"; case pb::store::Lock: return "L"; case pb::store::PutIfAbsent: return "A"; case pb::store::CheckNotExists: return "C"; default: return "N"; } }
inline pb::store::Op OpOf(char c) { switch (c) { case 'P': return pb::store::Put; case 'D': return pb::store::Delete; case 'L': return pb::store::Lock; case 'A': return pb::store::PutIfAbsent; case 'C': return pb::store::CheckNotExists; default: return pb::store::Op::None; } }
inline J LockJ(const LockInfo& l) {
  return O({{"k", KI(l.key())}, {"p", KI(l.primary_lock())}, {"t", l.lock_ts()}, {"fu", l.for_update_ts()}, {"ttl", l.lock_ttl()}, {"sz", l.txn_size()}, {"ty", OpS(l.lock_type())}, {"v", VI(l.short_value())}, {"mc", l.min_commit_ts()}, {"as", l.use_async_commit()}, {"sec", J::Arr(l.secondaries(), [](const std::string& s) { return KI(s); })}, {"ex", VI(l.extra_data())}});
}
struct St { std::vector<LockInfo> l; struct W { int k; int64_t c, s; std::string op; int v; }; std::vector<W> w; struct D { int k; int64_t s; int v; }; std::vector<D> d; };
inline St Decode(const shim::RocksDump& m) {
  St s;
  auto cf = [&](const std::string& n) -> const rocksdb::KvMap* { auto i = m.find(n); return i == m.end() ? nullptr : &i->second; };
  std::string k; int64_t ts;
  if (auto c = cf(Constant::kTxnLockCF)) for (auto& [a, b] : *c) { LockInfo li; mvcc::Codec::DecodeKey(a, k, ts); li.ParseFromString(b); if (li.key() != k) li.set_key("bad"); s.l.push_back(li); }
  if (auto c = cf(Constant::kTxnWriteCF)) for (auto& [a, b] : *c) { pb::store::WriteInfo wi; mvcc::Codec::DecodeKey(a, k, ts); wi.ParseFromString(b); s.w.push_back({KI(k), ts, wi.start_ts(), OpS(wi.op()), VI(wi.short_value())}); }
  if (auto c = cf(Constant::kTxnDataCF)) for (auto& [a, b] : *c) { mvcc::Codec::DecodeKey(a, k, ts); s.d.push_back({KI(k), ts, VI(b)}); }
  return s;
}
inline std::string StateJ(const St& s) {
  return O({{"l", J::Arr(s.l, [](const LockInfo& l) { return LockJ(l); })}, {"w", J::Arr(s.w, [](const St::W& w) { return O({{"k", w.k}, {"c", w.c}, {"s", w.s}, {"op", w.op}, {"v", w.v}}); })}, {"d", J::Arr(s.d, [](const St::D& d) { return O({{"k", d.k}, {"s", d.s}, {"v", d.v}}); })}}).s;
}
inline shim::RocksDump Only(const shim::RocksDump& m) { shim::RocksDump r; for (auto n : {Constant::kTxnLockCF, Constant::kTxnWriteCF, Constant::kTxnDataCF}) { auto i = m.find(n); r[n] = i == m.end() ? rocksdb::KvMap{} : i->second; } return r; }
// results
inline J TxnRes(const pb::store::TxnResultInfo& t) {
  if (t.has_locked()) return O({{"y", "locked"}, {"l", LockJ(t.locked())}});
  if (t.has_write_conflict()) { auto& c = t.write_conflict(); return O({{"y", "wc"}, {"why", pb::store::WriteConflict_Reason_Name(c.reason())}, {"s", c.start_ts()}, {"c", c.conflict_ts()}, {"k", KI(c.key())}}); }
  if (t.has_txn_not_found()) { auto& c = t.txn_not_found(); return O({{"y", "nf"}, {"s", c.start_ts()}}); }
  if (t.has_primary_mismatch()) return O({{"y", "mm"}, {"l", LockJ(t.primary_mismatch().lock_info())}});
  if (t.has_commit_ts_expired()) { auto& c = t.commit_ts_expired(); return O({{"y", "ce"}, {"s", c.start_ts()}, {"c", c.attempted_commit_ts()}, {"k", KI(c.key())}, {"m", c.min_commit_ts()}}); }
  return O({{"y", "none"}});
}
struct Res { int e = 0; std::vector<J> t; std::vector<J> kv; std::vector<int> ae; int64_t c = 0, m = 0, ttl = 0; std::string act = "NoAction"; std::vector<J> locks; std::vector<J> pg; int ml = 0; int64_t am = 0;
  void T(const pb::store::TxnResultInfo& x) { auto j = TxnRes(x); if (j.s != "{\"y\":\"none\"}") t.push_back(j); }
  J Json() const { return O({{"e", e}, {"t", J::Arr(t)}, {"kv", J::Arr(kv)}, {"ae", J::Arr(ae)}, {"c", c}, {"m", m}, {"ttl", ttl}, {"act", act}, {"locks", J::Arr(locks)}, {"pg", J::Arr(pg)}, {"ml", ml}, {"am", am}}); } };
inline J Kv(const std::string& k, const std::string& v) { return O({{"k", KI(k)}, {"v", VI(v)}}); }
// an operation
struct Mu { char op; int k, v; };
struct Op { std::string o; std::vector<int> ks; int64_t s = 0, c = 0, fu = 0, ttl = 0, sz = 1, mc = 0, maxc = 0, cur = 0, lim = 0; int p = 0, a = 0, b = 4; bool onepc = false, force = false, rine = false, rv = false, rc = false; std::vector<int> rl; std::vector<Mu> mu; std::vector<int> pc, fc /* 0: no check */, ex, sec; std::vector<std::pair<int64_t, int64_t>> ti; bool mono = false; int64_t mt = 0;
  J Json() const { return O({{"o", o}, {"ks", J::Arr(ks)}, {"s", s}, {"c", c}, {"fu", fu}, {"ttl", ttl}, {"sz", sz}, {"mc", mc}, {"maxc", maxc}, {"cur", cur}, {"lim", lim}, {"p", p}, {"a", a}, {"b", b}, {"onepc", onepc}, {"force", force}, {"rine", rine}, {"rv", rv}, {"rc", rc}, {"rl", J::Arr(rl)}, {"mu", J::Arr(mu, [](const Mu& m) { return O({{"op", std::string(1, m.op)}, {"k", m.k}, {"v", m.v}}); })}, {"pc", J::Arr(pc)}, {"fc", J::Arr(fc)}, {"ex", J::Arr(ex)}, {"sec", J::Arr(sec)}, {"ti", J::Arr(ti, [](const std::pair<int64_t, int64_t>& x) { return O({{"s", x.first}, {"c", x.second}}); })}, {"mono", mono}, {"mt", mt}}); } };
struct TxnWorld {
  StoreWorld w; store::RegionPtr rr, rm;
  explicit TxnWorld(const std::string& p) : w(p) { Flag("enable_async_store_operation", "false"); rr = w.AddRegion(10, "xa", "xz"); rm = w.AddRegion(11, "xa", "xz", false); w.meta->GetGCSafePointManager()->SetGcFlagAndSafePointTs({{0, 1}}, false); }
  store::RegionPtr Region(const Op& o) { return o.mono ? rm : rr; }
  template <class Q> void Ctx(Q& q, const Op& o) { SetCtx(q.mutable_context(), o.mono ? 11 : 10); q.mutable_context()->set_isolation_level(o.rc ? pb::store::ReadCommitted : pb::store::SnapshotIsolation); for (int x : o.rl) q.mutable_context()->add_resolved_locks(x); }
  template <class P> void Fin(const P& p, Res& r) { r.e = p.error().errcode(); }
  std::function<void(int)> between;  // called between pages of a scan
  Res Do(const Op& o) {
    Res r; auto region = Region(o); auto& S = w;
    if (o.o == "get") { pb::store::TxnGetRequest q; pb::store::TxnGetResponse p; Ctx(q, o); q.set_key(K(o.ks[0])); q.set_start_ts(o.s); S.Call(&StoreServiceImpl::TxnGet, q, p); Fin(p, r); if (p.has_txn_result()) r.T(p.txn_result()); if (r.t.empty()) r.kv.push_back(Kv(K(o.ks[0]), p.value())); }
    else if (o.o == "bget") { pb::store::TxnBatchGetRequest q; pb::store::TxnBatchGetResponse p; Ctx(q, o); for (int k : o.ks) q.add_keys(K(k)); q.set_start_ts(o.s); S.Call(&StoreServiceImpl::TxnBatchGet, q, p); Fin(p, r); r.T(p.txn_result()); for (auto& x : p.kvs()) r.kv.push_back(Kv(x.key(), x.value())); }
    else if (o.o == "scan") {
      std::string sid; 
      for (int page = 0; page < 12; page++) {
        pb::store::TxnScanRequest q; pb::store::TxnScanResponse p; Ctx(q, o); q.set_start_ts(o.s);
        auto* rg = q.mutable_range(); rg->mutable_range()->set_start_key(K(o.a)); rg->mutable_range()->set_end_key(K(o.b)); rg->set_with_start(true); rg->set_with_end(false);
        q.mutable_stream_meta()->set_limit(o.lim); if (!sid.empty()) q.mutable_stream_meta()->set_stream_id(sid);
        S.Call(&StoreServiceImpl::TxnScan, q, p); if (p.error().errcode()) { r.e = p.error().errcode(); break; }
        std::vector<J> kv; for (auto& x : p.kvs()) kv.push_back(Kv(x.key(), x.value()));
        bool more = p.stream_meta().has_more(); std::vector<J> t; { auto j = TxnRes(p.txn_result()); if (j.s != "{\"y\":\"none\"}") t.push_back(j); }
        r.pg.push_back(O({{"kv", J::Arr(kv)}, {"more", more}, {"t", J::Arr(t)}}));
        sid = p.stream_meta().stream_id(); if (!more || !t.empty()) break;
        if (between) between(page);
      }
      // give the stream back
      if (!sid.empty()) { pb::store::TxnScanRequest q; pb::store::TxnScanResponse p; Ctx(q, o); q.set_start_ts(o.s); auto* rg = q.mutable_range(); rg->mutable_range()->set_start_key(K(o.a)); rg->mutable_range()->set_end_key(K(o.b)); rg->set_with_start(true); q.mutable_stream_meta()->set_limit(1); q.mutable_stream_meta()->set_close(true); q.mutable_stream_meta()->set_stream_id(sid); S.Call(&StoreServiceImpl::TxnScan, q, p); }
    }
    else if (o.o == "scanlock") {
      std::string sid;
      for (int page = 0; page < 12; page++) {
        pb::store::TxnScanLockRequest q; pb::store::TxnScanLockResponse p; Ctx(q, o); q.set_max_ts(o.s); q.set_start_key(K(o.a)); q.set_end_key(K(o.b)); q.set_limit(o.lim);
        q.mutable_stream_meta()->set_limit(o.lim); if (!sid.empty()) q.mutable_stream_meta()->set_stream_id(sid);
        S.Call(&StoreServiceImpl::TxnScanLock, q, p); if (p.error().errcode()) { r.e = p.error().errcode(); break; }
        bool more = p.stream_meta().has_more(); std::vector<J> ls; for (auto& x : p.locks()) ls.push_back(LockJ(x));
        r.pg.push_back(O({{"kv", J::Arr(ls)}, {"more", more}, {"t", J::Raw("[]")}})); sid = p.stream_meta().stream_id(); if (!more) break;
        if (between) between(page);
      }
      if (!sid.empty()) { pb::store::TxnScanLockRequest q; pb::store::TxnScanLockResponse p; Ctx(q, o); q.set_max_ts(o.s); q.set_start_key(K(o.a)); q.set_end_key(K(o.b)); q.set_limit(1); q.mutable_stream_meta()->set_limit(1); q.mutable_stream_meta()->set_close(true); q.mutable_stream_meta()->set_stream_id(sid); S.Call(&StoreServiceImpl::TxnScanLock, q, p); }
    }
    else if (o.o == "plock") { pb::store::TxnPessimisticLockRequest q; pb::store::TxnPessimisticLockResponse p; Ctx(q, o); for (auto& m : o.mu) { auto* x = q.add_mutations(); x->set_op(OpOf(m.op)); x->set_key(K(m.k)); x->set_value(Val(m.v)); } q.set_primary_lock(K(o.p)); q.set_start_ts(o.s); q.set_lock_ttl(o.ttl); q.set_for_update_ts(o.fu); q.set_return_values(o.rv); S.Call(&StoreServiceImpl::TxnPessimisticLock, q, p); Fin(p, r); for (auto& t : p.txn_result()) r.T(t); for (auto& x : p.kvs()) r.kv.push_back(Kv(x.key(), x.value())); }
    else if (o.o == "prb") { pb::store::TxnPessimisticRollbackRequest q; pb::store::TxnPessimisticRollbackResponse p; Ctx(q, o); for (int k : o.ks) q.add_keys(K(k)); q.set_start_ts(o.s); q.set_for_update_ts(o.fu); S.Call(&StoreServiceImpl::TxnPessimisticRollback, q, p); Fin(p, r); for (auto& t : p.txn_result()) r.T(t); }
    else if (o.o == "prewrite") {
      pb::store::TxnPrewriteRequest q; pb::store::TxnPrewriteResponse p; Ctx(q, o);
      for (auto& m : o.mu) { auto* x = q.add_mutations(); x->set_op(OpOf(m.op)); x->set_key(K(m.k)); x->set_value(Val(m.v)); }
      q.set_primary_lock(K(o.p)); q.set_start_ts(o.s); q.set_lock_ttl(o.ttl); q.set_txn_size(o.sz); q.set_try_one_pc(o.onepc); q.set_min_commit_ts(o.mc); q.set_max_commit_ts(o.maxc);
      for (int x : o.pc) q.add_pessimistic_checks((pb::store::TxnPrewriteRequest::PessimisticCheck)x);
      for (size_t i = 0; i < o.fc.size(); i++) if (o.fc[i]) { auto* f = q.add_for_update_ts_checks(); f->set_index(i); f->set_expected_for_update_ts(o.fc[i]); }
      for (size_t i = 0; i < o.ex.size(); i++) if (o.ex[i]) { auto* f = q.add_lock_extra_datas(); f->set_index(i); f->set_extra_data(Val(o.ex[i])); }
      if (!o.sec.empty()) q.set_use_async_commit(true); for (int x : o.sec) q.add_secondaries(K(x));
      S.Call(&StoreServiceImpl::TxnPrewrite, q, p); Fin(p, r); for (auto& t : p.txn_result()) r.T(t); for (auto& x : p.keys_already_exist()) r.ae.push_back(KI(x.key())); r.c = p.one_pc_commit_ts(); r.m = p.min_commit_ts();
    }
    else if (o.o == "commit") { pb::store::TxnCommitRequest q; pb::store::TxnCommitResponse p; Ctx(q, o); for (int k : o.ks) q.add_keys(K(k)); q.set_start_ts(o.s); q.set_commit_ts(o.c); S.Call(&StoreServiceImpl::TxnCommit, q, p); Fin(p, r); r.T(p.txn_result()); r.c = p.commit_ts(); }
    else if (o.o == "rollback") { pb::store::TxnBatchRollbackRequest q; pb::store::TxnBatchRollbackResponse p; Ctx(q, o); for (int k : o.ks) q.add_keys(K(k)); q.set_start_ts(o.s); S.Call(&StoreServiceImpl::TxnBatchRollback, q, p); Fin(p, r); r.T(p.txn_result()); }
    else if (o.o == "cts") { pb::store::TxnCheckTxnStatusRequest q; pb::store::TxnCheckTxnStatusResponse p; Ctx(q, o); q.set_primary_key(K(o.p)); q.set_lock_ts(o.s); q.set_caller_start_ts(o.c); q.set_current_ts(o.cur << 18); q.set_force_sync_commit(o.force); q.set_rollback_if_not_exist(o.rine); S.Call(&StoreServiceImpl::TxnCheckTxnStatus, q, p); Fin(p, r); r.T(p.txn_result()); r.ttl = p.lock_ttl(); r.c = p.commit_ts(); r.act = pb::store::Action_Name(p.action()); }
    else if (o.o == "csl") { pb::store::TxnCheckSecondaryLocksRequest q; pb::store::TxnCheckSecondaryLocksResponse p; Ctx(q, o); for (int k : o.ks) q.add_keys(K(k)); q.set_start_ts(o.s); S.Call(&StoreServiceImpl::TxnCheckSecondaryLocks, q, p); Fin(p, r); r.T(p.txn_result()); for (auto& l : p.locks()) r.locks.push_back(LockJ(l)); r.c = p.commit_ts(); }
    else if (o.o == "resolve") { pb::store::TxnResolveLockRequest q; pb::store::TxnResolveLockResponse p; Ctx(q, o); for (int k : o.ks) q.add_keys(K(k)); if (o.ti.empty()) { q.set_start_ts(o.s); q.set_commit_ts(o.c); } for (auto& [a, b] : o.ti) { auto* t = q.add_txn_infos(); t->set_start_ts(a); t->set_commit_ts(b); } S.Call(&StoreServiceImpl::TxnResolveLock, q, p); Fin(p, r); r.T(p.txn_result()); }
    else if (o.o == "hb") { pb::store::TxnHeartBeatRequest q; pb::store::TxnHeartBeatResponse p; Ctx(q, o); q.set_primary_lock(K(o.p)); q.set_start_ts(o.s); q.set_advise_lock_ttl(o.ttl); S.Call(&StoreServiceImpl::TxnHeartBeat, q, p); Fin(p, r); r.T(p.txn_result()); r.ttl = p.lock_ttl(); }
    else if (o.o == "gc") { w.meta->GetGCSafePointManager()->SetGcFlagAndSafePointTs({{0, o.s}}, false); pb::store::TxnGcRequest q; pb::store::TxnGcResponse p; Ctx(q, o); q.set_safe_point_ts(o.s); S.Call(&StoreServiceImpl::TxnGc, q, p); Fin(p, r); }
    else Setup("op " + o.o);
    std::map<std::string, LockInfo> ml; region->GetMemoryLocks(ml); r.ml = ml.size(); r.am = region->TxnAccessMaxTs();
    return r;
  }
};
// Ends the process when no step happened for a while: the code under test hangs.
}  // namespace h
