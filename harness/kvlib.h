// The coordinator's versioned key-value store behind its RPC service, in the vocabulary of specs/Kv.tla.
#pragma once
#include "coord.h"
#include "server/version_service.h"
#include "txnlib.h"
namespace h {
using pb::coordinator::IdEpochType;
static const int64_t kRev0 = 10000;
struct KvOp { std::string o; int k = 0, k2 = 0, v = 0, l = 0; bool pv = false, il = false, iv = false; int64_t n = 0, id = 0, ttl = 0, st = 0; bool np = false, nd = false, wt = false;
  J Json() const { return O({{"o", o}, {"k", k}, {"k2", k2}, {"v", v}, {"l", l}, {"pv", pv}, {"il", il}, {"iv", iv}, {"n", n}, {"id", id}, {"ttl", ttl}, {"st", st}, {"np", np}, {"nd", nd}, {"wt", wt}}); } };
inline std::string KK(int k) { if (k == 0) return ""; if (k == -1) return std::string(1, '\0'); char b[16]; snprintf(b, sizeof b, "k%03d", k); return b; }
inline int KKI(const std::string& s) { return s.empty() ? 0 : s[0] == 'k' ? atoi(s.c_str() + 1) : 999; }
inline std::string VV(int v) { return v == 0 ? "" : "v" + std::to_string(v); }
inline int VVI(const std::string& s) { return s.empty() ? 0 : s[0] == 'v' ? atoi(s.c_str() + 1) : 999; }
inline int64_t R0(int64_t r) { return r == 0 ? 0 : r - kRev0; }
inline J KvJ(const pb::version::Kv& x) { return O({{"k", KKI(x.kv().key())}, {"v", VVI(x.kv().value())}, {"c", R0(x.create_revision())}, {"m", R0(x.mod_revision())}, {"ver", x.version()}, {"l", x.lease()}}); }
inline J RevJ(const pb::coordinator_internal::RevisionInternal& r) { std::vector<int64_t> v{R0(r.main()), r.sub()}; return J::Arr(v); }
struct KvWatch { int64_t id; int k; int64_t st, r0; bool np, nd, pv, ca = false; bool done = false; pb::version::WatchRequest q; pb::version::WatchResponse p; brpc::Controller* c; struct Cl : google::protobuf::Closure { KvWatch* w; void Run() override { w->done = true; } } cl; };
struct KvWorld {
  MetaLeader<KvControl> L; VersionServiceProtoImpl svc; int64_t now0; std::map<int64_t, KvWatch*> ws; int nk; int64_t pnl; LogBackend::Queue* conc = nullptr;
  KvControl& C() { return *L.rep.ctl; }
  explicit KvWorld(const std::string& p, int keys = 4) : L(p, Constant::kKvRegionId), nk(keys) { shim::g_virtual_us = 1000000ll * 1000000; now0 = 1000000; Wire(); pnl = 90000; }
  void Wire() { L.rep.ctl->SetKvEngine(L.eng); svc.SetKvEngine(L.eng); svc.SetControl(L.rep.ctl); svc.SetWorkSet(std::make_shared<InlineWorkers>()); }
  int64_t Now() { return shim::g_virtual_us / 1000000 - now0; }
  int64_t Rev() { return R0(std::max<int64_t>(kRev0, C().GetPresentId(IdEpochType::ID_NEXT_REVISION))); }
  // what is stored: index, revisions, leases
  static void Stored(KvControl& c, int nk, int64_t now0, std::vector<J>& idx, std::vector<J>& rv, std::vector<J>& ls) {
    int64_t rev = R0(std::max<int64_t>(kRev0, c.GetPresentId(IdEpochType::ID_NEXT_REVISION)));
    for (int k = 1; k <= nk; k++) {
      pb::coordinator_internal::KvIndexInternal x; if (!c.GetRawKvIndex(KK(k), x).ok()) continue;
      idx.push_back(O({{"k", KKI(x.id())}, {"m", RevJ(x.mod_revision())}, {"g", J::Arr(x.generations(), [](const pb::coordinator_internal::KvIndexInternal::Generation& g) { std::vector<J> cr; J cj = J::Raw("[]"); if (g.has_create_revision()) cj = RevJ(g.create_revision()); return O({{"c", cj}, {"v", g.verison()}, {"r", J::Arr(g.revisions(), [](const pb::coordinator_internal::RevisionInternal& r) { return RevJ(r); })}}); })}}));
    }
    for (int64_t m = 1; m <= rev + 1; m++) for (int s = 1; s <= nk + 1; s++) { pb::coordinator_internal::RevisionInternal r; r.set_main(kRev0 + m); r.set_sub(s); pb::coordinator_internal::KvRevInternal q; if (!c.GetRawKvRev(r, q).ok() || q.kv().id().empty()) continue; auto& k = q.kv(); rv.push_back(O({{"r", RevJ(r)}, {"k", KKI(k.id())}, {"v", VVI(k.value())}, {"c", RevJ(k.create_revision())}, {"m", RevJ(k.mod_revision())}, {"ver", k.version()}, {"l", k.lease()}, {"d", k.is_deleted()}})); }
    std::vector<pb::coordinator_internal::LeaseInternal> l; c.ListLeases(l);
    for (auto& x : l) ls.push_back(O({{"id", x.id()}, {"ttl", x.ttl_seconds()}, {"rn", x.last_renew_ts_seconds() - now0}}));
  }
  // a replica: the stored data and how far it has applied the log
  static J Replica(KvControl& c, int nk, int64_t now0) { std::vector<J> idx, rv, ls; Stored(c, nk, now0, idx, rv, ls); int64_t ap = 0; c.id_epoch_map_.GetPresentId(IdEpochType::RAFT_APPLY_INDEX, ap); return O({{"rev", R0(c.GetPresentId(IdEpochType::ID_NEXT_REVISION))}, {"nl", c.GetPresentId(IdEpochType::ID_NEXT_LEASE)}, {"idx", J::Arr(idx)}, {"rv", J::Arr(rv)}, {"ls", J::Arr(ls)}, {"ap", ap}}); }
  // a log entry
  static J EntryJ(const Entry& e, int64_t now0) {
    pb::raft::RaftCmdRequest c; if (!c.ParseFromString(e.data) || c.requests_size() != 1) Setup("entry"); auto& m = c.requests(0).meta_req().meta_increment(); namespace ci = pb::coordinator_internal; std::vector<J> kv, ls; int64_t nl = 0;
    for (auto& k : m.kv_indexes()) { std::string t = k.event_type() == ci::KV_INDEX_EVENT_TYPE_PUT ? "put" : k.event_type() == ci::KV_INDEX_EVENT_TYPE_DELETE ? "del" : "comp"; kv.push_back(O({{"t", t}, {"k", KKI(k.id())}, {"v", VVI(k.value())}, {"l", k.lease_id()}, {"il", k.ignore_lease()}, {"iv", k.ignore_value()}, {"c", t == "comp" ? R0(k.op_revision().main()) : 0}})); }
    for (auto& l : m.leases()) ls.push_back(O({{"id", l.id()}, {"op", l.op_type() == ci::DELETE ? "d" : l.op_type() == ci::UPDATE ? "u" : "c"}, {"ttl", l.lease().ttl_seconds()}, {"rn", l.lease().last_renew_ts_seconds() - now0}}));
    for (auto& i : m.idepochs()) { if (i.id() != IdEpochType::ID_NEXT_LEASE || i.op_type() != ci::UPDATE) Setup("idepoch in log"); nl = std::max<int64_t>(nl, i.idepoch().value()); }
    return O({{"x", e.index}, {"kv", J::Arr(kv)}, {"ls", J::Arr(ls)}, {"nl", nl}, {"empty", m.ByteSizeLong() == 0}});
  }
  J State() {
    auto& c = C(); std::vector<J> idx, rv, ls, lk, w; int64_t rev = Rev(); Stored(c, nk, now0, idx, rv, ls);
    std::vector<pb::coordinator_internal::LeaseInternal> l; c.ListLeases(l); int64_t keep = shim::g_virtual_us;
    bool built = c.IsLeader() && c.IsLeaseToKeyMapInited();
    for (auto& x : l) {
      if (!built) continue;
      shim::g_virtual_us = x.last_renew_ts_seconds() * 1000000ll; int64_t g, rm; std::set<std::string> ks; if (c.LeaseQuery(x.id(), true, g, rm, ks).ok()) for (auto& k : ks) { std::vector<int64_t> pr{x.id(), KKI(k)}; lk.push_back(J::Arr(pr)); }
    }
    shim::g_virtual_us = keep;
    for (auto& [id, x] : ws) w.push_back(O({{"id", id}, {"k", x->k}, {"st", x->st}, {"r0", x->r0}, {"np", x->np}, {"nd", x->nd}, {"pv", x->pv}, {"ca", x->ca}}));
    return O({{"rev", rev}, {"nl", std::max<int64_t>(90000, c.GetPresentId(IdEpochType::ID_NEXT_LEASE))}, {"pnl", pnl}, {"idx", J::Arr(idx)}, {"rv", J::Arr(rv)}, {"ls", J::Arr(ls)}, {"lk", J::Arr(lk)}, {"w", J::Arr(w)}, {"lead", L.lead}, {"built", built}, {"now", Now()}});
  }
  struct R { std::string e = "ok"; int64_t rev = 0, n = 0; std::vector<J> kvs, fired; bool more = false; int64_t id = 0, ttl = 0; std::vector<int64_t> ks;
    J Json() const { return O({{"e", e}, {"rev", rev}, {"n", n}, {"kvs", J::Arr(kvs)}, {"more", more}, {"id", id}, {"ttl", ttl}, {"ks", J::Arr(ks)}, {"fired", J::Arr(fired)}}); } };
  static std::string E(const pb::error::Error& e) { switch (e.errcode()) { case 0: return "ok"; case pb::error::ERAFT_NOTLEADER: return "nl"; case pb::error::ELEASE_NOT_EXISTS_OR_EXPIRED: return "le"; default: return "bad"; } }
  template <class Q, class P> void Call(void (VersionServiceProtoImpl::*m)(google::protobuf::RpcController*, const Q*, P*, google::protobuf::Closure*), const Q& q, P& p, R& r) { if (conc) { struct D : google::protobuf::Closure { LogBackend::Queue* u; bool ran = false; void Run() override { bthread_mutex_lock(&u->m); ran = true; bthread_cond_broadcast(&u->c); bthread_mutex_unlock(&u->m); } } d; d.u = conc; brpc::Controller c; (svc.*m)(&c, &q, &p, &d); bthread_mutex_lock(&d.u->m); while (!d.ran) bthread_cond_wait(&d.u->c, &d.u->m); bthread_mutex_unlock(&d.u->m); r.e = E(p.error()); } else if (!StoreWorld::CallOn(svc, m, q, p)) r.e = "noreply"; else r.e = E(p.error()); }
  using S = VersionServiceProtoImpl;
  void Reap(R& r) { for (auto i = ws.begin(); i != ws.end();) { auto* w = i->second; if (!w->done) { ++i; continue; } r.fired.push_back(Event(*w)); delete w->c; i = ws.erase(i); } }
  static J Event(KvWatch& w) { std::string ty = "X"; pb::version::Kv kv, pv; if (w.p.events_size()) { auto& e = w.p.events(0); ty = e.type() == pb::version::Event::PUT ? "P" : e.type() == pb::version::Event::DELETE ? "D" : e.type() == pb::version::Event::NOT_EXISTS ? "N" : "?"; kv = e.kv(); pv = e.prev_kv(); if (w.p.events_size() > 1) ty = "many"; } return O({{"id", w.id}, {"ty", ty}, {"kv", KvJ(kv)}, {"pv", KvJ(pv)}}); }
  R Do(const KvOp& o) {
    R r; using namespace pb::version;
    if (o.o == "put") { PutRequest q; PutResponse p; q.mutable_key_value()->set_key(KK(o.k)); q.mutable_key_value()->set_value(VV(o.v)); q.set_lease(o.l); q.set_need_prev_kv(o.pv); q.set_ignore_value(o.iv); q.set_ignore_lease(o.il); Call(&S::KvPut, q, p, r); r.rev = R0(p.header().revision()); if (o.pv && r.e == "ok") r.kvs.push_back(KvJ(p.prev_kv())); }
    else if (o.o == "del") { DeleteRangeRequest q; DeleteRangeResponse p; q.set_key(KK(o.k)); if (o.k2) q.set_range_end(KK(o.k2)); q.set_need_prev_kv(o.pv); Call(&S::KvDeleteRange, q, p, r); r.rev = R0(p.header().revision()); r.n = p.deleted(); for (auto& x : p.prev_kvs()) r.kvs.push_back(KvJ(x)); }
    else if (o.o == "range") { RangeRequest q; RangeResponse p; q.set_key(KK(o.k)); if (o.k2) q.set_range_end(KK(o.k2)); q.set_limit(o.n); q.set_keys_only(o.il); q.set_count_only(o.iv); Call(&S::KvRange, q, p, r); r.n = p.count(); r.more = p.more(); for (auto& x : p.kvs()) r.kvs.push_back(KvJ(x)); }
    else if (o.o == "compact") { CompactionRequest q; CompactionResponse p; q.set_key(KK(o.k)); if (o.k2) q.set_range_end(KK(o.k2)); q.set_compact_revision(kRev0 + o.n); Call(&S::KvCompaction, q, p, r); r.n = p.compaction_count(); }
    else if (o.o == "auto") { Flag("auto_compaction", "true"); Flag("compaction_retention_rev_count", o.n); C().CompactionTask(); }
    else if (o.o == "grant") { LeaseGrantRequest q; LeaseGrantResponse p; q.set_id(o.id); q.set_ttl(o.ttl); Call(&S::LeaseGrant, q, p, r); if (r.e == "ok") { r.id = p.id(); r.ttl = p.ttl(); if (!o.id) pnl = p.id(); } }
    else if (o.o == "renew") { LeaseRenewRequest q; LeaseRenewResponse p; q.set_id(o.id); Call(&S::LeaseRenew, q, p, r); if (r.e == "ok") { r.id = p.id(); r.ttl = p.ttl(); } }
    else if (o.o == "revoke") { LeaseRevokeRequest q; LeaseRevokeResponse p; q.set_id(o.id); Call(&S::LeaseRevoke, q, p, r); }
    else if (o.o == "query") { LeaseQueryRequest q; LeaseQueryResponse p; q.set_id(o.id); q.set_keys(o.pv); Call(&S::LeaseQuery, q, p, r); if (r.e == "ok") { r.id = p.id(); r.ttl = p.ttl(); r.n = p.grantedttl(); for (auto& k : p.keys()) r.ks.push_back(KKI(k)); } }
    else if (o.o == "list") { ListLeasesRequest q; ListLeasesResponse p; Call(&S::ListLeases, q, p, r); for (auto& x : p.leases()) r.ks.push_back(x.id()); }
    else if (o.o == "task") C().LeaseTask();
    else if (o.o == "watch") {
      auto* w = new KvWatch; w->id = o.id; w->k = o.k; w->st = o.st; w->r0 = Rev(); w->np = o.np; w->nd = o.nd; w->pv = o.pv; w->cl.w = w; w->c = new brpc::Controller;
      auto* q = w->q.mutable_one_time_request(); q->set_key(KK(o.k)); q->set_need_prev_kv(o.pv); q->set_wait_on_not_exist_key(o.wt); q->set_start_revision(o.st ? kRev0 + o.st : 0); if (o.np) q->add_filters(NOPUT); if (o.nd) q->add_filters(NODELETE);
      svc.Watch(w->c, &w->q, &w->p, &w->cl);
      if (w->done && w->p.error().errcode()) { r.e = E(w->p.error()); if (w->p.events_size()) r.e = "both"; delete w->c; } else ws[o.id] = w;
    }
    else if (o.o == "cancel") { auto i = ws.find(o.id); if (i != ws.end()) { i->second->ca = true; auto v = std::move(i->second->c->cancel_); i->second->c->cancel_.clear(); for (auto* x : v) x->Run(); } }
    else if (o.o == "reap") C().RemoveOneTimeWatch();
    else if (o.o == "stop") L.Stop();
    else if (o.o == "lead") L.Lead();
    else if (o.o == "crash") { ws.clear(); L.Crash(); Wire(); L.Lead(); pnl = C().GetPresentId(IdEpochType::ID_NEXT_LEASE); pnl = std::max<int64_t>(pnl, 90000); }
    else if (o.o == "tick") shim::g_virtual_us += o.n * 1000000ll;
    else if (o.o == "fput" || o.o == "fdel") { pb::coordinator_internal::MetaIncrement m; auto* k = m.add_kv_indexes(); k->set_id(KK(o.k)); k->set_op_type(pb::coordinator_internal::UPDATE); k->set_event_type(o.o == "fput" ? pb::coordinator_internal::KV_INDEX_EVENT_TYPE_PUT : pb::coordinator_internal::KV_INDEX_EVENT_TYPE_DELETE); if (o.o == "fput") { k->set_ignore_lease(o.il); k->set_ignore_value(o.iv); k->set_lease_id(o.il ? 0 : o.l); if (!o.iv) k->set_value(VV(o.v)); } L.Follow(EncodeIncrement(Constant::kKvRegionId, m)); }
    else Setup("op " + o.o);
    if (!conc) Reap(r);
    return r;
  }
};
}  // namespace h
