// Encodings of keys, values and ranges as the store and its indexes use them.
//   codec run OUT SEED N
#include "h.h"
#include "common/helper.h"
#include "common/serial_helper.h"
#include "document/codec.h"
#include "mvcc/codec.h"
#include "vector/codec.h"
using namespace h; using namespace dingodb; using C = mvcc::Codec;
static J B(std::string_view s) { return J::Arr(s, [](char c) { return (int)(unsigned char)c; }); }
static J L(int64_t v) { std::string s; for (int i = 7; i >= 0; i--) s.push_back((char)((uint64_t)v >> (8 * i))); return B(s); }
struct Gen {
  Rng& r; std::vector<std::string> pool;
  char Byte() { static const unsigned char e[] = {0, 1, 2, 7, 8, 0x7f, 0x80, 0xf6, 0xf7, 0xf8, 0xfe, 0xff, 'w', 'r', 'a', 'z'}; return r.P(800) ? (char)e[r.N(16)] : (char)r.N(256); }
  std::string Key() {
    std::string s; if (!pool.empty() && r.P(500)) { s = pool[r.N(pool.size())]; int k = r.N(5); if (k == 0 && !s.empty()) s.pop_back(); if (k == 1) s.push_back(Byte()); if (k == 2 && !s.empty()) s[r.N(s.size())] = Byte(); if (k == 3 && !s.empty()) s[s.size() - 1]++; }
    else { int n = r.P(600) ? (int)r.N(20) : 6 + (int)r.N(4) + 8 * (int)r.N(3); char run = Byte(); for (int i = 0; i < n; i++) s.push_back(r.P(400) ? run : Byte()); }
    if (pool.size() < 200) pool.push_back(s); else pool[r.N(200)] = s; return s;
  }
  int64_t Num(bool pos) { static const int64_t e[] = {0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)UINT32_MAX, (int64_t)1 << 40, INT64_MAX - 1, INT64_MAX};
    int64_t v = r.P(600) ? e[r.N(16)] : r.P(500) ? (int64_t)(r.Next() >> r.N(50)) : (int64_t)((r.Next() << 11 ^ r.Next()) & INT64_MAX); if (v < 0) v = -(v + 1); if (pos && v == 0) v = 1; return v; }
};
template <class F> static J Try(F f) { std::string d = "old"; bool ok = false, x = false; try { ok = f(d); } catch (std::exception& e) { x = true; } if (!ok) d.clear(); return O({{"ok", ok}, {"x", x}, {"k", B(d)}}); }
struct Vec { using X = VectorCodec; static std::string P(char c, int64_t p) { return X::PackageVectorKey(c, p); } static std::string P(char c, int64_t p, int64_t i) { return X::PackageVectorKey(c, p, i); } static std::string P(char c, int64_t p, int64_t i, const std::string& s) { return X::PackageVectorKey(c, p, i, s); }
  static int64_t UI(const std::string& k) { return X::UnPackageVectorId(k); } static std::string E(char c, int64_t p) { return X::EncodeVectorKey(c, p); } static std::string E(char c, int64_t p, int64_t i) { return X::EncodeVectorKey(c, p, i); } static std::string E(char c, int64_t p, int64_t i, const std::string& s) { return X::EncodeVectorKey(c, p, i, s); }
  static std::string T(char c, int64_t p, int64_t i, int64_t t) { return X::EncodeVectorKey(c, p, i, t); } static std::string T(char c, int64_t p, int64_t i, const std::string& s, int64_t t) { return X::EncodeVectorKey(c, p, i, s, t); }
  static int64_t DI(const std::string& k) { return X::DecodeVectorIdFromEncodeKey(k); } static int64_t DIT(const std::string& k) { return X::DecodeVectorIdFromEncodeKeyWithTs(k); } static void R(bool e, const pb::common::Range& g, int64_t& a, int64_t& b) { X::DecodeRangeToVectorId(e, g, a, b); } };
struct Doc { using X = DocumentCodec; static std::string P(char c, int64_t p) { return X::PackageDocumentKey(c, p); } static std::string P(char c, int64_t p, int64_t i) { return X::PackageDocumentKey(c, p, i); } static std::string P(char c, int64_t p, int64_t i, const std::string& s) { return X::PackageDocumentKey(c, p, i, s); }
  static int64_t UI(const std::string& k) { return X::UnPackageDocumentId(k); } static std::string E(char c, int64_t p) { return X::EncodeDocumentKey(c, p); } static std::string E(char c, int64_t p, int64_t i) { return X::EncodeDocumentKey(c, p, i); } static std::string E(char c, int64_t p, int64_t i, const std::string& s) { return X::EncodeDocumentKey(c, p, i, s); }
  static std::string T(char c, int64_t p, int64_t i, int64_t t) { return X::EncodeDocumentKey(c, p, i, t); } static std::string T(char c, int64_t p, int64_t i, const std::string& s, int64_t t) { return X::EncodeDocumentKey(c, p, i, s, t); }
  static int64_t DI(const std::string& k) { return X::DecodeDocumentIdFromEncodeKey(k); } static int64_t DIT(const std::string& k) { return X::DecodeDocumentIdFromEncodeKeyWithTs(k); } static void R(bool e, const pb::common::Range& g, int64_t& a, int64_t& b) { X::DecodeRangeToDocumentId(e, g, a, b); } };
template <class D> static J Index(const char* kind, Gen& g) {
  using X = typename D::X; static const char pf[] = {'r', 'w', 't', 'e', '\x01', '\x7f'}; char c = pf[g.r.N(6)]; int64_t p = g.Num(true), id = g.Num(false), ts = g.Num(false); std::string s; while (s.empty()) s = g.Key(); int part = g.r.N(3);
  std::string pl = part == 0 ? D::P(c, p) : part == 1 ? D::P(c, p, id) : D::P(c, p, id, s), en = part == 0 ? D::E(c, p) : part == 1 ? D::E(c, p, id) : D::E(c, p, id, s), wt = part == 0 ? C::EncodeKey(D::P(c, p), ts) : part == 1 ? D::T(c, p, id, ts) : D::T(c, p, id, s, ts);
  std::vector<J> ps{L(X::UnPackagePartitionId(pl)), L(X::DecodePartitionIdFromEncodeKey(en)), L(X::DecodePartitionIdFromEncodeKeyWithTs(wt))}, is{L(D::UI(pl)), L(D::DI(en)), L(D::DIT(wt))}, ss, tk, tt;
  int64_t a, b; std::string z; X::DecodeFromEncodeKey(en, a, b); ps.push_back(L(a)); is.push_back(L(b)); X::DecodeFromEncodeKeyWithTs(wt, a, b); ps.push_back(L(a)); is.push_back(L(b));
  if (part == 2) { ss = {B(X::UnPackageScalarKey(pl)), B(X::DecodeScalarKeyFromEncodeKey(en)), B(X::DecodeScalarKeyFromEncodeKeyWithTs(wt))}; X::DecodeFromEncodeKey(en, a, b, z); ss.push_back(B(z)); ps.push_back(L(a)); is.push_back(L(b)); X::DecodeFromEncodeKeyWithTs(wt, a, b, z); ss.push_back(B(z)); ps.push_back(L(a)); is.push_back(L(b)); }
  tk = {B(X::TruncateTsForKey(wt)), B(X::TruncateTsForKey(std::string_view(wt)))}; tt = {L(X::TruncateKeyForTs(wt)), L(X::TruncateKeyForTs(std::string_view(wt)))};
  return O({{"o", "index"}, {"kd", kind}, {"c", (int)c}, {"p", L(p)}, {"id", L(id)}, {"s", B(s)}, {"t", L(ts)}, {"n", part}, {"pl", B(pl)}, {"en", B(en)}, {"wt", B(wt)}, {"ps", J::Arr(ps)}, {"is", J::Arr(is)}, {"ss", J::Arr(ss)}, {"tk", J::Arr(tk)}, {"tt", J::Arr(tt)}, {"va", X::IsValidKey(pl)}});
}
template <class D> static J IdRange(const char* kind, Gen& g) {   // the ids a region of an index holds
  int64_t p = g.Num(true); if (p == INT64_MAX) p--; int64_t a = g.r.P(300) ? 0 : g.Num(false), b = g.Num(true); if (a > b) std::swap(a, b); if (a == b) { if (b == INT64_MAX) a--; else b++; } bool sp = a == 0 && g.r.P(500), ep = g.r.P(400); bool enc = g.r.P(500); int64_t p2 = ep ? (g.r.P(700) ? p + 1 : std::max(p + 1, g.Num(true))) : p; if (p2 <= p && ep) p2 = p + 1;
  pb::common::Range x; auto k = [&](int64_t q, int64_t i, bool only) { return only ? (enc ? D::E('r', q) : D::P('r', q)) : enc ? D::E('r', q, i) : D::P('r', q, i); }; x.set_start_key(k(p, a, sp)); x.set_end_key(k(p2, b, ep)); int64_t u = -1, v = -1; D::R(enc, x, u, v);
  return O({{"o", "ids"}, {"kd", kind}, {"a", L(a)}, {"b", L(b)}, {"ep", ep}, {"u", L(u)}, {"v", L(v)}, {"lt", x.start_key() < x.end_key()}});
}
static J One(Gen& g, int kind) {
  Rng& r = g.r;
  switch (kind) {
    case 0: { auto k = g.Key(); std::string b, c; C::EncodeBytes(k, b); C::EncodeBytes(std::string_view(k), c); std::string e = C::EncodeBytes(k), d1, d2; bool o1 = C::DecodeBytes(e, d1), o2 = C::DecodeBytes(std::string_view(e), d2); return O({{"o", "enc"}, {"k", B(k)}, {"e", J::Arr(std::vector<J>{B(e), B(b), B(c)})}, {"ok", o1 && o2}, {"d", J::Arr(std::vector<J>{B(d1), B(d2)})}}); }
    case 1: { auto k = g.Key(); auto t = g.Num(false); std::string e = C::EncodeKey(k, t), f = C::EncodeKey(std::string_view(k), t), a, b, c, d; int64_t x = -1, y = -1; bool ok = C::DecodeKey(e, a, x); ok = C::DecodeKey(std::string_view(e), b, y) && ok; ok = C::DecodeKey(e, c) && ok; ok = C::DecodeKey(std::string_view(e), d) && ok; auto v = C::EncodeKeys(t, {k});
      return O({{"o", "key"}, {"k", B(k)}, {"t", L(t)}, {"e", J::Arr(std::vector<J>{B(e), B(f), B(v.at(0))})}, {"ok", ok}, {"d", J::Arr(std::vector<J>{B(a), B(b), B(c), B(d)})}, {"ts", J::Arr(std::vector<J>{L(x), L(y), L(C::TruncateKeyForTs(e)), L(C::TruncateKeyForTs(std::string_view(e)))})}, {"tk", J::Arr(std::vector<J>{B(C::TruncateTsForKey(e)), B(C::TruncateTsForKey(std::string_view(e)))})}}); }
    case 2: {   // something which may be no encoding
      std::string e = C::EncodeBytes(g.Key()); int m = r.N(6); if (m == 0) e[r.N(e.size())] = g.Byte(); if (m == 1) e.resize(r.N(e.size() + 1)); if (m == 2) e += C::EncodeBytes(g.Key()); if (m == 3) { e.clear(); int n = r.P(700) ? 9 * r.N(4) : r.N(30); for (int i = 0; i < n; i++) e.push_back(g.Byte()); } if (m == 4) e.back() = g.Byte(); if (m == 5 && e.size() > 9) e[8] = g.Byte();
      return O({{"o", "dec"}, {"e", B(e)}, {"d", Try([&](std::string& d) { return C::DecodeBytes(e, d); })}}); }
    case 3: { auto a = g.Key(), b = g.Key(); auto t = g.Num(false), u = g.Num(false); if (r.P(300)) b = a; return O({{"o", "pair"}, {"a", B(a)}, {"b", B(b)}, {"t", L(t)}, {"u", L(u)}, {"lt", C::EncodeKey(a, t) < C::EncodeKey(b, u)}, {"el", C::EncodeBytes(a) < C::EncodeBytes(b)}}); }
    case 4: { auto v = g.Key(); int f = r.N(3); auto ttl = g.Num(false); auto F = (mvcc::ValueFlag)f; std::vector<J> ps, us, fs, ts; auto see = [&](const std::string& p) { mvcc::ValueFlag x; int64_t y = -1; ps.push_back(B(p)); auto w = C::UnPackageValue(std::string_view(p), x, y); us.push_back(B(w)); us.push_back(B(C::UnPackageValue(p))); us.push_back(B(C::UnPackageValue(std::string_view(p)))); std::string q = p; C::UnPackageValueInPlace(q); us.push_back(B(q)); fs.push_back((int)x); fs.push_back((int)C::GetValueFlag(p)); fs.push_back((int)C::GetValueFlag(std::string_view(p))); ts.push_back(L(y)); if (F == mvcc::ValueFlag::kPutTTL) { ts.push_back(L(C::GetValueTTL(p))); ts.push_back(L(C::GetValueTTL(std::string_view(p)))); } };
      std::string o; C::PackageValue(F, ttl, v, o); see(o); o = v; C::PackageValue(F, ttl, o); see(o); pb::common::KeyValue kv; kv.set_key("k"); kv.set_value(v); auto s = f == 0 ? C::EncodeKeyValueWithPut(5, kv) : f == 1 ? C::EncodeKeyValueWithPutTTL(5, ttl, kv) : C::EncodeKeyValueWithDelete(5, kv); see(s.value()); std::vector<pb::common::KeyValue> kvs{kv}; if (f == 0) C::EncodeKeyValuesWithPut(5, kvs); else if (f == 1) C::EncodeKeyValuesWithTTL(5, ttl, kvs); else C::EncodeKeyValuesWithDelete(5, kvs); see(kvs[0].value());
      if (f != 1) { std::string z; C::PackageValue(F, v, z); see(z); }
      return O({{"o", "val"}, {"v", B(v)}, {"f", f}, {"t", L(ttl)}, {"p", J::Arr(ps)}, {"u", J::Arr(us)}, {"fl", J::Arr(fs)}, {"ts", J::Arr(ts)}, {"k", B(kvs[0].key())}, {"k2", B(s.key())}}); }
    case 5: return Index<Vec>("vector", g);
    case 6: return Index<Doc>("document", g);
    case 7: return r.P(500) ? IdRange<Vec>("vector", g) : IdRange<Doc>("document", g);
    case 8: { auto k = g.Key(); return O({{"o", "next"}, {"k", B(k)}, {"n", J::Arr(std::vector<J>{B(Helper::PrefixNext(k)), B(Helper::PrefixNext(std::string_view(k)))})}}); }
    case 9: { pb::common::Range x, y; x.set_start_key(g.Key()); x.set_end_key(g.Key()); y.set_start_key(r.P(150) ? x.end_key() : r.P(150) ? x.start_key() : g.Key()); y.set_end_key(r.P(150) ? x.start_key() : r.P(150) ? x.end_key() : g.Key()); auto i = Helper::IntersectRange(x, y); auto e = C::EncodeRange(x); auto e2 = C::EncodeRange(x.start_key(), x.end_key()); auto d = C::DecodeRange(e);
      return O({{"o", "range"}, {"x", J::Arr(std::vector<J>{B(x.start_key()), B(x.end_key())})}, {"y", J::Arr(std::vector<J>{B(y.start_key()), B(y.end_key())})}, {"i", J::Arr(std::vector<J>{B(i.start_key()), B(i.end_key())})}, {"in", Helper::IsContainRange(x, y)}, {"cf", Helper::IsConflictRange(x, y)}, {"iv", Helper::InvalidRange(x)}, {"ck", Helper::CheckRange(x).ok()}, {"e", J::Arr(std::vector<J>{B(e.start_key()), B(e.end_key()), B(e2.start_key()), B(e2.end_key())})}, {"d", J::Arr(std::vector<J>{B(d.start_key()), B(d.end_key())})}}); }
    case 10: { pb::common::RangeWithOptions w; w.mutable_range()->set_start_key(g.Key()); w.mutable_range()->set_end_key(g.Key()); w.set_with_start(r.P(500)); w.set_with_end(r.P(500)); auto t = Helper::TransformRangeWithOptions(w); return O({{"o", "opt"}, {"a", B(w.range().start_key())}, {"b", B(w.range().end_key())}, {"ws", w.with_start()}, {"we", w.with_end()}, {"t", J::Arr(std::vector<J>{B(t.start_key()), B(t.end_key())})}}); }
    default: { int64_t v = r.P(500) ? g.Num(false) : -g.Num(false) - (int64_t)r.N(2); if (v == INT64_MIN) v++; std::string a, b; SerialHelper::WriteLong(v, a); SerialHelper::WriteLongComparable(v, b); return O({{"o", "long"}, {"v", L(v)}, {"a", B(a)}, {"b", B(b)}, {"ra", L(SerialHelper::ReadLong(a))}, {"rb", J::Arr(std::vector<J>{L(SerialHelper::ReadLongComparable(b)), L(SerialHelper::ReadLongComparable(std::string_view(b)))})}}); }
  }
}
int main(int argc, char** argv) {
  if (argc < 5 || std::string(argv[1]) != "run") Setup("usage"); setvbuf(stdout, nullptr, _IONBF, 0); Rng r(atoi(argv[3])); int N = atoi(argv[4]); FLAGS_minloglevel = 3; Watch wd(60); Out f(argv[2]); Gen g{r}; std::map<int, int> n;
  for (int i = 0; i < N; i++) { int k = i % 12; n[k]++; f.Line(One(g, k)); wd.n++; }
  printf("encodings %d of 12 kinds\n", N); return 0;
}
