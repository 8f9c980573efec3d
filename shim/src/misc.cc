#include <sys/types.h>
#include <unistd.h>

#include <fstream>
#include <iterator>

#include "braft/protobuf_file.h"
#include "braft/raft.h"
#include "brpc/channel.h"
#include "brpc/reloadable_flags.h"
#include "bvar/bvar.h"

namespace bvar { int32_t FLAGS_bvar_latency_p1 = 80, FLAGS_bvar_latency_p2 = 90, FLAGS_bvar_latency_p3 = 99, FLAGS_bvar_max_dump_multi_dimension_metric_number = 0; }
namespace butil { namespace crc32c {
uint32_t Extend(uint32_t init, const char* d, size_t n) {
  static uint32_t t[256]; static bool ok = [] { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82f63b78u : c >> 1; t[i] = c; } return true; }(); (void)ok;
  uint32_t c = init ^ 0xffffffffu; for (size_t i = 0; i < n; i++) c = t[(c ^ (unsigned char)d[i]) & 0xff] ^ (c >> 8); return c ^ 0xffffffffu;
}
}}
namespace braft {
DEFINE_bool(raft_sync, true, "");
DEFINE_bool(raft_sync_meta, false, "");
DEFINE_bool(raft_create_parent_directories, true, "");
static uint32_t Murmur(const unsigned char* d, size_t len) {
  uint32_t h = 0; const uint32_t c1 = 0xcc9e2d51, c2 = 0x1b873593; size_t nb = len / 4;
  for (size_t i = 0; i < nb; i++) { uint32_t k; memcpy(&k, d + i * 4, 4); k *= c1; k = (k << 15) | (k >> 17); k *= c2; h ^= k; h = (h << 13) | (h >> 19); h = h * 5 + 0xe6546b64; }
  uint32_t k = 0; const unsigned char* tl = d + nb * 4;
  switch (len & 3) { case 3: k ^= tl[2] << 16; [[fallthrough]]; case 2: k ^= tl[1] << 8; [[fallthrough]]; case 1: k ^= tl[0]; k *= c1; k = (k << 15) | (k >> 17); k *= c2; h ^= k; }
  h ^= len; h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16; return h;
}
uint32_t murmurhash32(const void* k, int n) { return Murmur((const unsigned char*)k, n); }
uint32_t murmurhash32(const butil::IOBuf& b) { std::string s = b.to_string(); return Murmur((const unsigned char*)s.data(), s.size()); }
ssize_t file_pread(butil::IOPortal* p, int fd, off_t off, size_t n) {
  std::string b(n, 0); size_t got = 0;
  while (got < n) { ssize_t r = ::pread(fd, &b[got], n - got, off + got); if (r < 0) { if (errno == EINTR) continue; return -1; } if (r == 0) break; got += r; }
  b.resize(got); p->append(b); return got;
}
ssize_t file_pwrite(const butil::IOBuf& d, int fd, off_t off) {
  std::string b = d.to_string(); size_t put = 0;
  while (put < b.size()) { ssize_t r = ::pwrite(fd, b.data() + put, b.size() - put, off + put); if (r < 0) { if (errno == EINTR) continue; return -1; } put += r; }
  return put;
}
void run_closure_in_bthread(google::protobuf::Closure* c, bool) { c->Run(); }
butil::Status parse_configuration_meta(const butil::IOBuf& data, LogEntry* e) {
  ConfigurationPBMeta m; if (!m.ParseFromString(data.to_string())) return butil::Status(EINVAL, "Fail to parse ConfigurationPBMeta");
  e->peers = new std::vector<PeerId>; for (auto& p : m.peers()) e->peers->push_back(PeerId(p));
  if (m.old_peers_size() > 0) { e->old_peers = new std::vector<PeerId>; for (auto& p : m.old_peers()) e->old_peers->push_back(PeerId(p)); }
  return butil::Status::OK();
}
butil::Status serialize_configuration_meta(const LogEntry* e, butil::IOBuf& data) {
  ConfigurationPBMeta m; for (auto& p : *e->peers) m.add_peers(p.to_string());
  if (e->old_peers) for (auto& p : *e->old_peers) m.add_old_peers(p.to_string());
  data.append(m.SerializeAsString()); return butil::Status::OK();
}
int ProtoBufFile::save(const google::protobuf::Message* m, bool) {
  std::string d = m->SerializeAsString(); uint32_t n = d.size(); std::string tmp = path_ + ".tmp";
  { std::ofstream f(tmp, std::ios::binary | std::ios::trunc); if (!f) return -1; f.write((char*)&n, 4); f.write(d.data(), n); if (!f) return -1; }
  return ::rename(tmp.c_str(), path_.c_str());
}
int ProtoBufFile::load(google::protobuf::Message* m) {
  std::ifstream f(path_, std::ios::binary); if (!f) { errno = ENOENT; return -1; }
  uint32_t n = 0; f.read((char*)&n, 4); if (!f) return -1; std::string d(n, 0); f.read(&d[0], n); if (!f) return -1;
  return m->ParseFromString(d) ? 0 : -1;
}
}  // namespace braft
namespace shim {
static RpcHandler& H() { static RpcHandler h; return h; }
void SetRpcHandler(RpcHandler h) { H() = std::move(h); }
void CallRpc(const butil::EndPoint& to, const google::protobuf::MethodDescriptor* m, brpc::Controller* c, const google::protobuf::Message* req, google::protobuf::Message* rsp) {
  if (!H()) { c->SetFailed(112, "host is down"); return; }
  H()(to, m, c, req, rsp);
}
namespace {
struct Solo : RaftBackend {
  braft::NodeOptions o; int64_t idx = 0; braft::PeerId p;
  explicit Solo(braft::PeerId p) : p(p) {}
  int init(const braft::NodeOptions& x) override { o = x; return 0; }
  braft::PeerId leader_id() override { return p; }
  void apply(const braft::Task& t) override {
    std::vector<braft::IterEntry> v(1); v[0].index = ++idx; v[0].term = 1; v[0].data = *t.data; v[0].done = t.done;
    braft::Iterator it(&v); o.fsm->on_apply(it);
  }
};
RaftFactory& F() { static RaftFactory f; return f; }
}
void SetRaftFactory(RaftFactory f) { F() = std::move(f); }
std::shared_ptr<RaftBackend> NewRaftBackend(const std::string& g, const braft::PeerId& p) { if (F()) return F()(g, p); return std::make_shared<Solo>(p); }
}
