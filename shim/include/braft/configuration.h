#pragma once
#include <algorithm>
#include <map>
#include <ostream>
#include <set>
#include <string>
#include <vector>
#include "butil/endpoint.h"
namespace braft {
typedef std::string GroupId;
typedef std::string VersionedGroupId;
enum Role { REPLICA = 0, WITNESS = 1 };
struct PeerId {
  butil::EndPoint addr; int idx = 0; Role role = REPLICA;
  PeerId() = default;
  explicit PeerId(butil::EndPoint a) : addr(a) {}
  PeerId(butil::EndPoint a, int i) : addr(a), idx(i) {}
  PeerId(const std::string& s) { parse(s); }
  void reset() { addr = butil::EndPoint(); idx = 0; role = REPLICA; }
  bool is_empty() const { return addr.ip == butil::IP_ANY && addr.port == 0 && idx == 0; }
  bool is_witness() const { return role == WITNESS; }
  int parse(const std::string& s) {
    reset(); auto p = s.find(':'); if (p == std::string::npos) { reset(); return -1; }
    auto q = s.find(':', p + 1); std::string ep = s.substr(0, q == std::string::npos ? s.size() : q);
    if (q != std::string::npos) idx = atoi(s.c_str() + q + 1);
    if (butil::str2endpoint(ep.c_str(), &addr) != 0) { reset(); return -1; } return 0;
  }
  std::string to_string() const { return std::string(butil::endpoint2str(addr).c_str()) + ":" + std::to_string(idx); }
};
inline bool operator<(const PeerId& a, const PeerId& b) { return a.addr < b.addr ? true : (a.addr == b.addr && a.idx < b.idx); }
inline bool operator==(const PeerId& a, const PeerId& b) { return a.addr == b.addr && a.idx == b.idx; }
inline bool operator!=(const PeerId& a, const PeerId& b) { return !(a == b); }
inline std::ostream& operator<<(std::ostream& os, const PeerId& p) { return os << p.to_string(); }
struct NodeId { GroupId group_id; PeerId peer_id; NodeId() = default; NodeId(const GroupId& g, const PeerId& p) : group_id(g), peer_id(p) {} std::string to_string() const { return group_id + ":" + peer_id.to_string(); } };
class Configuration {
 public:
  typedef std::set<PeerId>::const_iterator const_iterator;
  Configuration() = default;
  explicit Configuration(const std::vector<PeerId>& v) { for (auto& p : v) s_.insert(p); }
  explicit Configuration(const std::set<PeerId>& v) : s_(v) {}
  Configuration& operator=(const std::vector<PeerId>& v) { s_.clear(); for (auto& p : v) s_.insert(p); return *this; }
  void reset() { s_.clear(); } bool empty() const { return s_.empty(); } size_t size() const { return s_.size(); }
  const_iterator begin() const { return s_.begin(); } const_iterator end() const { return s_.end(); }
  void list_peers(std::set<PeerId>* o) const { *o = s_; }
  void list_peers(std::vector<PeerId>* o) const { o->assign(s_.begin(), s_.end()); }
  void append_peers(std::set<PeerId>* o) { o->insert(s_.begin(), s_.end()); }
  bool add_peer(const PeerId& p) { return s_.insert(p).second; }
  bool remove_peer(const PeerId& p) { return s_.erase(p); }
  bool contains(const PeerId& p) const { return s_.count(p); }
  bool equals(const Configuration& o) const { return s_ == o.s_; }
  int parse_from(const std::string& conf) {
    s_.clear(); size_t b = 0;
    while (b <= conf.size()) { size_t e = conf.find(',', b); std::string t = conf.substr(b, e == std::string::npos ? std::string::npos : e - b); if (!t.empty()) { PeerId p; if (p.parse(t) != 0) return -1; s_.insert(p); } if (e == std::string::npos) break; b = e + 1; }
    return 0;
  }
 private: std::set<PeerId> s_;
};
inline std::ostream& operator<<(std::ostream& os, const Configuration& c) { bool f = true; for (auto& p : c) { os << (f ? "" : ",") << p; f = false; } return os; }
}
