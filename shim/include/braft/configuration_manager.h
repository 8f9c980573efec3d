#pragma once
#include <deque>
#include "braft/log_entry.h"
namespace braft {
struct ConfigurationEntry {
  LogId id; Configuration conf, old_conf;
  ConfigurationEntry() = default;
  ConfigurationEntry(const LogEntry& e) { id = e.id; if (e.peers) conf = *e.peers; if (e.old_peers) old_conf = *e.old_peers; }
  bool stable() const { return old_conf.empty(); } bool empty() const { return conf.empty(); }
};
class ConfigurationManager {
 public:
  int add(const ConfigurationEntry& e) { if (!c_.empty() && c_.back().id.index >= e.id.index) return -1; c_.push_back(e); return 0; }
  void truncate_prefix(int64_t k) { while (!c_.empty() && c_.front().id.index < k) c_.pop_front(); }
  void truncate_suffix(int64_t k) { while (!c_.empty() && c_.back().id.index > k) c_.pop_back(); }
  const ConfigurationEntry& last_configuration() const { static ConfigurationEntry e; return c_.empty() ? e : c_.back(); }
  const std::deque<ConfigurationEntry>& all() const { return c_; }
 private: std::deque<ConfigurationEntry> c_;
};
}
