#pragma once
#include "braft/configuration.h"
#include "braft/enum.pb.h"
#include "braft/util.h"
#include "butil/iobuf.h"
#include "butil/memory/ref_counted.h"
namespace braft {
struct LogId { LogId() : index(0), term(0) {} LogId(int64_t i, int64_t t) : index(i), term(t) {} int64_t index, term; };
inline bool operator==(const LogId& a, const LogId& b) { return a.index == b.index && a.term == b.term; }
inline bool operator!=(const LogId& a, const LogId& b) { return !(a == b); }
inline bool operator<(const LogId& a, const LogId& b) { return a.term == b.term ? a.index < b.index : a.term < b.term; }
inline bool operator>(const LogId& a, const LogId& b) { return b < a; }
inline std::ostream& operator<<(std::ostream& os, const LogId& l) { return os << "(index=" << l.index << ",term=" << l.term << ')'; }
struct LogEntry : public butil::RefCountedThreadSafe<LogEntry> {
  EntryType type; LogId id; std::vector<PeerId>* peers; std::vector<PeerId>* old_peers; butil::IOBuf data;
  LogEntry() : type(ENTRY_TYPE_UNKNOWN), peers(nullptr), old_peers(nullptr) {}
  ~LogEntry() { delete peers; delete old_peers; }
};
butil::Status parse_configuration_meta(const butil::IOBuf& data, LogEntry* entry);
butil::Status serialize_configuration_meta(const LogEntry* entry, butil::IOBuf& data);
}
