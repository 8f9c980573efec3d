#pragma once
#include <netinet/in.h>
inline bool operator==(in_addr a, in_addr b) { return a.s_addr == b.s_addr; }
inline bool operator!=(in_addr a, in_addr b) { return a.s_addr != b.s_addr; }
inline bool operator<(in_addr a, in_addr b) { return ntohl(a.s_addr) < ntohl(b.s_addr); }
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <cstring>
#include <ostream>
#include <string>
inline std::ostream& operator<<(std::ostream& os, const in_addr& ip) { char b[INET_ADDRSTRLEN]; inet_ntop(AF_INET, &ip, b, sizeof b); return os << b; }
namespace butil {
typedef struct in_addr ip_t;
static const ip_t IP_ANY = {INADDR_ANY};
static const ip_t IP_NONE = {INADDR_NONE};
struct IPStr { const char* c_str() const { return buf; } char buf[INET_ADDRSTRLEN]; };
struct EndPointStr { const char* c_str() const { return buf; } char buf[64]; };
struct EndPoint {
  EndPoint() : ip(IP_ANY), port(0) {}
  EndPoint(ip_t i, int p) : ip(i), port(p) {}
  explicit EndPoint(const sockaddr_in& in) : ip(in.sin_addr), port(ntohs(in.sin_port)) {}
  void reset() { ip = IP_ANY; port = 0; }
  ip_t ip; int port;
};
inline IPStr ip2str(ip_t ip) { IPStr s; inet_ntop(AF_INET, &ip, s.buf, sizeof s.buf); return s; }
inline EndPointStr endpoint2str(const EndPoint& e) { EndPointStr s; snprintf(s.buf, sizeof s.buf, "%s:%d", ip2str(e.ip).c_str(), e.port); return s; }
inline int str2ip(const char* s, ip_t* ip) { return inet_pton(AF_INET, s, ip) == 1 ? 0 : -1; }
inline int str2endpoint(const char* ip, int port, EndPoint* e) { if (str2ip(ip, &e->ip) != 0) return -1; if (port < 0 || port > 65535) return -1; e->port = port; return 0; }
inline int str2endpoint(const char* s, EndPoint* e) {
  std::string x(s); auto c = x.rfind(':'); if (c == std::string::npos) return -1;
  char* end = nullptr; long p = strtol(x.c_str() + c + 1, &end, 10); if (*end || end == x.c_str() + c + 1) return -1;
  return str2endpoint(x.substr(0, c).c_str(), (int)p, e);
}
inline int hostname2ip(const char* h, ip_t* ip) { if (!h) return -1; if (str2ip(h, ip) == 0) return 0; if (!strcmp(h, "localhost")) return str2ip("127.0.0.1", ip); return -1; }
inline int hostname2endpoint(const char* h, int port, EndPoint* e) { if (hostname2ip(h, &e->ip)) return -1; e->port = port; return 0; }
inline int hostname2endpoint(const char* s, EndPoint* e) { return str2endpoint(s, e); }
inline int ip2hostname(ip_t ip, std::string* h) { *h = ip2str(ip).c_str(); return 0; }
inline int endpoint2hostname(const EndPoint& e, std::string* h) { *h = endpoint2str(e).c_str(); return 0; }
inline uint32_t ip2int(ip_t ip) { return ntohl(ip.s_addr); }
inline bool operator<(const EndPoint& a, const EndPoint& b) { return a.ip != b.ip ? a.ip < b.ip : a.port < b.port; }
inline bool operator==(const EndPoint& a, const EndPoint& b) { return a.ip == b.ip && a.port == b.port; }
inline bool operator!=(const EndPoint& a, const EndPoint& b) { return !(a == b); }
inline std::ostream& operator<<(std::ostream& os, const EndPoint& e) { return os << endpoint2str(e).c_str(); }
inline std::ostream& operator<<(std::ostream& os, const EndPointStr& e) { return os << e.c_str(); }
inline std::ostream& operator<<(std::ostream& os, const IPStr& e) { return os << e.c_str(); }
}  // namespace butil

namespace std { template <> struct hash<butil::EndPoint> { size_t operator()(const butil::EndPoint& e) const noexcept { return (size_t)(e.ip.s_addr) * 31 + (size_t)e.port; } }; }
