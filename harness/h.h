// Small helpers shared by the drivers: JSON text, arguments, random numbers.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
namespace h {
inline std::string Q(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
struct J {  // a JSON value under construction
  std::string s;
  J() = default;
  J(const char* v) : s(Q(v)) {}
  J(const std::string& v) : s(Q(v)) {}
  J(bool v) : s(v ? "true" : "false") {}
  J(int v) : s(std::to_string(v)) {}
  J(unsigned v) : s(std::to_string(v)) {}
  J(long v) : s(std::to_string(v)) {}
  J(long long v) : s(std::to_string(v)) {}
  J(unsigned long v) : s(std::to_string(v)) {}
  J(unsigned long long v) : s(std::to_string(v)) {}
  static J Raw(std::string v) { J j; j.s = std::move(v); return j; }
  template <class C, class F> static J Arr(const C& c, F f) { std::string o = "["; bool first = true; for (auto& x : c) { if (!first) o += ","; first = false; o += J(f(x)).s; } return Raw(o + "]"); }
  template <class C> static J Arr(const C& c) { std::string o = "["; bool first = true; for (auto& x : c) { if (!first) o += ","; first = false; o += J(x).s; } return Raw(o + "]"); }
  static J Obj(std::initializer_list<std::pair<const char*, J>> l) { std::string o = "{"; bool first = true; for (auto& [k, v] : l) { if (!first) o += ","; first = false; o += Q(k) + ":" + v.s; } return Raw(o + "}"); }
};
inline J O(std::initializer_list<std::pair<const char*, J>> l) { return J::Obj(l); }
struct Rng { uint64_t x; explicit Rng(uint64_t seed) : x(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { for (int i = 0; i < 6; i++) Next(); }
  uint64_t Next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1Dull >> 11; }
  int64_t N(int64_t n) { return n <= 0 ? 0 : (int64_t)(Next() % (uint64_t)n); }
  bool P(int permille) { return N(1000) < permille; } };
[[noreturn]] inline void Setup(const std::string& m) { fprintf(stderr, "driver setup: %s\n", m.c_str()); fflush(nullptr); _exit(77); }
struct Out { FILE* f; explicit Out(const std::string& p) { f = fopen(p.c_str(), "w"); if (!f) Setup("cannot write " + p); } ~Out() { if (f) fclose(f); } void Line(const J& j) { fwrite(j.s.data(), 1, j.s.size(), f); fputc('\n', f); } };
struct Watch { std::atomic<uint64_t> n{0}; Watch(int secs = 20) { std::thread([this, secs] { uint64_t last = ~0ull; for (;;) { for (int i = 0; i < secs; i++) { std::this_thread::sleep_for(std::chrono::seconds(1)); } uint64_t c = n; if (c == last) { fprintf(stderr, "error: no progress (the code under test hangs)\n"); fflush(nullptr); _exit(70); } last = c; } }).detach(); } void Tick() { n++; } };
}  // namespace h
