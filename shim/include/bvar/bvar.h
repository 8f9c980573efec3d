#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <string>
#include <vector>
#include "butil/strings/string_piece.h"
namespace bvar {
extern int32_t FLAGS_bvar_latency_p1, FLAGS_bvar_latency_p2, FLAGS_bvar_latency_p3, FLAGS_bvar_max_dump_multi_dimension_metric_number;
enum DisplayFilter { DISPLAY_ON_HTML = 1, DISPLAY_ON_PLAIN_TEXT = 2, DISPLAY_ON_ALL = 3 };
class Dumper { public: virtual ~Dumper() = default; virtual bool dump(const std::string&, const butil::StringPiece&) = 0; virtual bool dump_comment(const std::string&, const std::string&) { return true; } virtual bool dump_mvar(const std::string&, const butil::StringPiece&) { return true; } };
struct DumpOptions { bool quote_string = true; char question_mark = '?'; DisplayFilter display_filter = DISPLAY_ON_PLAIN_TEXT; std::string white_wildcards, black_wildcards; };
class Variable {
 public:
  virtual ~Variable() = default;
  int expose(const butil::StringPiece&, DisplayFilter = DISPLAY_ON_ALL) { return 0; }
  int expose_as(const butil::StringPiece&, const butil::StringPiece&, DisplayFilter = DISPLAY_ON_ALL) { return 0; }
  bool hide() { return true; }
  static int dump_exposed(Dumper*, const DumpOptions*) { return 0; }
  std::string get_description() const { return ""; }
};
class MVariable { public: virtual ~MVariable() = default; static size_t dump_exposed(Dumper*, const DumpOptions*) { return 0; } };
template <typename T> class Adder : public Variable {
 public:
  Adder() = default;
  Adder(const butil::StringPiece&) {}
  Adder(const butil::StringPiece&, const butil::StringPiece&) {}
  Adder& operator<<(const T& v) { std::lock_guard<std::mutex> g(m_); v_ = v_ + v; return *this; }
  T get_value() const { std::lock_guard<std::mutex> g(m_); return v_; }
  T reset() { std::lock_guard<std::mutex> g(m_); T o = v_; v_ = T(); return o; }
 private: mutable std::mutex m_; T v_ = T();
};
template <typename T> class Maxer : public Adder<T> { public: using Adder<T>::Adder; };
template <typename T> class Miner : public Adder<T> { public: using Adder<T>::Adder; };
class IntRecorder : public Variable { public: IntRecorder() = default; IntRecorder(const butil::StringPiece&) {} IntRecorder& operator<<(int64_t) { return *this; } int64_t average() const { return 0; } };
class LatencyRecorder {
 public:
  LatencyRecorder() = default;
  explicit LatencyRecorder(int64_t) {}
  LatencyRecorder(const butil::StringPiece&) {}
  LatencyRecorder(const butil::StringPiece&, int64_t) {}
  LatencyRecorder(const butil::StringPiece&, const butil::StringPiece&) {}
  LatencyRecorder(const butil::StringPiece&, const butil::StringPiece&, int64_t) {}
  LatencyRecorder& operator<<(int64_t) { ++n_; return *this; }
  int64_t latency() const { return 0; } int64_t latency(int) const { return 0; } int64_t max_latency() const { return 0; }
  int64_t count() const { return n_; } int64_t qps() const { return 0; } int64_t qps(int) const { return 0; }
  int64_t latency_percentile(double) const { return 0; }
  int expose(const butil::StringPiece&) { return 0; }
  int expose(const butil::StringPiece&, const butil::StringPiece&) { return 0; }
 private: std::atomic<int64_t> n_{0};
};
template <typename T> class Status : public Variable {
 public:
  Status() = default;
  Status(const T& v) : v_(v) {}
  Status(const butil::StringPiece&, const T& v) : v_(v) {}
  Status(const butil::StringPiece&, const butil::StringPiece&, const T& v) : v_(v) {}
  T get_value() const { return v_; }
  void set_value(const T& v) { v_ = v; }
 private: T v_ = T();
};
template <typename T> class PassiveStatus : public Variable { public: PassiveStatus(const butil::StringPiece&, T (*f)(void*), void* a) : f_(f), a_(a) {} PassiveStatus(T (*f)(void*), void* a) : f_(f), a_(a) {} T get_value() const { return f_(a_); } private: T (*f_)(void*); void* a_; };
template <typename R> class Window : public Variable { public: template <typename... A> Window(A&&...) {} int64_t get_value() const { return 0; } };
template <typename R> class WindowEx : public Variable { public: template <typename... A> WindowEx(A&&...) {} template <typename V> WindowEx& operator<<(const V&) { return *this; } };
template <typename R> class PerSecond : public Variable { public: template <typename... A> PerSecond(A&&...) {} int64_t get_value() const { return 0; } };
template <typename R, int64_t W = 0> class PerSecondEx : public Variable { public: template <typename... A> PerSecondEx(A&&...) {} template <typename V> PerSecondEx& operator<<(const V&) { return *this; } int64_t get_value() const { return 0; } };
template <typename T> class MultiDimension : public MVariable {
 public:
  typedef std::list<std::string> key_type;
  template <typename... A> explicit MultiDimension(A&&...) {}
  MultiDimension(const std::string&, const key_type&) {}
  explicit MultiDimension(const key_type&) {}
  T* get_stats(const key_type& k) { std::lock_guard<std::mutex> g(m_); auto& p = s_[k]; if (!p) p = std::make_unique<T>(); return p.get(); }
  bool has_stats(const key_type& k) { std::lock_guard<std::mutex> g(m_); return s_.count(k); }
  void delete_stats(const key_type& k) { std::lock_guard<std::mutex> g(m_); s_.erase(k); }
  void clear_stats() { std::lock_guard<std::mutex> g(m_); s_.clear(); }
  void list_stats(std::vector<key_type>* v) { std::lock_guard<std::mutex> g(m_); v->clear(); for (auto& kv : s_) v->push_back(kv.first); }
  size_t count_stats() { return s_.size(); }
  size_t count_labels() const { return 0; }
 private: std::mutex m_; std::map<key_type, std::unique_ptr<T>> s_;
};
}
