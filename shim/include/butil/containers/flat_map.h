#pragma once
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <set>
#include "butil/strings/string_piece.h"
namespace butil {
template <typename K> struct DefaultHasher : std::hash<K> {};
template <typename K> struct DefaultEqualTo : std::equal_to<K> {};
// FlatMap on top of std::map (iteration order is unspecified in the original; must be init()ed there).
template <typename K, typename T, typename H = DefaultHasher<K>, typename E = DefaultEqualTo<K>>
class FlatMap {
  using M = std::unordered_map<K, T>;
 public:
  using value_type = typename M::value_type; using iterator = typename M::iterator; using const_iterator = typename M::const_iterator;
  using key_type = K; using mapped_type = T;
  int init(size_t, unsigned = 80) { inited_ = true; return 0; }
  T* insert(const K& k, const T& v) { auto& s = m_[k]; s = v; return &s; }
  T* insert(const std::pair<K, T>& kv) { return insert(kv.first, kv.second); }
  template <typename K2> size_t erase(const K2& k, T* old = nullptr) {
    auto it = m_.find(K(k)); if (it == m_.end()) return 0; if (old) *old = it->second; m_.erase(it); return 1;
  }
  void clear() { m_.clear(); }
  void clear_and_reset_pool() { m_.clear(); }
  template <typename K2> T* seek(const K2& k) const { auto it = m_.find(K(k)); return it == m_.end() ? nullptr : const_cast<T*>(&it->second); }
  T& operator[](const K& k) { return m_[k]; }
  bool resize(size_t) { return true; }
  iterator begin() { return m_.begin(); } iterator end() { return m_.end(); }
  const_iterator begin() const { return m_.begin(); } const_iterator end() const { return m_.end(); }
  bool empty() const { return m_.empty(); }
  size_t size() const { return m_.size(); }
  size_t bucket_count() const { return m_.bucket_count(); }
  bool initialized() const { return inited_; }
  void swap(FlatMap& o) { m_.swap(o.m_); std::swap(inited_, o.inited_); }
 private:
  M m_; bool inited_ = false;
};
template <typename K> class FlatSet {
  std::set<K> s_;
 public:
  int init(size_t, unsigned = 80) { return 0; }
  void insert(const K& k) { s_.insert(k); }
  size_t erase(const K& k) { return s_.erase(k); }
  bool seek(const K& k) const { return s_.count(k); }
  size_t size() const { return s_.size(); }
  void clear() { s_.clear(); }
  auto begin() const { return s_.begin(); } auto end() const { return s_.end(); }
};
}  // namespace butil
