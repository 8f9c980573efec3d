// Makes every operation on a std::atomic of the system under test a scheduling point (included into all sources of a
// driver, so that the layout and the inline functions agree everywhere).
#pragma once
#include <atomic>
#include "shim/sched.h"
namespace std {
template <class T> struct yatomic {
  atomic<T> a;
  using M = memory_order; static constexpr M S = memory_order_seq_cst; using value_type = T;
  yatomic() noexcept = default; constexpr yatomic(T v) noexcept : a(v) {}
  yatomic(const yatomic&) = delete; yatomic& operator=(const yatomic&) = delete;
  static void P() { ::shim::SchedPoint(); }
  T load(M m = S) const noexcept { P(); return a.load(m); }
  void store(T v, M m = S) noexcept { P(); a.store(v, m); }
  T exchange(T v, M m = S) noexcept { P(); return a.exchange(v, m); }
  bool compare_exchange_weak(T& e, T d, M m = S, M = S) noexcept { P(); return a.compare_exchange_strong(e, d, m); }
  bool compare_exchange_strong(T& e, T d, M m = S, M = S) noexcept { P(); return a.compare_exchange_strong(e, d, m); }
  template <class U> T fetch_add(U v, M m = S) noexcept { P(); return a.fetch_add(v, m); }
  template <class U> T fetch_sub(U v, M m = S) noexcept { P(); return a.fetch_sub(v, m); }
  template <class U> T fetch_or(U v, M m = S) noexcept { P(); return a.fetch_or(v, m); }
  template <class U> T fetch_and(U v, M m = S) noexcept { P(); return a.fetch_and(v, m); }
  bool is_lock_free() const noexcept { return true; }
  operator T() const noexcept { return load(); }
  T operator=(T v) noexcept { store(v); return v; }
  T operator++() noexcept { P(); return ++a; } T operator++(int) noexcept { P(); return a++; }
  T operator--() noexcept { P(); return --a; } T operator--(int) noexcept { P(); return a--; }
  template <class U> T operator+=(U v) noexcept { P(); return a += v; } template <class U> T operator-=(U v) noexcept { P(); return a -= v; }
};
}  // namespace std
namespace butil { template <class T> using yatomic = std::yatomic<T>; }
#define atomic yatomic
