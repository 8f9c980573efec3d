#pragma once
#include <functional>
#include <mutex>
#include <shared_mutex>
#include "butil/macros.h"
namespace butil {
// Same contract as brpc's: Read() sees the foreground copy; Modify(fn) applies fn to the background copy, flips, waits
// for readers of the old foreground, then applies fn again to the (old) foreground. Modifications are serialised.
struct Void {};
template <typename T, typename TLS = Void, bool B = false>
class DoublyBufferedData {
 public:
  class ScopedPtr {
   public:
    ScopedPtr() = default;
    ~ScopedPtr() { if (mu_) mu_->unlock_shared(); }
    const T* get() const { return p_; }
    const T& operator*() const { return *p_; }
    const T* operator->() const { return p_; }
    TLS& tls() { return tls_; }
   private:
    friend class DoublyBufferedData; const T* p_ = nullptr; std::shared_mutex* mu_ = nullptr; TLS tls_;
    DISALLOW_COPY_AND_ASSIGN(ScopedPtr);
  };
  DoublyBufferedData() = default;
  int Read(ScopedPtr* ptr) {
    while (true) {
      int i = idx_.load(); rw_[i].lock_shared();
      if (idx_.load() == i) { ptr->p_ = &d_[i]; ptr->mu_ = &rw_[i]; return 0; }
      rw_[i].unlock_shared();
    }
  }
  template <typename Fn> size_t Modify(Fn&& fn) {
    std::lock_guard<std::mutex> g(mu_); int bg = 1 - idx_.load();
    { std::unique_lock<std::shared_mutex> w(rw_[bg]); const size_t r = fn(d_[bg]); if (!r) return 0; }
    idx_.store(bg); bg = 1 - bg;
    std::unique_lock<std::shared_mutex> w(rw_[bg]); return fn(d_[bg]);
  }
  template <typename Fn, typename A> size_t Modify(Fn&& fn, const A& a) { return Modify([&](T& t) -> size_t { return fn(t, a); }); }
  template <typename Fn, typename A, typename C> size_t Modify(Fn&& fn, const A& a, const C& c) { return Modify([&](T& t) -> size_t { return fn(t, a, c); }); }
  template <typename Fn, typename A, typename C, typename D> size_t Modify(Fn&& fn, const A& a, const C& c, const D& d) { return Modify([&](T& t) -> size_t { return fn(t, a, c, d); }); }
  template <typename Fn> size_t ModifyWithForeground(Fn&& fn) {
    std::lock_guard<std::mutex> g(mu_); int bg = 1 - idx_.load();
    { std::unique_lock<std::shared_mutex> w(rw_[bg]); const size_t r = fn(d_[bg], (const T&)d_[1 - bg]); if (!r) return 0; }
    idx_.store(bg); bg = 1 - bg;
    std::unique_lock<std::shared_mutex> w(rw_[bg]); return fn(d_[bg], (const T&)d_[1 - bg]);
  }
 private:
  T d_[2]; std::shared_mutex rw_[2]; std::atomic<int> idx_{0}; std::mutex mu_;
};
}  // namespace butil
