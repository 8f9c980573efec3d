#pragma once
#include <atomic>
#include <cstddef>
#include <utility>
namespace butil {
template <class T> class RefCountedThreadSafe {
 public:
  void AddRef() const { n_.fetch_add(1); }
  void Release() const { if (n_.fetch_sub(1) == 1) delete static_cast<const T*>(this); }
  bool HasOneRef() const { return n_.load() == 1; }
  int ref_count() const { return n_.load(); }
 protected:
  RefCountedThreadSafe() = default; ~RefCountedThreadSafe() = default;
 private:
  mutable std::atomic<int> n_{0};
};
template <class T> using RefCounted = RefCountedThreadSafe<T>;
}  // namespace butil
template <class T> class scoped_refptr {
 public:
  typedef T element_type;
  scoped_refptr() : p_(nullptr) {}
  scoped_refptr(T* p) : p_(p) { if (p_) p_->AddRef(); }
  scoped_refptr(const scoped_refptr& o) : p_(o.p_) { if (p_) p_->AddRef(); }
  template <class U> scoped_refptr(const scoped_refptr<U>& o) : p_(o.get()) { if (p_) p_->AddRef(); }
  ~scoped_refptr() { if (p_) p_->Release(); }
  T* get() const { return p_; }
  operator T*() const { return p_; }
  T* operator->() const { return p_; }
  T& operator*() const { return *p_; }
  scoped_refptr& operator=(T* p) { if (p) p->AddRef(); T* o = p_; p_ = p; if (o) o->Release(); return *this; }
  scoped_refptr& operator=(const scoped_refptr& o) { return *this = o.p_; }
  template <class U> scoped_refptr& operator=(const scoped_refptr<U>& o) { return *this = o.get(); }
  void swap(scoped_refptr& o) { std::swap(p_, o.p_); }
  void reset(T* p = nullptr) { *this = p; }
  T* release() { T* p = p_; p_ = nullptr; return p; }
 private:
  T* p_;
};
