#pragma once
#include <mutex>
#include "bthread/types.h"
#include "butil/scoped_lock.h"
int bthread_mutex_init(bthread_mutex_t* m, const bthread_mutexattr_t*);
int bthread_mutex_destroy(bthread_mutex_t* m);
int bthread_mutex_lock(bthread_mutex_t* m);
int bthread_mutex_trylock(bthread_mutex_t* m);
int bthread_mutex_timedlock(bthread_mutex_t* m, const timespec* t);
int bthread_mutex_unlock(bthread_mutex_t* m);
int bthread_cond_init(bthread_cond_t* c, const bthread_condattr_t*);
int bthread_cond_destroy(bthread_cond_t* c);
int bthread_cond_signal(bthread_cond_t* c);
int bthread_cond_broadcast(bthread_cond_t* c);
int bthread_cond_wait(bthread_cond_t* c, bthread_mutex_t* m);
int bthread_cond_timedwait(bthread_cond_t* c, bthread_mutex_t* m, const timespec* abstime);
namespace bthread {
class Mutex {
 public:
  typedef bthread_mutex_t* native_handler_type;
  Mutex() { bthread_mutex_init(&m_, nullptr); }
  ~Mutex() { bthread_mutex_destroy(&m_); }
  native_handler_type native_handler() { return &m_; }
  void lock() { bthread_mutex_lock(&m_); }
  void unlock() { bthread_mutex_unlock(&m_); }
  bool try_lock() { return !bthread_mutex_trylock(&m_); }
 private:
  DISALLOW_COPY_AND_ASSIGN(Mutex); bthread_mutex_t m_;
};
using FastPthreadMutex = Mutex;
}
namespace std {
template <> class lock_guard<bthread_mutex_t> {
 public:
  explicit lock_guard(bthread_mutex_t& m) : m_(&m) { bthread_mutex_lock(m_); }
  ~lock_guard() { bthread_mutex_unlock(m_); }
 private: lock_guard(const lock_guard&) = delete; bthread_mutex_t* m_;
};
template <> class unique_lock<bthread_mutex_t> {
 public:
  unique_lock() : m_(nullptr), o_(false) {}
  explicit unique_lock(bthread_mutex_t& m) : m_(&m), o_(true) { bthread_mutex_lock(m_); }
  unique_lock(bthread_mutex_t& m, defer_lock_t) : m_(&m), o_(false) {}
  unique_lock(bthread_mutex_t& m, try_to_lock_t) : m_(&m), o_(bthread_mutex_trylock(&m) == 0) {}
  ~unique_lock() { if (o_) unlock(); }
  void lock() { bthread_mutex_lock(m_); o_ = true; }
  bool try_lock() { return o_ = !bthread_mutex_trylock(m_); }
  void unlock() { bthread_mutex_unlock(m_); o_ = false; }
  bool owns_lock() const { return o_; }
  operator bool() const { return o_; }
  bthread_mutex_t* mutex() { return m_; }
 private: unique_lock(const unique_lock&) = delete; bthread_mutex_t* m_; bool o_;
};
}
