#pragma once
#include "bthread/mutex.h"
#include "butil/time.h"
namespace bthread {
class ConditionVariable {
 public:
  ConditionVariable() { bthread_cond_init(&c_, nullptr); }
  ~ConditionVariable() { bthread_cond_destroy(&c_); }
  void wait(std::unique_lock<Mutex>& l) { bthread_cond_wait(&c_, l.mutex()->native_handler()); }
  void wait(std::unique_lock<bthread_mutex_t>& l) { bthread_cond_wait(&c_, l.mutex()); }
  template <typename P> void wait(std::unique_lock<Mutex>& l, P p) { while (!p()) wait(l); }
  template <typename P> void wait(std::unique_lock<bthread_mutex_t>& l, P p) { while (!p()) wait(l); }
  int wait_for(std::unique_lock<Mutex>& l, long us) { timespec t = butil::microseconds_from_now(us); return bthread_cond_timedwait(&c_, l.mutex()->native_handler(), &t); }
  int wait_for(std::unique_lock<bthread_mutex_t>& l, long us) { timespec t = butil::microseconds_from_now(us); return bthread_cond_timedwait(&c_, l.mutex(), &t); }
  int wait_until(std::unique_lock<Mutex>& l, timespec t) { return bthread_cond_timedwait(&c_, l.mutex()->native_handler(), &t); }
  void notify_one() { bthread_cond_signal(&c_); }
  void notify_all() { bthread_cond_broadcast(&c_); }
 private: bthread_cond_t c_;
};
}
