#pragma once
#include <atomic>
#include <cerrno>
#include <deque>
#include <functional>
#include <memory>
#include "bthread/bthread.h"
namespace bthread {
struct TaskHandle {};
struct TaskOptions { TaskOptions() {} bool high_priority = false; bool in_place_if_possible = false; };
static const TaskOptions TASK_OPTIONS_NORMAL, TASK_OPTIONS_URGENT, TASK_OPTIONS_INPLACE;
struct ExecutionQueueOptions { bool use_pthread = false; bthread_attr_t bthread_attr = BTHREAD_ATTR_NORMAL; void* executor = nullptr; };
template <typename T> struct ExecutionQueueId { uint64_t value = 0; };
template <typename T> class TaskIterator {
 public:
  TaskIterator(std::deque<T>* q, bool stopped) : q_(q), stopped_(stopped) {}
  bool is_queue_stopped() const { return stopped_; }
  explicit operator bool() const { return i_ < q_->size(); }
  T& operator*() const { return (*q_)[i_]; }
  T* operator->() const { return &(*q_)[i_]; }
  TaskIterator& operator++() { ++i_; return *this; }
  void operator++(int) { ++i_; }
 private:
  std::deque<T>* q_; bool stopped_; size_t i_ = 0;
};
namespace shimq {
struct QBase {
  virtual ~QBase() = default;
  bthread_mutex_t mu; bthread_cond_t cv; bool stop = false; bool done = false; bthread_t tid = 0;
  virtual bool Drain() = 0;  // runs with mu held on entry/exit
};
uint64_t Register(std::shared_ptr<QBase> q);
std::shared_ptr<QBase> Find(uint64_t id);
void Start(std::shared_ptr<QBase> q);
}
template <typename T> struct ShimQ : shimq::QBase {
  int (*fn)(void*, TaskIterator<T>&) = nullptr; void* meta = nullptr; std::deque<T> q;
  bool Drain() override {
    if (q.empty()) return false;
    std::deque<T> b; b.swap(q); bthread_mutex_unlock(&mu);
    { TaskIterator<T> it(&b, false); fn(meta, it); }
    bthread_mutex_lock(&mu); return true;
  }
};
template <typename T>
int execution_queue_start(ExecutionQueueId<T>* id, const ExecutionQueueOptions*, int (*fn)(void*, TaskIterator<T>&), void* meta) {
  auto q = std::make_shared<ShimQ<T>>(); q->fn = fn; q->meta = meta; id->value = shimq::Register(q); shimq::Start(q); return 0;
}
template <typename T> int execution_queue_execute(ExecutionQueueId<T> id, const T& t, const TaskOptions* = nullptr, TaskHandle* = nullptr) {
  auto q = std::static_pointer_cast<ShimQ<T>>(shimq::Find(id.value)); if (!q) return EINVAL;
  bthread_mutex_lock(&q->mu); if (q->stop) { bthread_mutex_unlock(&q->mu); return EINVAL; }
  q->q.push_back(t); bthread_cond_signal(&q->cv); bthread_mutex_unlock(&q->mu); return 0;
}
template <typename T> int execution_queue_stop(ExecutionQueueId<T> id) {
  auto q = shimq::Find(id.value); if (!q) return EINVAL;
  bthread_mutex_lock(&q->mu); q->stop = true; bthread_cond_broadcast(&q->cv); bthread_mutex_unlock(&q->mu); return 0;
}
template <typename T> int execution_queue_join(ExecutionQueueId<T> id) {
  auto q = shimq::Find(id.value); if (!q) return EINVAL; bthread_join(q->tid, nullptr); 
  auto sq = std::static_pointer_cast<ShimQ<T>>(q); std::deque<T> e; TaskIterator<T> it(&e, true); sq->fn(sq->meta, it); return 0;
}
}
