#pragma once
#include <atomic>
#include "butil/compiler_specific.h"
namespace butil {
using ::std::memory_order; using ::std::memory_order_relaxed; using ::std::memory_order_consume;
using ::std::memory_order_acquire; using ::std::memory_order_release; using ::std::memory_order_acq_rel; using ::std::memory_order_seq_cst;
using ::std::atomic_thread_fence;
template <typename T> class atomic : public ::std::atomic<T> {
 public:
  atomic() {}
  atomic(T v) : ::std::atomic<T>(v) {}
  atomic& operator=(T v) { this->store(v); return *this; }
  atomic(const atomic&) = delete;
};
}  // namespace butil
