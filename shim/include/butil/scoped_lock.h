#pragma once
#include <mutex>
#include "butil/macros.h"
#include "butil/compiler_specific.h"
namespace butil { template <typename M> using shim_lg = std::lock_guard<M>; }
#define BAIDU_SCOPED_LOCK(ref) std::lock_guard<typename std::remove_reference<decltype(ref)>::type> BAIDU_CONCAT(scoped_locker_dummy_at_line_, __LINE__)(ref)
