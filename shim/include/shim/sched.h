// Deterministic cooperative scheduler behind the bthread primitives of this shim. While it is active exactly one managed
// thread runs; every lock / unlock / wait / signal / sleep / start / join (and, in builds instrumented with
// -fsanitize=thread callbacks, every memory access) is a scheduling point whose outcome is chosen by the strategy.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace shim {
struct SchedOpts {
  uint64_t seed = 1;
  int preempt_permille = 300;        // at a non-blocking point: probability of switching to another runnable thread
  int mem_preempt_permille = 0;      // same, for instrumented memory accesses (0 = not a scheduling point)
  int64_t max_steps = 2000000;
  bool spurious_wakeup = false;
  std::vector<int> prefix;           // forced choices (systematic exploration); afterwards: strategy
  bool systematic = false;           // after the prefix always pick choice 0 (= keep running / lowest id)
};
struct SchedResult {
  bool deadlock = false, overrun = false;
  int64_t steps = 0;
  std::vector<int> choices, nchoices;  // only recorded when systematic
  std::string blocked;                 // description of blocked threads at deadlock
};
SchedResult RunSched(const SchedOpts& o, std::vector<std::function<void()>> bodies);
void SchedPoint();
bool InSched();
int SchedSelf();
// Next prefix in depth first order with at most max_preempt non-zero choices; false when exhausted.
bool NextPrefix(const SchedResult& r, int max_preempt, std::vector<int>* prefix);
}  // namespace shim
