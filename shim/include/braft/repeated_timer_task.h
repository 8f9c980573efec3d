#pragma once
#include "braft/util.h"
namespace braft {
// Timers never fire on their own: a driver calls run() itself, so that time is an explicit step.
class RepeatedTimerTask {
 public:
  RepeatedTimerTask() = default; virtual ~RepeatedTimerTask() = default;
  int init(int ms) { ms_ = ms; return 0; }
  void start() { started_ = true; } void run_once_now() { run(); } void stop() { started_ = false; } void reset() {} void reset(int ms) { ms_ = ms; } void destroy() { stop(); on_destroy(); }
  bool started() const { return started_; }
 protected:
  virtual void run() = 0; virtual int adjust_timeout_ms(int t) { return t; } virtual void on_destroy() = 0; int ms_ = 0; bool started_ = false;
};
}
