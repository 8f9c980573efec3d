#pragma once
#include <google/protobuf/service.h>
namespace brpc {
class ClosureGuard {
 public:
  ClosureGuard() : d_(nullptr) {}
  explicit ClosureGuard(google::protobuf::Closure* d) : d_(d) {}
  ~ClosureGuard() { if (d_) d_->Run(); }
  void reset(google::protobuf::Closure* d) { if (d_) d_->Run(); d_ = d; }
  google::protobuf::Closure* release() { auto* p = d_; d_ = nullptr; return p; }
  bool empty() const { return d_ == nullptr; }
 private: ClosureGuard(const ClosureGuard&); void operator=(const ClosureGuard&); google::protobuf::Closure* d_;
};
}
