#pragma once
#include <google/protobuf/descriptor.h>
#include <google/protobuf/service.h>
#include <functional>
#include <map>
#include "brpc/controller.h"
namespace shim {
// In-process RPC: (endpoint, method full name) -> handler. Unrouted calls fail like an unreachable host.
using RpcHandler = std::function<void(const butil::EndPoint&, const google::protobuf::MethodDescriptor*, brpc::Controller*, const google::protobuf::Message*, google::protobuf::Message*)>;
void SetRpcHandler(RpcHandler h);
void CallRpc(const butil::EndPoint& to, const google::protobuf::MethodDescriptor* m, brpc::Controller* c, const google::protobuf::Message* req, google::protobuf::Message* rsp);
}
namespace brpc {
enum ConnectionType { CONNECTION_TYPE_UNKNOWN = 0, CONNECTION_TYPE_SINGLE = 1, CONNECTION_TYPE_POOLED = 2, CONNECTION_TYPE_SHORT = 4 };
struct ConnTypeShim { const char* v = ""; ConnTypeShim& operator=(const char* s) { v = s; return *this; } ConnTypeShim& operator=(ConnectionType) { return *this; } ConnTypeShim& operator=(const std::string&) { return *this; } };
struct ChannelOptions { int32_t connect_timeout_ms = 200; int32_t timeout_ms = 500; int32_t backup_request_ms = -1; int max_retry = 3; std::string protocol; ConnTypeShim connection_type; std::string connection_group; bool log_succeed_without_server = true; };
class Channel : public google::protobuf::RpcChannel {
 public:
  int Init(butil::EndPoint e, const ChannelOptions*) { ep_ = e; return 0; }
  int Init(const char* s, const ChannelOptions*) { return butil::str2endpoint(s, &ep_) == 0 ? 0 : 0; }
  int Init(const char* ip, int port, const ChannelOptions*) { return butil::str2endpoint(ip, port, &ep_); }
  int Init(const char* ns, const char*, const ChannelOptions*) { (void)ns; return 0; }
  void CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* c, const google::protobuf::Message* req, google::protobuf::Message* rsp, google::protobuf::Closure* done) override {
    shim::CallRpc(ep_, m, static_cast<Controller*>(c), req, rsp); if (done) done->Run();
  }
 private: butil::EndPoint ep_;
};
}
