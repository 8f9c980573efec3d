#pragma once
#include <google/protobuf/service.h>
#include "brpc/builtin/tabbed.h"
#include "brpc/channel.h"
#include "brpc/closure_guard.h"
#include "brpc/controller.h"
#include "butil/endpoint.h"
#include "butil/status.h"
namespace brpc {
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
struct ServerOptions { int num_threads = 8; int max_concurrency = 0; int idle_timeout_sec = -1; std::string pid_file; bool has_builtin_services = true; int internal_port = -1; bthread_tag_t bthread_tag = 0; std::string server_info_name; };
struct ServiceOptions { ServiceOwnership ownership; std::string restful_mappings; bool allow_http_body_to_pb = true; bool allow_default_url = false; };
struct ServerStatistics { size_t connection_count = 0; int user_service_count = 0; };
class Server {
 public:
  int AddService(google::protobuf::Service*, ServiceOwnership) { return 0; }
  int AddService(google::protobuf::Service*, ServiceOwnership, const butil::StringPiece&) { return 0; }
  int AddService(google::protobuf::Service*, const ServiceOptions&) { return 0; }
  int Start(const butil::EndPoint&, const ServerOptions*) { return 0; }
  int Start(const char*, const ServerOptions*) { return 0; }
  int Start(int, const ServerOptions*) { return 0; }
  int Stop(int) { return 0; } int Join() { return 0; } void RunUntilAskedToQuit() {}
  butil::EndPoint listen_address() const { return butil::EndPoint(); }
  void set_version(const std::string&) {}
  void PrintTabsBody(std::ostream&, const char*) const {}
  bool IsRunning() const { return false; }
  class MethodProperty {};
};
}
