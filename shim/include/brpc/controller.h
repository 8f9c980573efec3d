#pragma once
#include <google/protobuf/service.h>
#include <google/protobuf/stubs/callback.h>
#include <functional>
#include <string>
#include "butil/endpoint.h"
#include "butil/iobuf.h"
#include "butil/time.h"
#include "bthread/bthread.h"
#include "bvar/bvar.h"
#include "brpc/common.h"
namespace brpc {
class Server;
class URI {
 public:
  const std::string& path() const { return p_; }
  const std::string* GetQuery(const std::string& k) const { auto it = q_.find(k); return it == q_.end() ? nullptr : &it->second; }
  void SetQuery(const std::string& k, const std::string& v) { q_[k] = v; }
 private: std::string p_; std::map<std::string, std::string> q_;
};
class HttpHeader {
 public:
  const URI& uri() const { return u_; } URI& uri() { return u_; }
  const std::string& unresolved_path() const { return unresolved_; }
  std::string unresolved_;
  void set_content_type(const std::string& t) { ct_ = t; }
  const std::string& content_type() const { return ct_; }
  void set_status_code(int c) { code_ = c; }
  int status_code() const { return code_; }
  const std::string* GetHeader(const std::string&) const { return nullptr; }
  void SetHeader(const std::string&, const std::string&) {}
  void AppendHeader(const std::string&, const std::string&) {}
 private: URI u_; std::string ct_; int code_ = 200;
};
class Controller : public google::protobuf::RpcController {
 public:
  Controller() = default;
  ~Controller() override { for (auto* c : cancel_) c->Run(); }
  void Reset() override { failed_ = false; text_.clear(); code_ = 0; }
  bool Failed() const override { return failed_; }
  std::string ErrorText() const override { return text_; }
  int ErrorCode() const { return code_; }
  void StartCancel() override {}
  void SetFailed(const std::string& r) override { failed_ = true; text_ = r; code_ = -1; }
  void SetFailed(int code, const char* fmt, ...) __attribute__((format(printf, 3, 4))) { failed_ = true; code_ = code; text_ = fmt; }
  bool IsCanceled() const override { return false; }
  void NotifyOnCancel(google::protobuf::Closure* c) override { cancel_.push_back(c); }
  butil::EndPoint remote_side() const { return remote_; }
  butil::EndPoint local_side() const { return remote_; }
  void set_remote_side(const butil::EndPoint& e) { remote_ = e; }
  HttpHeader& http_request() { return req_; } HttpHeader& http_response() { return rsp_; }
  const HttpHeader& http_request() const { return req_; }
  butil::IOBuf& request_attachment() { return ra_; } butil::IOBuf& response_attachment() { return pa_; }
  const butil::IOBuf& request_attachment() const { return ra_; }
  const Server* server() const { return nullptr; }
  int64_t latency_us() const { return 0; }
  uint64_t log_id() const { return log_id_; } bool has_log_id() const { return has_log_id_; }
  void set_log_id(uint64_t v) { log_id_ = v; has_log_id_ = true; }
  void set_timeout_ms(int64_t) {} void set_max_retry(int) {} int64_t timeout_ms() const { return 0; }
  void set_response_compress_type(int) {} void set_request_compress_type(int) {}
  void ignore_eovercrowded() {}
 private:
  bool failed_ = false; std::string text_; int code_ = 0; butil::EndPoint remote_; HttpHeader req_, rsp_; butil::IOBuf ra_, pa_;
  uint64_t log_id_ = 0; bool has_log_id_ = false; std::vector<google::protobuf::Closure*> cancel_;
};
}
