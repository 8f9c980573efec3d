#pragma once
#include <set>
#include <string>
#include "butil/status.h"
#include "proto/store.pb.h"
#include "serial/schema/base_schema.h"
namespace dingodb {
class Utils { public:
  static butil::Status CheckPbSchema(const google::protobuf::RepeatedPtrField<pb::common::Schema>&) { return butil::Status::OK(); }
  template <class... A> static butil::Status CreateSerialSchema(A&&...) { return butil::Status::OK(); }
  template <class... A> static butil::Status CheckSerialSchema(A&&...) { return butil::Status::OK(); }
  template <class T> static bool CoprocessorParamEmpty(const T& c) { return c.ByteSizeLong() == 0; }
  template <class T> static butil::Status CollectKeysFromCoprocessor(const T&, std::set<std::string>&) { return butil::Status::OK(); }
}; }
