#pragma once
#include <google/protobuf/message.h>
#include <string>
#include "braft/file_system_adaptor.h"
namespace braft {
class ProtoBufFile {
 public:
  ProtoBufFile(const char* p, FileSystemAdaptor* fs = nullptr) : path_(p), fs_(fs) {}
  ProtoBufFile(const std::string& p, FileSystemAdaptor* fs = nullptr) : path_(p), fs_(fs) {}
  int save(const ::google::protobuf::Message* m, bool sync);
  int load(::google::protobuf::Message* m);
 private: std::string path_; scoped_refptr<FileSystemAdaptor> fs_;
};
}
