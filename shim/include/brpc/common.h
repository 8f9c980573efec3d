#pragma once
#include <google/protobuf/stubs/callback.h>
namespace brpc {
enum { ENOSERVICE = 1001, ENOMETHOD = 1002, EREQUEST = 1003, ERPCTIMEDOUT = 1008, EFAILEDSOCKET = 1009, EHTTP = 1010, EOVERCROWDED = 1011, EINTERNAL = 2001, ERESPONSE = 2002, ELOGOFF = 2003, ELIMIT = 2004, ECLOSE = 2005 };
enum CompressType { COMPRESS_TYPE_NONE = 0, COMPRESS_TYPE_SNAPPY = 1, COMPRESS_TYPE_GZIP = 2, COMPRESS_TYPE_ZLIB = 3, COMPRESS_TYPE_LZ4 = 4 };
typedef ::google::protobuf::Closure Closure;
using ::google::protobuf::NewCallback;
inline google::protobuf::Closure* DoNothing() { return ::google::protobuf::NewCallback(+[]() {}); }
inline bool IsAskedToQuit() { return false; }
inline void AskToQuit() {}
}
