#pragma once
#include <gflags/gflags.h>
#include "butil/macros.h"
namespace brpc {
inline bool PassValidate(const char*, bool) { return true; }
inline bool PassValidate(const char*, int32_t) { return true; }
inline bool PassValidate(const char*, uint32_t) { return true; }
inline bool PassValidate(const char*, int64_t) { return true; }
inline bool PassValidate(const char*, uint64_t) { return true; }
inline bool PassValidate(const char*, double) { return true; }
inline bool PassValidate(const char*, const std::string&) { return true; }
inline bool PositiveInteger(const char*, int32_t v) { return v > 0; }
inline bool PositiveInteger(const char*, int64_t v) { return v > 0; }
inline bool PositiveInteger(const char*, uint32_t v) { return v > 0; }
inline bool PositiveInteger(const char*, uint64_t v) { return v > 0; }
inline bool NonNegativeInteger(const char*, int32_t v) { return v >= 0; }
inline bool NonNegativeInteger(const char*, int64_t v) { return v >= 0; }
inline bool NonNegativeInteger(const char*, uint32_t) { return true; }
inline bool NonNegativeInteger(const char*, uint64_t) { return true; }
template <typename T> inline bool PassValidateT(const char*, T) { return true; }
template <typename T> struct VArg { typedef bool (*F)(const char*, T); };
template <> struct VArg<std::string> { typedef bool (*F)(const char*, const std::string&); };
template <typename T> inline bool RegValidator(T* flag, typename VArg<T>::F fn) { return GFLAGS_NAMESPACE::RegisterFlagValidator(flag, fn); }
}
#define BRPC_VALIDATE_GFLAG(flag, validate_fn) \
  static bool BAIDU_CONCAT(register_FLAGS_, flag) ALLOW_UNUSED = ::brpc::RegValidator(&FLAGS_##flag, (validate_fn))
