#pragma once
#include <optional>
#include "serial/buf.h"
#include "serial/schema/base_schema.h"
namespace dingodb {
// order-preserving encoding: big endian with the sign bit flipped
template <> class DingoSchema<std::optional<int64_t>> : public BaseSchema {
 public:
  static void InternalEncodeKey(Buf* b, int64_t v) { b->WriteLong(static_cast<int64_t>(static_cast<uint64_t>(v) ^ (1ULL << 63))); }
  static int64_t InternalDecodeKey(Buf* b) { return static_cast<int64_t>(static_cast<uint64_t>(b->ReadLong()) ^ (1ULL << 63)); }
};
}  // namespace dingodb
