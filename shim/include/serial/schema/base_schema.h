#pragma once
#include <memory>
#include <string>
namespace dingodb {
class BaseSchema { public: enum Type { kBool, kInteger, kFloat, kLong, kDouble, kString, kBoolList, kIntegerList, kFloatList, kLongList, kDoubleList, kStringList, kDecimal, kDecimalList }; virtual ~BaseSchema() = default; };
template <class T> class DingoSchema;
}  // namespace dingodb
