// Stand-in: the expression-engine coprocessors need the absent libexpr/dingo-serial submodules.
#pragma once
#include "coprocessor/raw_coprocessor.h"
namespace dingodb {
class Coprocessor : public RawCoprocessor {
 public:
  explicit Coprocessor(char) {}
  static std::shared_ptr<Coprocessor> New(char p) { return std::make_shared<Coprocessor>(p); }
};
}  // namespace dingodb
