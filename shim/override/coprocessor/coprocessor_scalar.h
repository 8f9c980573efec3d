// Stand-in: the expression-engine coprocessors need the absent libexpr/dingo-serial submodules.
#pragma once
#include "coprocessor/raw_coprocessor.h"
namespace dingodb {
class CoprocessorScalar : public RawCoprocessor {
 public:
  explicit CoprocessorScalar(char) {}
  static std::shared_ptr<CoprocessorScalar> New(char p) { return std::make_shared<CoprocessorScalar>(p); }
};
}  // namespace dingodb
