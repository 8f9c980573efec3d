// Stand-in: the expression-engine coprocessors need the absent libexpr/dingo-serial submodules.
#pragma once
#include "coprocessor/raw_coprocessor.h"
namespace dingodb {
class CoprocessorV2 : public RawCoprocessor {
 public:
  explicit CoprocessorV2(char) {}
  static std::shared_ptr<CoprocessorV2> New(char p) { return std::make_shared<CoprocessorV2>(p); }
};
}  // namespace dingodb
