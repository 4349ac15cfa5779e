// Stand-in: expressions are modelled by their text.
#pragma once
#include "arolla/mini/s11n.h"
namespace koladata::expr {
class LiteralOperator final : public arolla::expr::ExprOperator {
 public:
  explicit LiteralOperator(arolla::TypedValue v) : value_(std::move(v)) {}
  static absl::StatusOr<std::shared_ptr<LiteralOperator>> Make(
      arolla::TypedValue v) {
    return std::make_shared<LiteralOperator>(std::move(v));
  }
  const arolla::TypedValue& value() const { return value_; }

 private:
  arolla::TypedValue value_;
};
}  // namespace koladata::expr
