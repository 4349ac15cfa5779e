#ifndef VERIF_MINI_AROLLA_MATH_H_
#define VERIF_MINI_AROLLA_MATH_H_
#include <bit>
#include <cmath>
#include "arolla/mini/array.h"
#include "arolla/mini/ops.h"
namespace arolla {
namespace mini_internal {
template <typename T>
using uns = std::make_unsigned_t<T>;
}
struct AddOp {
  template <typename T> T operator()(T a, T b) const {
    if constexpr (std::is_integral_v<T>) return mini_internal::uns<T>(a) + mini_internal::uns<T>(b);
    else return a + b;
  }
};
struct SubtractOp {
  template <typename T> T operator()(T a, T b) const {
    if constexpr (std::is_integral_v<T>) return mini_internal::uns<T>(a) - mini_internal::uns<T>(b);
    else return a - b;
  }
};
struct MultiplyOp {
  template <typename T> T operator()(T a, T b) const {
    if constexpr (std::is_integral_v<T>) return mini_internal::uns<T>(a) * mini_internal::uns<T>(b);
    else return a * b;
  }
};
struct DivideOp {
  template <typename T> T operator()(T a, T b) const { return a / b; }
};
struct FloorDivOp {
  template <typename T>
  std::conditional_t<std::is_integral_v<T>, absl::StatusOr<T>, T> operator()(T a, T b) const {
    if constexpr (std::is_integral_v<T>) {
      if (b == 0) return absl::InvalidArgumentError("division by zero");
      if (b == -1) return T(-mini_internal::uns<T>(a));
      T q = a / b;
      return T(q - ((a % b != 0) && ((a < 0) != (b < 0))));
    } else {
      return std::floor(a / b);
    }
  }
};
struct ModOp {
  template <typename T>
  std::conditional_t<std::is_integral_v<T>, absl::StatusOr<T>, T> operator()(T a, T b) const {
    if constexpr (std::is_integral_v<T>) {
      if (b == 0) return absl::InvalidArgumentError("division by zero");
      if (b == -1) return T(0);
      T m = a % b;
      if (m != 0 && ((m < 0) != (b < 0))) m += b;
      return m;
    } else {
      T m = std::fmod(a, b);
      if (m != 0 && ((m < 0) != (b < 0))) m += b;
      return m;
    }
  }
};
struct PowOp {
  template <typename T> T operator()(T a, T b) const { return std::pow(a, b); }
};
struct MaxOp {
  template <typename T> T operator()(T a, T b) const {
    if constexpr (std::is_floating_point_v<T>) {
      if (std::isnan(a)) return a;
      if (std::isnan(b)) return b;
    }
    return a < b ? b : a;
  }
};
struct MinOp {
  template <typename T> T operator()(T a, T b) const {
    if constexpr (std::is_floating_point_v<T>) {
      if (std::isnan(a)) return a;
      if (std::isnan(b)) return b;
    }
    return b < a ? b : a;
  }
};
struct IsNanOp {
  template <typename T> OptionalUnit operator()(T a) const {
    if constexpr (std::is_floating_point_v<T>) return OptionalUnit(std::isnan(a));
    return OptionalUnit(false);
  }
};
struct AbsOp {
  template <typename T> T operator()(T a) const {
    if constexpr (std::is_integral_v<T>) return a < 0 ? T(-mini_internal::uns<T>(a)) : a;
    else return std::fabs(a);
  }
};
struct NegOp {
  template <typename T> T operator()(T a) const {
    if constexpr (std::is_integral_v<T>) return T(-mini_internal::uns<T>(a));
    else return -a;
  }
};
struct PosOp {
  template <typename T> T operator()(T a) const { return a; }
};
struct SignOp {
  template <typename T> T operator()(T a) const {
    if constexpr (std::is_floating_point_v<T>) {
      if (std::isnan(a)) return a;
    }
    return T((a > 0) - (a < 0));
  }
};
struct CeilOp { template <typename T> requires std::is_arithmetic_v<T> auto operator()(T a) const { return std::ceil(a); } };
struct FloorOp { template <typename T> requires std::is_arithmetic_v<T> auto operator()(T a) const { return std::floor(a); } };
struct RoundOp { template <typename T> requires std::is_arithmetic_v<T> auto operator()(T a) const { return std::round(a); } };
struct ExpOp { template <typename T> T operator()(T a) const { return std::exp(a); } };
struct LogOp { template <typename T> T operator()(T a) const { return std::log(a); } };
struct Log10Op { template <typename T> T operator()(T a) const { return std::log10(a); } };
struct SqrtOp { template <typename T> T operator()(T a) const { return std::sqrt(a); } };
struct BitwiseAndOp { template <typename T> T operator()(T a, T b) const { return a & b; } };
struct BitwiseOrOp { template <typename T> T operator()(T a, T b) const { return a | b; } };
struct BitwiseXorOp { template <typename T> T operator()(T a, T b) const { return a ^ b; } };
struct InvertOp { template <typename T> T operator()(T a) const { return ~a; } };
struct BitwiseCountOp {
  template <typename T> int32_t operator()(T a) const {
    return std::popcount(mini_internal::uns<T>(a));
  }
};
struct MaskLessOp {
  template <typename T> OptionalUnit operator()(const T& a, const T& b) const {
    return OptionalUnit(a < b);
  }
  OptionalUnit operator()(Unit, Unit) const { return OptionalUnit(false); }
};
struct MaskLessEqualOp {
  template <typename T> OptionalUnit operator()(const T& a, const T& b) const {
    return OptionalUnit(a <= b);
  }
  OptionalUnit operator()(Unit, Unit) const { return OptionalUnit(true); }
};
}  // namespace arolla
#endif
