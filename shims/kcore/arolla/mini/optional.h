#ifndef VERIF_MINI_AROLLA_OPTIONAL_H_
#define VERIF_MINI_AROLLA_OPTIONAL_H_
#include "arolla/mini/base.h"
namespace arolla {

template <typename T>
struct OptionalValue {
  using value_type = T;
  bool present;
  T value;

  constexpr OptionalValue() : present(false), value() {}
  constexpr OptionalValue(T v) : present(true), value(std::move(v)) {}  // NOLINT
  constexpr OptionalValue(std::nullopt_t) : present(false), value() {}  // NOLINT
  constexpr OptionalValue(bool p, T v) : present(p), value(std::move(v)) {}
  constexpr OptionalValue(std::optional<T> o)  // NOLINT
      : present(o.has_value()), value(o.has_value() ? *std::move(o) : T()) {}
  template <typename U, typename = std::enable_if_t<
      std::is_same_v<view_type_t<T>, U> && !std::is_same_v<T, U>>>
  explicit OptionalValue(const OptionalValue<U>& o)
      : present(o.present), value(T(o.value)) {}
  template <typename U, typename = std::enable_if_t<
      std::is_same_v<view_type_t<T>, U> && !std::is_same_v<T, U>>, int = 0>
  explicit OptionalValue(U v) : present(true), value(T(v)) {}
  template <typename U, typename = std::enable_if_t<
      std::is_same_v<std::decay_t<const U>, const char*> &&
      std::is_constructible_v<T, U>>, char = 0>
  explicit OptionalValue(const U& v) : present(true), value(T(v)) {}
  OptionalValue& operator=(T v) & {
    present = true;
    value = std::move(v);
    return *this;
  }
  explicit operator bool() const { return present; }
  std::optional<T> AsOptional() const& {
    return present ? std::optional<T>(value) : std::nullopt;
  }
  std::optional<T> AsOptional() && {
    return present ? std::optional<T>(std::move(value)) : std::nullopt;
  }
  operator OptionalValue<view_type_t<T>>() const
    requires(!std::is_same_v<T, view_type_t<T>>) {
    return {present, view_type_t<T>(value)};
  }
  void ArollaFingerprint(FingerprintHasher* h) const {
    h->Combine(present);
    if (present) h->Combine(value);
  }
};
template <>
struct OptionalValue<Unit> {
  using value_type = Unit;
  bool present;
  [[no_unique_address]] Unit value = {};
  constexpr OptionalValue() : present(false) {}
  constexpr OptionalValue(Unit) : present(true) {}           // NOLINT
  constexpr OptionalValue(std::nullopt_t) : present(false) {}  // NOLINT
  constexpr OptionalValue(bool p, Unit) : present(p) {}
  constexpr explicit OptionalValue(bool p) : present(p) {}
  constexpr OptionalValue(std::optional<Unit> o) : present(o.has_value()) {}  // NOLINT
  explicit operator bool() const { return present; }
  std::optional<Unit> AsOptional() const {
    return present ? std::optional<Unit>(Unit{}) : std::nullopt;
  }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(present); }
};
using OptionalUnit = OptionalValue<Unit>;
inline constexpr OptionalUnit kPresent{Unit{}};
inline constexpr OptionalUnit kMissing{};

template <typename T>
inline constexpr bool is_optional_v = meta::is_wrapped_with_v<OptionalValue, T>;
template <typename T>
using strip_optional_t = meta::strip_template_t<OptionalValue, T>;
template <typename T>
struct wrap_with_optional { using type = OptionalValue<T>; };
template <typename T>
struct wrap_with_optional<OptionalValue<T>> { using type = OptionalValue<T>; };
template <typename T>
using wrap_with_optional_t = typename wrap_with_optional<T>::type;
template <typename T>
struct view_type<OptionalValue<T>> {
  using type = OptionalValue<view_type_t<T>>;
};

template <typename A, typename B>
  requires(requires(const A& a, const B& b) { a == b; })
bool operator==(const OptionalValue<A>& a, const OptionalValue<B>& b) {
  return a.present == b.present && (!a.present || a.value == b.value);
}
template <typename A, typename B>
bool operator!=(const OptionalValue<A>& a, const OptionalValue<B>& b) {
  return !(a == b);
}
template <typename A>
bool operator==(const OptionalValue<A>& a, const A& b) {
  return a.present && a.value == b;
}
template <typename A>
bool operator!=(const OptionalValue<A>& a, const A& b) {
  return !(a == b);
}
template <typename A>
bool operator==(const A& b, const OptionalValue<A>& a) {
  return a.present && a.value == b;
}
inline bool operator==(const OptionalValue<absl::string_view>& a,
                       absl::string_view b) {
  return a.present && a.value == b;
}
template <typename A>
bool operator==(const OptionalValue<A>& a, std::nullopt_t) {
  return !a.present;
}
template <typename A>
bool operator!=(const OptionalValue<A>& a, std::nullopt_t) {
  return a.present;
}
template <typename T>
constexpr OptionalValue<T> MakeOptionalValue(T v) {
  return OptionalValue<T>(std::move(v));
}
template <typename T>
absl::StatusOr<OptionalValue<T>> wrap_optional(T v) { return v; }
template <typename T>
std::ostream& operator<<(std::ostream& o, const OptionalValue<T>& v) {
  if (v.present) {
    if constexpr (requires { o << v.value; }) {
      return o << v.value;
    } else {
      return o << "<value>";
    }
  }
  return o << "NA";
}
template <typename T>
struct ReprTraits<OptionalValue<T>> {
  ReprToken operator()(const OptionalValue<T>& v) const {
    return ReprToken(v.present ? "optional_" + Repr(T(v.value)) : "NA");
  }
};
}  // namespace arolla
#endif
