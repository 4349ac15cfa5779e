#ifndef VERIF_OVERLOAD_H_
#define VERIF_OVERLOAD_H_
namespace absl {
template <typename... T>
struct Overload final : T... {
  using T::operator()...;
  constexpr explicit Overload(T... t) : T(std::forward<T>(t))... {}
};
template <typename... T> Overload(T...) -> Overload<T...>;
}
#endif
