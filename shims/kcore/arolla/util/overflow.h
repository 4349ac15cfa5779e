#pragma once
namespace arolla {
template <typename T>
T safe_mul(T a, T b, bool* overflow) {
  T r;
  if (__builtin_mul_overflow(a, b, &r)) *overflow = true;
  return r;
}
template <typename T>
T safe_add(T a, T b, bool* overflow) {
  T r;
  if (__builtin_add_overflow(a, b, &r)) *overflow = true;
  return r;
}
}  // namespace arolla
