// Stand-in for the parts of absl/log/check.h (newer absl) that /repo uses.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <iostream>

#include "absl/strings/str_cat.h"

#ifndef ABSL_UNREACHABLE
#define ABSL_UNREACHABLE() __builtin_trap()
#endif

namespace verif_shim {
struct NullStream {
  template <class T>
  NullStream& operator<<(const T&) { return *this; }
};
struct FatalStream {
  ~FatalStream() { std::cerr << std::endl; std::abort(); }
  template <class T>
  FatalStream& operator<<(const T& x) {
    if constexpr (requires { std::cerr << x; })
      std::cerr << x;
    else
      std::cerr << absl::StrCat(x);
    return *this;
  }
};
struct Voidify {
  void operator&(const NullStream&) const {}
  void operator&(const FatalStream&) const {}
};
}  // namespace verif_shim

// The opt-build behaviour: CHECK aborts, DCHECK does nothing.
#define CHECK(c)                       \
  (c) ? (void)0                        \
      : ::verif_shim::Voidify() &      \
            (::verif_shim::FatalStream() << "CHECK failed: " #c " ")
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_OK(s) CHECK((s).ok())
#define DCHECK(c)                      \
  (true || (c)) ? (void)0              \
                : ::verif_shim::Voidify() & (::verif_shim::NullStream())
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_OK(s) DCHECK((s).ok())
#endif
