#ifndef VERIF_STRINGS_FIND_H_
#define VERIF_STRINGS_FIND_H_
#include "arolla/mini/base.h"
#include "arolla/mini/optional.h"
namespace arolla {
namespace mini_internal {
inline int64_t CountOverlapping(absl::string_view s, absl::string_view sub) {
  // An empty pattern is found at every position, the end included.
  if (sub.empty()) return s.size() + 1;
  int64_t n = 0;
  for (size_t i = 0; i + sub.size() <= s.size(); ++i) n += s.substr(i, sub.size()) == sub;
  return n;
}
inline int64_t CodePoints(absl::string_view s) {
  int64_t n = 0;
  for (char c : s) n += (static_cast<unsigned char>(c) & 0xC0) != 0x80;
  return n;
}
}  // namespace mini_internal
struct ContainsOp {
  OptionalUnit operator()(absl::string_view s, absl::string_view sub) const {
    return OptionalUnit(sub.empty() || std::string_view(s.data(), s.size()).find(std::string_view(sub.data(), sub.size())) != std::string_view::npos);
  }
};
struct BytesSubstringOccurrenceCountOp {
  int64_t operator()(absl::string_view s, absl::string_view sub) const {
    return mini_internal::CountOverlapping(s, sub);
  }
};
struct TextSubstringOccurrenceCountOp {
  int64_t operator()(absl::string_view s, absl::string_view sub) const {
    if (sub.empty()) return mini_internal::CodePoints(s) + 1;
    return mini_internal::CountOverlapping(s, sub);
  }
};
struct TextLengthOp {
  int64_t operator()(absl::string_view s) const { return mini_internal::CodePoints(s); }
};
}  // namespace arolla
#endif
