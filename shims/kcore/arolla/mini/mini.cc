#include <charconv>
#include "arolla/mini/array.h"
namespace arolla {
template <typename T>
static std::string Shortest(T v) {
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v < 0 ? "-inf" : "inf";
  char buf[64];
  auto r = std::to_chars(buf, buf + sizeof(buf), v);
  return std::string(buf, r.ptr);
}
std::string ShortestFloat(float v) { return Shortest(v); }
std::string ShortestDouble(double v) { return Shortest(v); }
absl::StatusOr<int64_t> ParseIntMini(absl::string_view s, int bits) {
  const char* b = s.data();
  const char* e = b + s.size();
  if (b != e && *b == '+') {
    ++b;
    if (b != e && *b == '-') b = e;
  }
  int64_t v = 0;
  auto r = std::from_chars(b, e, v);
  if (b == e || r.ec != std::errc() || r.ptr != e ||
      (bits == 32 && (v < INT32_MIN || v > INT32_MAX))) {
    return absl::InvalidArgumentError(
        absl::StrCat("unable to parse INT", bits, ": '", s, "'"));
  }
  return v;
}
absl::StatusOr<double> ParseFloatMini(absl::string_view s, int bits) {
  const char* b = s.data();
  const char* e = b + s.size();
  if (b != e && *b == '+') {
    ++b;
    if (b != e && *b == '-') b = e;
  }
  double v = 0;
  float f = 0;
  std::from_chars_result r =
      bits == 32 ? std::from_chars(b, e, f) : std::from_chars(b, e, v);
  if (bits == 32) v = f;
  if (b == e || r.ptr != e || r.ec == std::errc::invalid_argument) {
    return absl::InvalidArgumentError(
        absl::StrCat("unable to parse FLOAT", bits, ": '", s, "'"));
  }
  return v;
}
bool IsUtf8Mini(absl::string_view s) {
  size_t i = 0;
  while (i < s.size()) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : (c >> 5) == 6 ? 1 : (c >> 4) == 14 ? 2
            : (c >> 3) == 30 ? 3 : -1;
    if (n < 0 || i + n >= s.size()) return false;
    uint32_t cp = n == 0 ? c : c & (0x3f >> n);
    for (int k = 1; k <= n; ++k) {
      if ((static_cast<unsigned char>(s[i + k]) >> 6) != 2) return false;
      cp = (cp << 6) | (s[i + k] & 0x3f);
    }
    if ((n == 1 && cp < 0x80) || (n == 2 && cp < 0x800) ||
        (n == 3 && cp < 0x10000) || cp > 0x10ffff ||
        (cp >= 0xd800 && cp < 0xe000)) {
      return false;
    }
    i += n + 1;
  }
  return true;
}
}  // namespace arolla
