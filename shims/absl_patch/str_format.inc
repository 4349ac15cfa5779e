// StrFormat without compile-time checks, with %v and AbslStringify.
#include <cctype>
#include <cstring>
#include "absl/strings/str_cat.h"
#include "absl/types/span.h"
#include <deque>
#include <vector>
namespace absl {
namespace verif_stringify {
// Adds %v and AbslStringify support to an absl that predates them.
template <typename T>
char VConv() {
  if constexpr (std::is_same_v<T, bool>) return 's';
  else if constexpr (Has<T>::value) return 's';
  else if constexpr (std::is_floating_point_v<T>) return 'g';
  else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) return 'd';
  else return 's';
}
template <typename T>
auto Conv(const T& a, bool is_v, std::deque<std::string>& keep)
    -> str_format_internal::FormatArgImpl {
  if constexpr (Has<T>::value) {
    keep.push_back(ToString(a));
    return str_format_internal::FormatArgImpl(keep.back());
  } else if constexpr (std::is_same_v<T, bool>) {
    if (is_v) {
      keep.push_back(a ? "true" : "false");
      return str_format_internal::FormatArgImpl(keep.back());
    }
    return str_format_internal::FormatArgImpl(a);
  } else if constexpr (std::is_enum_v<T>) {
    static_assert(sizeof(T) > 0);
    return str_format_internal::FormatArgImpl(
        static_cast<long long>(a));
  } else if constexpr (std::is_same_v<T, std::string_view> ||
                       (std::is_class_v<T> && !std::is_same_v<T, std::string> &&
                        !std::is_same_v<T, absl::string_view> &&
                        std::is_convertible_v<const T&, absl::string_view>)) {
    keep.push_back(std::string(absl::string_view(a)));
    return str_format_internal::FormatArgImpl(keep.back());
  } else {
    return str_format_internal::FormatArgImpl(a);
  }
}
}  // namespace verif_stringify
template <typename... Args>
std::string StrFormat(absl::string_view format, const Args&... args) {
  const char conv[] = {verif_stringify::VConv<std::decay_t<Args>>()..., 0};
  bool is_v[sizeof...(Args) + 1] = {};
  std::string f(format);
  size_t arg = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') continue;
    ++i;
    if (i < f.size() && f[i] == '%') continue;
    while (i < f.size() && !std::isalpha((unsigned char)f[i])) {
      if (f[i] == '*') ++arg;
      ++i;
    }
    while (i < f.size() && std::strchr("hlLqjzt", f[i])) ++i;
    if (i < f.size() && f[i] == 'v' && arg < sizeof...(Args)) {
      f[i] = conv[arg];
      is_v[arg] = true;
    }
    ++arg;
  }
  std::deque<std::string> keep;
  size_t k = 0;
  std::vector<str_format_internal::FormatArgImpl> v;
  (void)k;
  (v.push_back(verif_stringify::Conv(args, is_v[k++], keep)), ...);
  std::string out;
  if (!FormatUntyped(&out, UntypedFormatSpec(f),
                     absl::MakeConstSpan(reinterpret_cast<const FormatArg*>(v.data()), v.size()))) {
    out = "<bad format>";
  }
  return out;
}
template <absl::FormatConversionCharSet... C, typename... Args>
std::string StrFormat(
    const str_format_internal::ExtendedParsedFormat<C...>& format,
    const Args&... args) {
  return StrFormatTyped<Args...>(format, args...);
}
template <typename S, typename... Args>
bool Format(S* sink, absl::string_view format, const Args&... args) {
  std::string s = StrFormat(format, args...);
  if constexpr (requires { sink->Append(s); })
    sink->Append(s);
  else if constexpr (requires { sink->append(s); })
    sink->append(s);
  else
    *sink << s;
  return true;
}
}  // namespace absl
