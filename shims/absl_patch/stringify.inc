// AbslStringify support for an absl that predates it.
namespace absl {
namespace verif_stringify {
class Sink {
 public:
  void Append(size_t n, char c) { s.append(n, c); }
  void Append(absl::string_view v) { s.append(v.data(), v.size()); }
  friend void AbslFormatFlush(Sink* k, absl::string_view v) { k->Append(v); }
  std::string s;
};
template <typename T, typename = void>
struct Has : std::false_type {};
template <typename T>
struct Has<T, std::enable_if_t<std::is_void<decltype(AbslStringify(
                  std::declval<Sink&>(), std::declval<const T&>()))>::value>>
    : std::true_type {};
template <typename T>
std::string ToString(const T& v) {
  Sink k;
  AbslStringify(k, v);
  return std::move(k.s);
}
}  // namespace verif_stringify
}  // namespace absl
