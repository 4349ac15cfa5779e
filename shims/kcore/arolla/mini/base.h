// Minimal stand-in for the parts of arolla/util that /repo's C++ code uses.
#ifndef VERIF_MINI_AROLLA_BASE_H_
#define VERIF_MINI_AROLLA_BASE_H_
#include <any>
#include <atomic>
#include <cmath>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iterator>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>

#include "absl/base/attributes.h"
#include "absl/base/no_destructor.h"
#include "absl/base/nullability.h"
#include "absl/base/optimization.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/container/inlined_vector.h"
#include "absl/functional/function_ref.h"
#include "absl/hash/hash.h"
#include "absl/log/check.h"
#include "absl/log/log.h"
#include "absl/numeric/int128.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/strings/escaping.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "arolla/util/status_macros_backport.h"

namespace arolla {

template <typename T>
std::string TypeName() {
  return typeid(T).name();
}

// ---- meta -------------------------------------------------------------------
namespace meta {
template <typename T>
struct type_id {
  using type = T;
};
template <typename T>
using type = type_id<T>;
template <typename T>
constexpr type_id<T> type_of() { return {}; }

template <typename... Ts>
struct type_list {
  using tuple = std::tuple<Ts...>;
};
template <template <typename...> class TypeListTemplate, typename L>
struct is_wrapped_with : std::false_type {};
template <template <typename...> class W, typename... Ts>
struct is_wrapped_with<W, W<Ts...>> : std::true_type {};
template <template <typename...> class W, typename T>
inline constexpr bool is_wrapped_with_v = is_wrapped_with<W, T>::value;

template <template <typename...> class W, typename T>
struct strip_template {
  using type = T;
};
template <template <typename...> class W, typename T>
struct strip_template<W, W<T>> {
  using type = T;
};
template <template <typename...> class W, typename T>
using strip_template_t = typename strip_template<W, T>::type;

template <typename... Ls>
struct concat;
template <>
struct concat<> {
  using type = type_list<>;
};
template <typename... A>
struct concat<type_list<A...>> {
  using type = type_list<A...>;
};
template <typename... A, typename... B, typename... R>
struct concat<type_list<A...>, type_list<B...>, R...> {
  using type = typename concat<type_list<A..., B...>, R...>::type;
};
template <typename... Ls>
using concat_t = typename concat<Ls...>::type;

template <typename L, typename T>
struct contains;
template <typename... Ts, typename T>
struct contains<type_list<Ts...>, T>
    : std::bool_constant<(std::is_same_v<Ts, T> || ...)> {};
template <typename L, typename T>
inline constexpr bool contains_v = contains<L, T>::value;

template <typename... Ts, typename Fn>
constexpr void foreach_type(type_list<Ts...>, Fn fn) {
  (fn(type_id<Ts>()), ...);
}
template <typename L, typename Fn>
constexpr void foreach_type(Fn fn) {
  foreach_type(L(), fn);
}

template <template <typename> class Fn, typename L>
struct transform;
template <template <typename> class Fn, typename... Ts>
struct transform<Fn, type_list<Ts...>> {
  using type = type_list<typename Fn<Ts>::type...>;
};
template <typename L>
struct head;
template <typename T, typename... Ts>
struct head<type_list<T, Ts...>> {
  using type = T;
};
template <typename L>
using head_t = typename head<L>::type;
template <typename L>
struct tail;
template <typename T, typename... Ts>
struct tail<type_list<T, Ts...>> {
  using type = type_list<Ts...>;
};
template <typename L>
using tail_t = typename tail<L>::type;

template <typename Fn, typename = void>
struct function_traits;
template <typename C, typename R, typename... A>
struct function_traits<R (C::*)(A...) const> {
  using arg_types = type_list<A...>;
  using return_type = R;
};
template <typename C, typename R, typename... A>
struct function_traits<R (C::*)(A...)> {
  using arg_types = type_list<A...>;
  using return_type = R;
};
template <typename R, typename... A>
struct function_traits<R (*)(A...)> {
  using arg_types = type_list<A...>;
  using return_type = R;
};
template <typename Fn>
struct function_traits<Fn, std::void_t<decltype(&Fn::operator())>>
    : function_traits<decltype(&Fn::operator())> {};
}  // namespace meta

// ---- status -----------------------------------------------------------------
template <typename T>
struct IsStatusOrT : std::false_type {};
template <typename T>
struct IsStatusOrT<absl::StatusOr<T>> : std::true_type {};
template <typename T>
struct strip_statusor { using type = T; };
template <typename T>
struct strip_statusor<absl::StatusOr<T>> { using type = T; };
template <typename T>
using strip_statusor_t = typename strip_statusor<T>::type;

inline absl::Status SizeMismatchError(std::initializer_list<int64_t> sizes) {
  return absl::InvalidArgumentError(absl::StrCat(
      "argument sizes mismatch: (", absl::StrJoin(sizes, ", "), ")"));
}

namespace status_mini {
// Structured errors are kept in a side table keyed by the status payload.
struct StructuredError {
  std::any payload;
  std::optional<absl::Status> cause;
};
inline constexpr char kUrl[] = "verif/structured_error";
inline std::shared_ptr<const StructuredError>* Unwrap(const absl::Status& s) {
  auto p = s.GetPayload(absl::string_view(kUrl));
  if (!p.has_value()) return nullptr;
  std::string raw(*p);
  std::shared_ptr<const StructuredError>* res;
  std::memcpy(&res, raw.data(), sizeof(res));
  return res;
}
inline absl::Status Wrap(absl::Status s, StructuredError e) {
  // Intentionally leaked: statuses may be copied freely.
  auto* h = new std::shared_ptr<const StructuredError>(
      std::make_shared<const StructuredError>(std::move(e)));
  std::string raw(reinterpret_cast<const char*>(&h), sizeof(h));
  s.SetPayload(absl::string_view(kUrl), absl::Cord(raw));
  return s;
}
inline StructuredError Get(const absl::Status& s) {
  if (auto* p = Unwrap(s)) return **p;
  return {};
}
}  // namespace status_mini

template <typename P>
absl::Status WithPayload(absl::Status status, P payload) {
  auto e = status_mini::Get(status);
  e.payload = std::any(std::move(payload));
  return status_mini::Wrap(std::move(status), std::move(e));
}
inline absl::Status WithCause(absl::Status status, absl::Status cause) {
  auto e = status_mini::Get(status);
  e.cause = std::move(cause);
  return status_mini::Wrap(std::move(status), std::move(e));
}
inline absl::Status WithUpdatedMessage(const absl::Status& status,
                                       absl::string_view message) {
  if (status.ok()) return status;
  absl::Status r(status.code(), message);
  status.ForEachPayload([&](absl::string_view url, const absl::Cord& p) {
    r.SetPayload(url, p);
  });
  return r;
}
template <typename P>
const P* GetPayload(const absl::Status& status) {
  if (auto* p = status_mini::Unwrap(status)) {
    return std::any_cast<P>(&(*p)->payload);
  }
  return nullptr;
}
inline const absl::Status* GetCause(const absl::Status& status) {
  if (auto* p = status_mini::Unwrap(status)) {
    if ((*p)->cause.has_value()) return &*(*p)->cause;
  }
  return nullptr;
}
template <typename T>
absl::Status GetStatusOrOk(const absl::StatusOr<T>& v) { return v.status(); }
inline absl::Status GetStatusOrOk(const absl::Status& v) { return v; }
template <typename T>
absl::Status GetStatusOrOk(const T&) { return absl::OkStatus(); }
template <typename T>
bool IsOkStatus(const absl::StatusOr<T>& v) { return v.ok(); }
inline bool IsOkStatus(const absl::Status& v) { return v.ok(); }
template <typename T>
bool IsOkStatus(const T&) { return true; }
template <typename T>
decltype(auto) UnStatus(T&& v) {
  if constexpr (IsStatusOrT<std::decay_t<T>>::value) {
    return *std::forward<T>(v);
  } else {
    return std::forward<T>(v);
  }
}

// ---- cancellation, tracing --------------------------------------------------
namespace cancel_mini {
inline thread_local bool cancelled = false;
}
inline bool Cancelled() { return cancel_mini::cancelled; }
inline absl::Status CheckCancellation() {
  if (cancel_mini::cancelled) return absl::CancelledError("cancelled");
  return absl::OkStatus();
}
inline bool IsCancelled() { return cancel_mini::cancelled; }
inline absl::Status ShouldCancel() { return CheckCancellation(); }
namespace profiling {
class TraceMe {
 public:
  template <typename Fn>
  explicit TraceMe(const Fn&, int = 0) {}
};
}  // namespace profiling

// ---- hashing ----------------------------------------------------------------
// A 128-bit mixing function with the signature of CityHash.  The values differ
// from CityHash; nothing checked here depends on them.
inline uint64_t Mix64(uint64_t x) {
  x ^= x >> 30;
  x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27;
  x *= 0x94d049bb133111ebull;
  x ^= x >> 31;
  return x;
}
inline std::pair<uint64_t, uint64_t> CityHash128WithSeed(
    const void* data, size_t size, std::pair<uint64_t, uint64_t> seed) {
  const unsigned char* p = static_cast<const unsigned char*>(data);
  uint64_t a = seed.first ^ (0x9e3779b97f4a7c15ull * (size + 1));
  uint64_t b = seed.second + 0xc2b2ae3d27d4eb4full;
  while (size > 0) {
    uint64_t w = 0;
    size_t n = size < 8 ? size : 8;
    std::memcpy(&w, p, n);
    p += n;
    size -= n;
    a = Mix64(a ^ w) + b * 0x9fb21c651e98df25ull;
    b = Mix64(b + w * 0xd6e8feb86659fd93ull) ^ (a >> 7);
  }
  a = Mix64(a + b);
  b = Mix64(b ^ (a * 0xff51afd7ed558ccdull));
  return {a, b};
}
inline uint64_t CityHash64(const char* s, size_t n) {
  return CityHash128WithSeed(s, n, {1, 2}).first;
}
inline uint64_t CityHash64WithSeed(const char* s, size_t n, uint64_t seed) {
  return CityHash128WithSeed(s, n, {seed, 2}).first;
}

struct Fingerprint {
  absl::uint128 value;
  std::string AsString() const {
    return absl::StrFormat("%016x%016x", absl::Uint128High64(value),
                           absl::Uint128Low64(value));
  }
  ptrdiff_t PythonHash() const { return absl::Uint128Low64(value); }
  friend bool operator==(const Fingerprint& a, const Fingerprint& b) {
    return a.value == b.value;
  }
  friend bool operator!=(const Fingerprint& a, const Fingerprint& b) {
    return a.value != b.value;
  }
  friend bool operator<(const Fingerprint& a, const Fingerprint& b) {
    return a.value < b.value;
  }
  friend std::ostream& operator<<(std::ostream& o, const Fingerprint& f) {
    return o << f.AsString();
  }
  template <typename H>
  friend H AbslHashValue(H h, const Fingerprint& f) {
    return H::combine(std::move(h), absl::Uint128High64(f.value),
                      absl::Uint128Low64(f.value));
  }
};

template <typename T>
struct FingerprintHasherTraits {
  FingerprintHasherTraits() = delete;
};
class FingerprintHasher {
 public:
  explicit FingerprintHasher(absl::string_view salt)
      : state_{3102879407, 2758948377} {
    Combine(salt);
  }
  Fingerprint Finish() && {
    return Fingerprint{absl::MakeUint128(state_.second, state_.first)};
  }
  template <typename... Args>
  FingerprintHasher& Combine(const Args&... args) &;
  template <typename... Args>
  FingerprintHasher&& Combine(const Args&... args) && {
    Combine(args...);
    return std::move(*this);
  }
  template <typename T>
  FingerprintHasher& CombineSpan(absl::Span<T> values) & {
    Combine(values.size());
    for (const auto& v : values) Combine(v);
    return *this;
  }
  FingerprintHasher& CombineRawBytes(const void* data, size_t size) {
    state_ = CityHash128WithSeed(data, size, state_);
    return *this;
  }

 private:
  std::pair<uint64_t, uint64_t> state_;
};

// ---- Text, Bytes, Unit ------------------------------------------------------
class Text {
 public:
  static constexpr bool IsTrivialFingerprint = false;
  Text() = default;
  explicit Text(absl::string_view s) : data_(s) {}
  explicit Text(const char* s) : data_(s) {}
  explicit Text(std::string s) : data_(std::move(s)) {}
  Text& operator=(absl::string_view s) {
    data_.assign(s.data(), s.size());
    return *this;
  }
  absl::string_view view() const { return data_; }
  operator absl::string_view() const { return data_; }  // NOLINT
  template <typename T, typename = std::enable_if_t<
      std::is_same_v<T, std::string_view>>>
  operator T() const { return data_; }  // NOLINT
  friend bool operator==(const Text& a, const Text& b) {
    return a.data_ == b.data_;
  }
  friend bool operator==(const Text& a, absl::string_view b) {
    return absl::string_view(a.data_) == b;
  }
  friend bool operator==(const Text& a, const char* b) { return a.data_ == b; }
  friend bool operator!=(const Text& a, const Text& b) { return !(a == b); }
  friend bool operator<(const Text& a, const Text& b) {
    return a.data_ < b.data_;
  }
  friend bool operator<(const Text& a, absl::string_view b) {
    return absl::string_view(a.data_) < b;
  }
  friend bool operator<=(const Text& a, const Text& b) {
    return a.data_ <= b.data_;
  }
  friend bool operator>(const Text& a, const Text& b) {
    return a.data_ > b.data_;
  }
  friend bool operator>=(const Text& a, const Text& b) {
    return a.data_ >= b.data_;
  }
  template <typename H>
  friend H AbslHashValue(H h, const Text& t) {
    return H::combine(std::move(h), t.data_);
  }
  friend std::ostream& operator<<(std::ostream& o, const Text& t) {
    return o << "Text{" << t.data_ << "}";
  }
  void ArollaFingerprint(FingerprintHasher* hasher) const {
    hasher->Combine(absl::string_view("arolla::Text"), absl::string_view(data_));
  }

 private:
  std::string data_;
};
using Bytes = std::string;

struct Unit {
  constexpr bool operator==(const Unit&) const { return true; }
  constexpr bool operator!=(const Unit&) const { return false; }
  constexpr bool operator<(const Unit&) const { return false; }
  constexpr bool operator<=(const Unit&) const { return true; }
  constexpr bool operator>(const Unit&) const { return false; }
  constexpr bool operator>=(const Unit&) const { return true; }
  template <typename H>
  friend H AbslHashValue(H h, const Unit&) {
    return H::combine(std::move(h), 1);
  }
  void ArollaFingerprint(FingerprintHasher* hasher) const {
    hasher->Combine(absl::string_view("::arolla::Unit"));
  }
};
inline constexpr Unit kUnit{};
inline std::ostream& operator<<(std::ostream& o, const Unit&) {
  return o << "unit";
}

template <typename T>
struct HasArollaFingerprint {
  template <typename U>
  static auto test(int) -> decltype(
      std::declval<const U&>().ArollaFingerprint(
          static_cast<FingerprintHasher*>(nullptr)), std::true_type());
  template <typename>
  static std::false_type test(...);
  static constexpr bool value = decltype(test<T>(0))::value;
};

template <typename... Args>
FingerprintHasher& FingerprintHasher::Combine(const Args&... args) & {
  auto combine = [this](const auto& arg) {
    using Arg = std::decay_t<decltype(arg)>;
    if constexpr (HasArollaFingerprint<Arg>::value) {
      arg.ArollaFingerprint(this);
    } else if constexpr (std::is_default_constructible_v<
                             FingerprintHasherTraits<Arg>>) {
      FingerprintHasherTraits<Arg>()(this, arg);
    } else if constexpr (std::is_convertible_v<Arg, absl::string_view>) {
      absl::string_view v = arg;
      size_t n = v.size();
      CombineRawBytes(&n, sizeof(n)).CombineRawBytes(v.data(), v.size());
    } else if constexpr (std::is_same_v<Arg, Fingerprint>) {
      CombineRawBytes(&arg.value, sizeof(arg.value));
    } else if constexpr (std::is_floating_point_v<Arg> ||
                         std::is_integral_v<Arg> || std::is_enum_v<Arg> ||
                         std::is_pointer_v<Arg>) {
      CombineRawBytes(&arg, sizeof(arg));
    } else if constexpr (std::is_trivially_copyable_v<Arg>) {
      CombineRawBytes(&arg, sizeof(arg));
    } else {
      static_assert(sizeof(Arg) == 0, "unsupported fingerprint type");
    }
  };
  (combine(args), ...);
  return *this;
}

inline Fingerprint FingerprintOfString(absl::string_view s) {
  return FingerprintHasher("FingerprintOfString").Combine(s).Finish();
}

template <typename A, typename B>
struct FingerprintHasherTraits<std::pair<A, B>> {
  void operator()(FingerprintHasher* h, const std::pair<A, B>& v) const {
    h->Combine(v.first, v.second);
  }
};
template <typename T>
struct FingerprintHasherTraits<std::vector<T>> {
  void operator()(FingerprintHasher* h, const std::vector<T>& v) const {
    h->Combine(v.size());
    for (const auto& x : v) h->Combine(x);
  }
};

// ---- view types -------------------------------------------------------------
template <typename T>
struct view_type { using type = T; };
template <>
struct view_type<Text> { using type = absl::string_view; };
template <>
struct view_type<Bytes> { using type = absl::string_view; };
template <typename T>
using view_type_t = typename view_type<T>::type;

// ---- repr -------------------------------------------------------------------
struct ReprToken {
  struct Precedence {
    int8_t left = -1;
    int8_t right = -1;
  };
  static constexpr Precedence kHighest{-1, -1};
  static constexpr Precedence kSafeForSubscription{0, 0};
  static constexpr Precedence kSafeForNegation{0, 0};
  static constexpr Precedence kSafeForArithmetic{1, 1};
  static constexpr Precedence kOpSubscription{0, -1};
  std::string str;
  Precedence precedence = kHighest;
  ReprToken() = default;
  ReprToken(std::string s) : str(std::move(s)) {}  // NOLINT
  ReprToken(const char* s) : str(s) {}             // NOLINT
  ReprToken(std::string s, Precedence p) : str(std::move(s)), precedence(p) {}
  friend bool operator==(const ReprToken& a, const ReprToken& b) {
    return a.str == b.str;
  }
};
template <typename T, typename = void>
struct ReprTraits {};
#define AROLLA_DECLARE_REPR(...)                        \
  template <>                                           \
  struct ReprTraits<__VA_ARGS__> {                      \
    ReprToken operator()(const __VA_ARGS__& value) const; \
  }
template <>
struct ReprTraits<Unit> {
  ReprToken operator()(const Unit&) const { return ReprToken("unit"); }
};
template <>
struct ReprTraits<bool> {
  ReprToken operator()(bool v) const { return ReprToken(v ? "true" : "false"); }
};
template <>
struct ReprTraits<int32_t> {
  ReprToken operator()(int32_t v) const { return ReprToken(absl::StrCat(v)); }
};
template <>
struct ReprTraits<int64_t> {
  ReprToken operator()(int64_t v) const {
    return ReprToken(absl::StrCat("int64{", v, "}"));
  }
};
template <>
struct ReprTraits<uint64_t> {
  ReprToken operator()(uint64_t v) const {
    return ReprToken(absl::StrCat("uint64{", v, "}"));
  }
};
// Shortest decimal representation that round-trips.
std::string ShortestFloat(float v);
std::string ShortestDouble(double v);
template <>
struct ReprTraits<float> {
  ReprToken operator()(float v) const {
    std::string s = ShortestFloat(v);
    if (s.find_first_not_of("-0123456789") == std::string::npos) s += ".";
    return ReprToken(s);
  }
};
template <>
struct ReprTraits<double> {
  ReprToken operator()(double v) const {
    return ReprToken("float64{" + ShortestDouble(v) + "}");
  }
};
template <>
struct ReprTraits<Text> {
  ReprToken operator()(const Text& v) const {
    return ReprToken("'" + absl::Utf8SafeCHexEscape(v.view()) + "'");
  }
};
template <>
struct ReprTraits<Bytes> {
  ReprToken operator()(const Bytes& v) const {
    return ReprToken("b'" + absl::CHexEscape(v) + "'");
  }
};
template <typename T>
ReprToken GenReprToken(const T& v) {
  return ReprTraits<T>()(v);
}
template <typename T>
std::string Repr(const T& v) {
  return GenReprToken(v).str;
}
inline std::string Truncate(std::string s, size_t max_length) {
  if (s.size() > max_length) {
    s.resize(max_length - 3);
    s += "...";
  }
  return s;
}

// ---- refcounting ------------------------------------------------------------
class Refcount {
 public:
  constexpr Refcount() noexcept : count_{1} {}
  struct TestOnly {};
  Refcount(TestOnly, int v) : count_(v) {}
  void increment() noexcept { count_.fetch_add(1, std::memory_order_relaxed); }
  bool decrement() noexcept {
    return count_.fetch_sub(1, std::memory_order_acq_rel) != 1;
  }

 private:
  std::atomic<int32_t> count_;
};
class RefcountedBase {
 public:
  RefcountedBase() = default;
  RefcountedBase(const RefcountedBase&) = delete;
  RefcountedBase& operator=(const RefcountedBase&) = delete;

 private:
  mutable std::atomic<int32_t> refcount_{0};
  template <typename T>
  friend class RefcountPtr;
};
template <typename T>
class RefcountPtr {
 public:
  template <typename... Args>
  static RefcountPtr Make(Args&&... args) {
    return RefcountPtr(new std::remove_const_t<T>(std::forward<Args>(args)...));
  }
  static RefcountPtr Own(std::unique_ptr<T>&& p) {
    return RefcountPtr(p.release());
  }
  static RefcountPtr NewRef(T* p) { return RefcountPtr(p); }
  RefcountPtr() = default;
  RefcountPtr(std::nullptr_t) {}  // NOLINT
  RefcountPtr(const RefcountPtr& o) : p_(o.p_) { inc(); }
  RefcountPtr(RefcountPtr&& o) noexcept : p_(std::exchange(o.p_, nullptr)) {}
  template <typename U, typename = std::enable_if_t<
      std::is_convertible_v<U*, T*> && !std::is_same_v<U, T>>>
  RefcountPtr(const RefcountPtr<U>& o) : p_(o.get()) { inc(); }  // NOLINT
  template <typename U, typename = std::enable_if_t<
      std::is_convertible_v<U*, T*> && !std::is_same_v<U, T>>>
  RefcountPtr(RefcountPtr<U>&& o) : p_(o.release()) {}  // NOLINT
  RefcountPtr& operator=(RefcountPtr o) noexcept {
    std::swap(p_, o.p_);
    return *this;
  }
  ~RefcountPtr() { dec(); }
  void reset() noexcept {
    dec();
    p_ = nullptr;
  }
  T* release() { return std::exchange(p_, nullptr); }
  T* get() const { return p_; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(const RefcountPtr& a, const RefcountPtr& b) {
    return a.p_ == b.p_;
  }
  friend bool operator!=(const RefcountPtr& a, const RefcountPtr& b) {
    return a.p_ != b.p_;
  }
  friend bool operator==(const RefcountPtr& a, std::nullptr_t) {
    return a.p_ == nullptr;
  }
  friend bool operator!=(const RefcountPtr& a, std::nullptr_t) {
    return a.p_ != nullptr;
  }
  friend bool operator==(const RefcountPtr& a, const T* b) { return a.p_ == b; }
  friend bool operator!=(const RefcountPtr& a, const T* b) { return a.p_ != b; }
  template <typename H>
  friend H AbslHashValue(H h, const RefcountPtr& p) {
    return H::combine(std::move(h), p.p_);
  }
  friend std::ostream& operator<<(std::ostream& o, const RefcountPtr& p) {
    return o << p.p_;
  }

 private:
  explicit RefcountPtr(T* p) : p_(p) { inc(); }
  void inc() {
    if (p_) p_->refcount_.fetch_add(1, std::memory_order_relaxed);
  }
  void dec() {
    if (p_ && p_->refcount_.fetch_sub(1, std::memory_order_acq_rel) == 1) {
      delete p_;
    }
  }
  T* p_ = nullptr;
};

// ---- iterator ---------------------------------------------------------------
template <typename Array>
class ConstArrayIterator {
 public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = std::decay_t<decltype(
      std::declval<const Array&>()[int64_t{0}])>;
  using pointer = const value_type*;
  using reference = decltype(std::declval<const Array&>()[int64_t{0}]);
  using difference_type = int64_t;
  using size_type = int64_t;
  ConstArrayIterator() : a_(nullptr), i_(0) {}
  ConstArrayIterator(const Array* a, int64_t i) : a_(a), i_(i) {}
  reference operator*() const { return (*a_)[i_]; }
  reference operator[](int64_t d) const { return (*a_)[i_ + d]; }
  ConstArrayIterator& operator++() { ++i_; return *this; }
  ConstArrayIterator operator++(int) { auto t = *this; ++i_; return t; }
  ConstArrayIterator& operator--() { --i_; return *this; }
  ConstArrayIterator operator--(int) { auto t = *this; --i_; return t; }
  ConstArrayIterator& operator+=(int64_t d) { i_ += d; return *this; }
  ConstArrayIterator& operator-=(int64_t d) { i_ -= d; return *this; }
  friend ConstArrayIterator operator+(ConstArrayIterator x, int64_t d) {
    return x += d;
  }
  friend ConstArrayIterator operator+(int64_t d, ConstArrayIterator x) {
    return x += d;
  }
  friend ConstArrayIterator operator-(ConstArrayIterator x, int64_t d) {
    return x -= d;
  }
  friend difference_type operator-(const ConstArrayIterator& x,
                                   const ConstArrayIterator& y) {
    return x.i_ - y.i_;
  }
  friend bool operator==(const ConstArrayIterator& x,
                         const ConstArrayIterator& y) { return x.i_ == y.i_; }
  friend bool operator!=(const ConstArrayIterator& x,
                         const ConstArrayIterator& y) { return x.i_ != y.i_; }
  friend bool operator<(const ConstArrayIterator& x,
                        const ConstArrayIterator& y) { return x.i_ < y.i_; }
  friend bool operator>(const ConstArrayIterator& x,
                        const ConstArrayIterator& y) { return x.i_ > y.i_; }
  friend bool operator<=(const ConstArrayIterator& x,
                         const ConstArrayIterator& y) { return x.i_ <= y.i_; }
  friend bool operator>=(const ConstArrayIterator& x,
                         const ConstArrayIterator& y) { return x.i_ >= y.i_; }

 private:
  const Array* a_;
  int64_t i_;
};

}  // namespace arolla
#endif
