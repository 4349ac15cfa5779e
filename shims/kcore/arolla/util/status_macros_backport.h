// Stand-in for arolla's status macros.
#ifndef VERIF_SHIM_STATUS_MACROS_H_
#define VERIF_SHIM_STATUS_MACROS_H_
#include <sstream>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace absl {
// References in StatusOr, which newer absl supports.
template <typename T>
class StatusOr<T&> {
 public:
  StatusOr(T& v) : p_(&v) {}                              // NOLINT
  StatusOr(Status s) : s_(std::move(s)) {}                // NOLINT
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  T& value() const { return *p_; }

 private:
  Status s_;
  T* p_ = nullptr;
};
}  // namespace absl
namespace verif_status {
class Builder {
 public:
  explicit Builder(absl::Status s) : s_(std::move(s)) {}
  template <typename T>
  Builder& operator<<(const T& v) & {
    std::ostringstream o;
    o << v;
    extra_ += o.str();
    return *this;
  }
  template <typename T>
  Builder&& operator<<(const T& v) && {
    *this << v;
    return std::move(*this);
  }
  Builder& SetPrepend() & { prepend_ = true; return *this; }
  Builder&& SetPrepend() && { prepend_ = true; return std::move(*this); }
  template <typename Fn>
  auto With(Fn&& fn) && { return std::forward<Fn>(fn)(Done()); }
  template <typename Fn>
  auto With(Fn&& fn) & { return std::forward<Fn>(fn)(Done()); }
  operator absl::Status() const { return Done(); }  // NOLINT
  template <typename T>
  operator absl::StatusOr<T>() const { return Done(); }  // NOLINT

 private:
  absl::Status Done() const {
    if (extra_.empty()) return s_;
    std::string m(s_.message());
    m = m.empty() ? extra_ : prepend_ ? extra_ + m : m + "; " + extra_;
    absl::Status r(s_.code(), m);
    s_.ForEachPayload([&](absl::string_view url, const absl::Cord& p) {
      r.SetPayload(url, p);
    });
    return r;
  }
  absl::Status s_;
  std::string extra_;
  bool prepend_ = false;
};
inline absl::Status AsStatus(absl::Status s) { return s; }
template <typename T>
absl::Status AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace verif_status
#define RETURN_IF_ERROR(expr)                                                \
  if (::absl::Status verif_status_ = ::verif_status::AsStatus((expr));       \
      verif_status_.ok()) {                                                  \
  } else /* NOLINT */                                                        \
    return ::verif_status::Builder(std::move(verif_status_))
#define VERIF_CONCAT2(a, b) a##b
#define VERIF_CONCAT(a, b) VERIF_CONCAT2(a, b)
#define VERIF_GET_4TH(a, b, c, d, ...) d
#define ASSIGN_OR_RETURN(...)                                           \
  VERIF_GET_4TH(__VA_ARGS__, VERIF_ASSIGN3, VERIF_ASSIGN2, VERIF_BAD)   \
  (__VA_ARGS__)
#define VERIF_ASSIGN2(lhs, expr) \
  VERIF_ASSIGN_OR_RETURN(VERIF_CONCAT(verif_or_, __LINE__), lhs, expr, \
                         ::absl::Status(_))
#define VERIF_ASSIGN3(lhs, expr, err) \
  VERIF_ASSIGN_OR_RETURN(VERIF_CONCAT(verif_or_, __LINE__), lhs, expr, err)
#define VERIF_UNPAREN(...) __VA_ARGS__
#define VERIF_STRIP(X) VERIF_STRIP_I(VERIF_ISH X)
#define VERIF_ISH(...) VERIF_ISH __VA_ARGS__
#define VERIF_STRIP_I(...) VERIF_STRIP_II(__VA_ARGS__)
#define VERIF_STRIP_II(...) VERIF_VAN##__VA_ARGS__
#define VERIF_VANVERIF_ISH
#define VERIF_ASSIGN_OR_RETURN(tmp, lhs, expr, err)              \
  auto tmp = (expr);                                             \
  if (!tmp.ok()) {                                               \
    [[maybe_unused]] ::verif_status::Builder _(tmp.status());    \
    return (err);                                                \
  }                                                              \
  VERIF_STRIP(lhs) = *std::move(tmp)
#endif
