#ifndef VERIF_MINI_AROLLA_QTYPE_H_
#define VERIF_MINI_AROLLA_QTYPE_H_
#include <map>
#include <mutex>
#include "arolla/mini/optional.h"

namespace arolla {

class QType;
class TypedRef;
using QTypePtr = const QType*;
struct ReprToken;
class QType {
 public:
  QType(meta::type<void>, const std::string& name) = delete;
  template <typename T>
  QType(meta::type<T>, absl::string_view name)
      : name_(name), ti_(&typeid(T)), value_qtype_(nullptr), size_(sizeof(T)) {
    SetOps<T>();
  }
  QType(std::string name, const std::type_info& ti, const QType* value_qtype,
        size_t size)
      : name_(std::move(name)), ti_(&ti), value_qtype_(value_qtype),
        size_(size) {}
  virtual ~QType() = default;
  absl::string_view name() const { return name_; }
  const std::type_info& type_info() const { return *ti_; }
  const QType* value_qtype() const { return value_qtype_; }
  size_t alloc_size() const { return size_; }
  template <typename T>
  const QType* SetOps() {
    if constexpr (std::is_copy_constructible_v<T>) {
      copy_ = [](const void* p) -> std::shared_ptr<void> {
        return std::make_shared<T>(*static_cast<const T*>(p));
      };
    }
    if constexpr (requires(const T& x) { ReprTraits<T>()(x); }) {
      repr_ = [](const void* p) {
        return ReprTraits<T>()(*static_cast<const T*>(p)).str;
      };
    }
    if constexpr (HasArollaFingerprint<T>::value ||
                  std::is_default_constructible_v<FingerprintHasherTraits<T>>) {
      fingerprint_ = [](const void* p, FingerprintHasher* h) {
        h->Combine(*static_cast<const T*>(p));
      };
    }
    return this;
  }
  std::shared_ptr<void> Copy(const void* p) const { return copy_(p); }
  virtual ReprToken UnsafeReprToken(const void* p) const;
  // Fields of tuple types.
  struct FieldType {
    const QType* t;
    const QType* GetType() const { return t; }
  };
  virtual const std::vector<FieldType>& type_fields() const {
    static const auto* e = new std::vector<FieldType>();
    return *e;
  }
  // Fields of tuple values.
  virtual int64_t UnsafeFieldCount(const void*) const { return 0; }
  virtual TypedRef UnsafeField(const void* p, int64_t i) const;
  virtual absl::string_view UnsafePyQValueSpecializationKey(
      const void*) const {
    return "";
  }
  void UnsafeCombine(const void* p, FingerprintHasher* h) const {
    h->Combine(absl::string_view(name_));
    if (fingerprint_) fingerprint_(p, h);
  }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(this); }
  bool has_fingerprint() const { return fingerprint_ != nullptr; }
  std::string qtype_specialization_key() const { return ""; }
  absl::Span<const std::byte> dummy() const { return {}; }

 private:
  std::string name_;
  const std::type_info* ti_;
  const QType* value_qtype_;
  size_t size_;

 protected:
  void Rename(std::string n) { name_ = std::move(n); }
  std::shared_ptr<void> (*copy_)(const void*) = nullptr;
  std::string (*repr_)(const void*) = nullptr;
  void (*fingerprint_)(const void*, FingerprintHasher*) = nullptr;
};
using SimpleQType = QType;

template <typename T>
struct QTypeTraits;
template <typename T, typename = void>
struct has_qtype_traits : std::false_type {};
template <typename T>
struct has_qtype_traits<T, std::void_t<decltype(QTypeTraits<T>::type())>>
    : std::true_type {};
template <typename T>
inline constexpr bool has_qtype_traits_v = has_qtype_traits<T>::value;

template <typename T>
QTypePtr GetQType() {
  return QTypeTraits<T>::type();
}
struct NothingTag {};
inline ReprToken QType::UnsafeReprToken(const void* p) const {
  return ReprToken(repr_ ? repr_(p) : name_);
}
template <typename T>
QTypePtr MakeQType(std::string name, QTypePtr value_qtype = nullptr) {
  return (new QType(std::move(name), typeid(T), value_qtype, sizeof(T)))
      ->template SetOps<T>();
}
inline QTypePtr GetNothingQType() {
  static const QType* r = new QType("NOTHING", typeid(NothingTag), nullptr, 0);
  return r;
}

#define AROLLA_DECLARE_SIMPLE_QTYPE(NAME, ...) \
  template <>                                  \
  struct QTypeTraits<__VA_ARGS__> {            \
    static QTypePtr type();                    \
  }
#define AROLLA_DEFINE_SIMPLE_QTYPE(NAME, ...)                              \
  QTypePtr QTypeTraits<__VA_ARGS__>::type() {                              \
    static const QType* r =                                                \
        MakeQType<__VA_ARGS__>(#NAME); \
    return r;                                                              \
  }                                                                        \
  static_assert(true)
#define AROLLA_DECLARE_QTYPE(...)   \
  template <>                       \
  struct QTypeTraits<__VA_ARGS__> { \
    static QTypePtr type();         \
  }
#define AROLLA_DECLARE_OPTIONAL_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DEFINE_OPTIONAL_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DECLARE_DENSE_ARRAY_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DEFINE_DENSE_ARRAY_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(...)                      \
  template <>                                                              \
  struct FingerprintHasherTraits<__VA_ARGS__> {                            \
    void operator()(FingerprintHasher* hasher, const __VA_ARGS__& value) const; \
  }

#define VERIF_BASE_QTYPE(NAME, ...)                                        \
  template <>                                                              \
  struct QTypeTraits<__VA_ARGS__> {                                        \
    static QTypePtr type() {                                               \
      static const QType* r = MakeQType<__VA_ARGS__>(#NAME); \
      return r;                                                            \
    }                                                                      \
  }
VERIF_BASE_QTYPE(INT32, int32_t);
VERIF_BASE_QTYPE(INT64, int64_t);
VERIF_BASE_QTYPE(UINT64, uint64_t);
VERIF_BASE_QTYPE(FLOAT32, float);
VERIF_BASE_QTYPE(FLOAT64, double);
VERIF_BASE_QTYPE(WEAK_FLOAT, long double);
VERIF_BASE_QTYPE(BOOLEAN, bool);
VERIF_BASE_QTYPE(UNIT, Unit);
VERIF_BASE_QTYPE(TEXT, Text);
VERIF_BASE_QTYPE(BYTES, Bytes);

template <typename T>
struct QTypeTraits<OptionalValue<T>> {
  static QTypePtr type() {
    static const QType* r =
        MakeQType<OptionalValue<T>>(
            "OPTIONAL_" + std::string(GetQType<T>()->name()), GetQType<T>());
    return r;
  }
};
template <typename T>
QTypePtr GetOptionalQType() {
  return GetQType<OptionalValue<T>>();
}
inline bool IsScalarQType(QTypePtr t) { return t && !t->value_qtype(); }

class TypedRef {
 public:
  TypedRef(QTypePtr t, const void* p) : qtype_(t), p_(p) {}
  template <typename T>
  static TypedRef FromValue(const T& v) {
    return TypedRef(GetQType<T>(), &v);
  }
  static TypedRef UnsafeFromRawPointer(QTypePtr t, const void* p) {
    return TypedRef(t, p);
  }
  QTypePtr GetType() const { return qtype_; }
  const void* GetRawPointer() const { return p_; }
  std::string Repr() const { return qtype_->UnsafeReprToken(p_).str; }
  int64_t GetFieldCount() const { return qtype_->UnsafeFieldCount(p_); }
  TypedRef GetField(int64_t i) const { return qtype_->UnsafeField(p_, i); }
  template <typename T>
  const T& UnsafeAs() const {
    return *static_cast<const T*>(p_);
  }
  template <typename T>
  absl::StatusOr<std::reference_wrapper<const T>> As() const {
    if (qtype_->type_info() != typeid(T)) {
      return absl::FailedPreconditionError("type mismatch");
    }
    return std::cref(UnsafeAs<T>());
  }

 private:
  QTypePtr qtype_;
  const void* p_;
};
inline TypedRef QType::UnsafeField(const void* p, int64_t) const {
  return TypedRef(this, p);
}
class TypedValue {
 public:
  int64_t GetFieldCount() const { return AsRef().GetFieldCount(); }
  TypedRef GetField(int64_t i) const { return AsRef().GetField(i); }
  explicit TypedValue(TypedRef r)
      : qtype_(r.GetType()), data_(qtype_->Copy(r.GetRawPointer())) {}
  template <typename T>
  static TypedValue FromValue(T v) {
    using D = std::decay_t<T>;
    return TypedValue(GetQType<D>(), std::make_shared<D>(std::move(v)));
  }
  template <typename T>
  static absl::StatusOr<TypedValue> FromValueWithQType(T v, QTypePtr t) {
    return TypedValue(t, std::make_shared<std::decay_t<T>>(std::move(v)));
  }
  static TypedValue UnsafeFromShared(QTypePtr t, std::shared_ptr<void> p) {
    return TypedValue(t, std::move(p));
  }
  std::string Repr() const { return AsRef().Repr(); }
  Fingerprint GetFingerprint() const {
    FingerprintHasher h("TypedValue");
    qtype_->UnsafeCombine(data_.get(), &h);
    return std::move(h).Finish();
  }
  template <typename T>
  static TypedValue UnsafeFromTypeDefaultConstructed(QTypePtr t) {
    return TypedValue(t, std::make_shared<T>());
  }
  QTypePtr GetType() const { return qtype_; }
  const void* GetRawPointer() const { return data_.get(); }
  template <typename T>
  const T& UnsafeAs() const {
    return *static_cast<const T*>(data_.get());
  }
  template <typename T>
  absl::StatusOr<std::reference_wrapper<const T>> As() const {
    return AsRef().As<T>();
  }
  TypedRef AsRef() const { return TypedRef(qtype_, data_.get()); }
  absl::string_view PyQValueSpecializationKey() const {
    return qtype_->UnsafePyQValueSpecializationKey(data_.get());
  }

 private:
  TypedValue(QTypePtr t, std::shared_ptr<void> p)
      : qtype_(t), data_(std::move(p)) {}
  QTypePtr qtype_;
  std::shared_ptr<void> data_;
};
template <>
struct ReprTraits<TypedValue> {
  ReprToken operator()(const TypedValue& v) const {
    return ReprToken(v.Repr());
  }
};
// Tuples are vectors of typed values; the qtype is interned by field types.
struct MiniTuple {
  std::vector<TypedValue> fields;
};
class TupleQType : public QType {
 public:
  TupleQType(std::string name, std::vector<QTypePtr> f)
      : QType(std::move(name), typeid(MiniTuple), nullptr, sizeof(MiniTuple)),
        fields_(std::move(f)) {
    SetOps<MiniTuple>();
    for (QTypePtr t : fields_) type_fields_.push_back({t});
  }
  const std::vector<FieldType>& type_fields() const override {
    return type_fields_;
  }
  const std::vector<QTypePtr>& field_types() const { return fields_; }
  int64_t UnsafeFieldCount(const void*) const override {
    return fields_.size();
  }
  TypedRef UnsafeField(const void* p, int64_t i) const override {
    return static_cast<const MiniTuple*>(p)->fields.at(i).AsRef();
  }

 private:
  std::vector<QTypePtr> fields_;
  std::vector<FieldType> type_fields_;
};
inline QTypePtr MakeTupleQType(absl::Span<const QTypePtr> f) {
  static std::mutex mu;
  static auto* cache = new std::map<std::vector<QTypePtr>, QTypePtr>();
  std::lock_guard l(mu);
  std::vector<QTypePtr> key(f.begin(), f.end());
  QTypePtr& r = (*cache)[key];
  if (r == nullptr) {
    std::string name = "tuple<";
    for (size_t i = 0; i < f.size(); ++i) {
      if (i) name += ",";
      name += std::string(f[i]->name());
    }
    r = new TupleQType(name + ">", key);
  }
  return r;
}
inline bool IsTupleQType(QTypePtr t) {
  return t != nullptr && typeid(*t) == typeid(TupleQType);
}
class NamedTupleQType : public TupleQType {
 public:
  NamedTupleQType(std::string name, std::vector<QTypePtr> f,
                  std::vector<std::string> names)
      : TupleQType(std::move(name), std::move(f)), names_(std::move(names)) {}
  const std::vector<std::string>& field_names() const { return names_; }

 private:
  std::vector<std::string> names_;
};
inline bool IsNamedTupleQType(QTypePtr t) {
  return dynamic_cast<const NamedTupleQType*>(t) != nullptr;
}
inline absl::Span<const std::string> GetFieldNames(QTypePtr t) {
  auto* n = dynamic_cast<const NamedTupleQType*>(t);
  if (n == nullptr) return {};
  return n->field_names();
}
inline QTypePtr MakeNamedTupleQTypeOf(absl::Span<const std::string> names,
                                      absl::Span<const QTypePtr> f) {
  static std::mutex mu;
  static auto* cache =
      new std::map<std::pair<std::vector<std::string>, std::vector<QTypePtr>>,
                   QTypePtr>();
  std::lock_guard l(mu);
  std::vector<std::string> n(names.begin(), names.end());
  std::vector<QTypePtr> key(f.begin(), f.end());
  QTypePtr& r = (*cache)[{n, key}];
  if (r == nullptr) {
    std::string name = "namedtuple<";
    for (size_t i = 0; i < f.size(); ++i) {
      if (i) name += ",";
      name += n[i] + "=" + std::string(f[i]->name());
    }
    r = new NamedTupleQType(name + ">", key, n);
  }
  return r;
}
inline TypedValue MakeTuple(absl::Span<const TypedRef> f) {
  auto v = std::make_shared<MiniTuple>();
  std::vector<QTypePtr> t;
  for (const auto& x : f) {
    v->fields.push_back(TypedValue(x));
    t.push_back(x.GetType());
  }
  return TypedValue::UnsafeFromShared(MakeTupleQType(t), std::move(v));
}
inline TypedValue MakeTuple(absl::Span<const TypedValue> f) {
  std::vector<TypedRef> r;
  for (const auto& x : f) r.push_back(x.AsRef());
  return MakeTuple(absl::MakeConstSpan(r));
}
template <typename... Ts>
TypedValue MakeTupleFromFields(const Ts&... f) {
  std::vector<TypedValue> r;
  auto add = [&](const auto& x) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, TypedValue>) {
      r.push_back(x);
    } else if constexpr (std::is_same_v<T, TypedRef>) {
      r.push_back(TypedValue(x));
    } else {
      r.push_back(TypedValue::FromValue(x));
    }
  };
  (add(f), ...);
  return MakeTuple(absl::MakeConstSpan(r));
}
inline absl::StatusOr<TypedValue> MakeNamedTuple(
    absl::Span<const std::string> names, absl::Span<const TypedRef> f) {
  if (names.size() != f.size()) {
    return absl::InvalidArgumentError("incorrect number of field names");
  }
  auto v = std::make_shared<MiniTuple>();
  std::vector<QTypePtr> t;
  for (const auto& x : f) {
    v->fields.push_back(TypedValue(x));
    t.push_back(x.GetType());
  }
  return TypedValue::UnsafeFromShared(MakeNamedTupleQTypeOf(names, t),
                                      std::move(v));
}
inline absl::StatusOr<TypedValue> MakeNamedTuple(
    absl::Span<const std::string> names, absl::Span<const TypedValue> f) {
  std::vector<TypedRef> r;
  for (const auto& x : f) r.push_back(x.AsRef());
  return MakeNamedTuple(names, absl::MakeConstSpan(r));
}
// A qtype with the representation of another one.
class BasicDerivedQType : public QType {
 public:
  struct ConstructorArgs {
    std::string name;
    QTypePtr base_qtype;
    QTypePtr value_qtype = nullptr;
    std::string qtype_specialization_key;
  };
  explicit BasicDerivedQType(ConstructorArgs a)
      : QType(*a.base_qtype), base_(a.base_qtype) {
    Rename(a.name);
  }
  QTypePtr GetBaseQType() const { return base_; }

 private:
  QTypePtr base_;
};

// ---- expr -------------------------------------------------------------------
namespace expr {
// An expression is modelled by its text.
struct ExprNode : public RefcountedBase {
  std::string text;
  explicit ExprNode(std::string t) : text(std::move(t)) {}
  Fingerprint fingerprint() const {
    return FingerprintHasher("expr").Combine(text).Finish();
  }
};
using ExprNodePtr = RefcountPtr<const ExprNode>;
inline ExprNodePtr Leaf(absl::string_view s) {
  return RefcountPtr<const ExprNode>::Make("L." + std::string(s));
}
inline ExprNodePtr Placeholder(absl::string_view s) {
  return RefcountPtr<const ExprNode>::Make("P." + std::string(s));
}
template <typename T>
ExprNodePtr Literal(const T& v) {
  return RefcountPtr<const ExprNode>::Make(Repr(v));
}
inline std::string ToDebugString(const ExprNodePtr& n) { return n->text; }

class ExprQuote {
 public:
  ExprQuote() = default;
  explicit ExprQuote(ExprNodePtr e) : e_(std::move(e)) {}
  bool has_expr() const { return e_ != nullptr; }
  absl::StatusOr<ExprNodePtr> expr() const {
    if (e_ == nullptr) {
      return absl::InvalidArgumentError("uninitialized ExprQuote");
    }
    return e_;
  }
  const RefcountPtr<const ExprNode>* operator->() const { return &e_; }
  const RefcountPtr<const ExprNode>& operator*() const { return e_; }
  Fingerprint expr_fingerprint() const {
    if (e_ == nullptr) return Fingerprint{absl::MakeUint128(77, 99)};
    return e_->fingerprint();
  }
  friend bool operator==(const ExprQuote& a, const ExprQuote& b) {
    return a.expr_fingerprint() == b.expr_fingerprint();
  }
  friend bool operator!=(const ExprQuote& a, const ExprQuote& b) {
    return !(a == b);
  }
  template <typename H>
  friend H AbslHashValue(H h, const ExprQuote& q) {
    return H::combine(std::move(h), q.expr_fingerprint());
  }
  void ArollaFingerprint(FingerprintHasher* h) const {
    h->Combine(absl::string_view("expr_quote"), expr_fingerprint());
  }
  friend std::ostream& operator<<(std::ostream& o, const ExprQuote& q) {
    return o << "ExprQuote(" << (q.e_ == nullptr ? "" : q.e_->text) << ")";
  }

 private:
  ExprNodePtr e_;
};
}  // namespace expr
VERIF_BASE_QTYPE(EXPR_QUOTE, expr::ExprQuote);
template <>
struct ReprTraits<expr::ExprQuote> {
  ReprToken operator()(const expr::ExprQuote& v) const {
    return ReprToken(v.has_expr() ? "ExprQuote('" + v->get()->text + "')"
                                  : "ExprQuote(nullptr)");
  }
};
namespace serialization {
struct MiniContainer {
  std::string s;
  template <typename X = void>
  std::string SerializeAsString() const { return s; }
  bool AppendToString(std::string* out) const { *out += s; return true; }
};
inline absl::StatusOr<MiniContainer> Encode(
    std::initializer_list<int>, std::initializer_list<expr::ExprNodePtr> e) {
  MiniContainer c;
  for (const auto& x : e) c.s += x->text;
  return c;
}
}  // namespace serialization
}  // namespace arolla
#endif
