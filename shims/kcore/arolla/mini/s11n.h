#ifndef VERIF_MINI_AROLLA_S11N_H_
#define VERIF_MINI_AROLLA_S11N_H_
// Serialization of values by the codecs that are registered for their types.
#include <functional>
#include <map>
#include <unordered_map>
#include <variant>
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/jagged_shape/dense_array/qtype/qtype.h"
#include "arolla/mini/qtype.h"
#include "arolla/serialization_base/base.pb.h"

namespace arolla {
VERIF_BASE_QTYPE(QTYPE, QTypePtr);

template <typename T, typename S>
T fast_dynamic_downcast_final(S* s) {
  return dynamic_cast<T>(s);
}

namespace expr {
class ExprOperator {
 public:
  virtual ~ExprOperator() = default;
};
using ExprOperatorPtr = std::shared_ptr<const ExprOperator>;
}  // namespace expr
VERIF_BASE_QTYPE(EXPR_OPERATOR, expr::ExprOperatorPtr);

class Sequence {
 public:
  Sequence() = default;
  Sequence(QTypePtr t, std::vector<TypedValue> v)
      : t_(t), v_(std::move(v)) {}
  QTypePtr value_qtype() const { return t_; }
  size_t size() const { return v_.size(); }
  TypedRef GetRef(size_t i) const { return v_[i].AsRef(); }

 private:
  QTypePtr t_ = GetNothingQType();
  std::vector<TypedValue> v_;
};
class MutableSequence {
 public:
  static absl::StatusOr<MutableSequence> Make(QTypePtr t, size_t n) {
    MutableSequence s;
    s.t_ = t;
    s.v_.resize(n, TypedValue::FromValue(kUnit));
    return s;
  }
  void UnsafeSetRef(size_t i, TypedRef r) { v_[i] = TypedValue(r); }
  Sequence Finish() && { return Sequence(t_, std::move(v_)); }

 private:
  QTypePtr t_ = nullptr;
  std::vector<TypedValue> v_;
};
VERIF_BASE_QTYPE(SEQUENCE, Sequence);

inline TypedRef DecayDerivedQValue(TypedRef v) {
  auto* t = dynamic_cast<const BasicDerivedQType*>(v.GetType());
  return t ? TypedRef::UnsafeFromRawPointer(t->GetBaseQType(),
                                            v.GetRawPointer()) : v;
}
inline TypedValue UnsafeDowncastDerivedQValue(QTypePtr t,
                                              const TypedValue& v) {
  return TypedValue(TypedRef::UnsafeFromRawPointer(t, v.GetRawPointer()));
}

namespace serialization_base {
struct NoExtensionFound {};
using ValueDecoderResult = std::variant<TypedValue, NoExtensionFound>;
class Encoder;
using ValueEncoder =
    std::function<absl::StatusOr<ValueProto>(TypedRef, Encoder&)>;
using ValueDecoder = std::function<absl::StatusOr<ValueDecoderResult>(
    const ValueProto&, absl::Span<const TypedValue>,
    absl::Span<const expr::ExprNodePtr>)>;

struct Codecs {
  std::map<QTypePtr, ValueEncoder> encoders;
  std::map<std::string, ValueDecoder> decoders;
};
inline Codecs& GetCodecs() {
  static auto* r = new Codecs();
  return *r;
}

class Encoder {
 public:
  absl::StatusOr<uint64_t> EncodeCodec(absl::string_view name) {
    for (int i = 0; i < c_.codecs_size(); ++i) {
      if (c_.codecs(i) == name) return i;
    }
    c_.add_codecs(std::string(name));
    return c_.codecs_size() - 1;
  }
  // Equal values are stored once.
  absl::StatusOr<uint64_t> EncodeValue(const TypedValue& v) {
    Fingerprint f = v.GetFingerprint();
    auto key = std::make_pair(v.GetType(), f);
    const bool known = v.GetType()->has_fingerprint();
    if (known) {
      auto it = known_.find(key);
      if (it != known_.end()) return it->second;
    }
    auto r = Encode(v);
    if (!r.ok()) return r.status();
    *c_.add_values() = *std::move(r);
    uint64_t i = c_.values_size() - 1;
    if (known) known_[key] = i;
    return i;
  }
  VerifContainer& container() { return c_; }

 private:
  absl::StatusOr<ValueProto> Encode(const TypedValue& v) {
    // The codec of a type encodes the type itself, too.
    auto it = GetCodecs().encoders.find(
        v.GetType() == GetQType<QTypePtr>() ? v.UnsafeAs<QTypePtr>()
                                            : v.GetType());
    if (it != GetCodecs().encoders.end()) return it->second(v.AsRef(), *this);
    ValueProto p;
    auto c = EncodeCodec("builtin");
    p.set_codec_index(*c);
    auto* b = p.MutableExtension(VerifBuiltin::extension);
    if (v.GetType() == GetQType<Bytes>()) {
      b->set_data(std::string(v.UnsafeAs<Bytes>()));
    } else if (v.GetType() == GetQType<expr::ExprQuote>()) {
      const auto& q = v.UnsafeAs<expr::ExprQuote>();
      if (q.has_expr()) {
        b->set_expr(q->get()->text);
      } else {
        b->set_empty_expr(true);
      }
    } else if (v.GetType() == GetQType<JaggedDenseArrayShape>()) {
      b->set_is_shape(true);
      for (const auto& e : v.UnsafeAs<JaggedDenseArrayShape>().edges()) {
        auto* s = b->add_shape();
        for (int64_t x : e.edge_values().values.span()) s->add_split_points(x);
      }
    } else {
      return absl::UnimplementedError("no codec for " + v.Repr());
    }
    return p;
  }
  VerifContainer c_;
  std::map<std::pair<QTypePtr, Fingerprint>, uint64_t> known_;
};

inline absl::StatusOr<TypedValue> DecodeBuiltin(const ValueProto& p) {
  const auto& b = p.GetExtension(VerifBuiltin::extension);
  if (b.has_data()) return TypedValue::FromValue(Bytes(b.data()));
  if (b.has_expr()) {
    return TypedValue::FromValue(expr::ExprQuote(
        RefcountPtr<const expr::ExprNode>::Make(b.expr())));
  }
  if (b.empty_expr()) return TypedValue::FromValue(expr::ExprQuote());
  if (!b.is_shape()) return absl::InvalidArgumentError("no value");
  JaggedDenseArrayShape::EdgeVec edges;
  for (const auto& s : b.shape()) {
    std::vector<int64_t> v(s.split_points().begin(), s.split_points().end());
    auto e = DenseArrayEdge::FromSplitPoints(
        CreateFullDenseArray<int64_t>(std::move(v)));
    if (!e.ok()) return e.status();
    edges.push_back(*std::move(e));
  }
  auto r = JaggedDenseArrayShape::FromEdges(std::move(edges));
  if (!r.ok()) return r.status();
  return TypedValue::FromValue(*std::move(r));
}

inline absl::StatusOr<std::vector<TypedValue>> DecodeContainer(
    const VerifContainer& c) {
  std::vector<TypedValue> values;
  for (const ValueProto& p : c.values()) {
    if (p.codec_index() >= c.codecs_size()) {
      return absl::InvalidArgumentError("codec index");
    }
    const std::string& codec = c.codecs(p.codec_index());
    if (codec == "builtin") {
      auto r = DecodeBuiltin(p);
      if (!r.ok()) return r.status();
      values.push_back(*std::move(r));
      continue;
    }
    std::vector<TypedValue> in;
    for (uint64_t i : p.input_value_indices()) {
      if (i >= values.size()) return absl::InvalidArgumentError("value index");
      in.push_back(values[i]);
    }
    auto it = GetCodecs().decoders.find(codec);
    if (it == GetCodecs().decoders.end()) {
      return absl::InvalidArgumentError("unknown codec " + codec);
    }
    auto r = it->second(p, in, {});
    if (!r.ok()) return r.status();
    if (!std::holds_alternative<TypedValue>(*r)) {
      return absl::InvalidArgumentError("no extension found");
    }
    values.push_back(std::get<TypedValue>(*std::move(r)));
  }
  std::vector<TypedValue> out;
  for (uint64_t i : c.outputs()) {
    if (i >= values.size()) return absl::InvalidArgumentError("output");
    out.push_back(values[i]);
  }
  return out;
}
}  // namespace serialization_base

namespace serialization_codecs {
inline absl::Status RegisterValueEncoderByQType(
    QTypePtr t, serialization_base::ValueEncoder e) {
  serialization_base::GetCodecs().encoders[t] = std::move(e);
  return absl::OkStatus();
}
inline absl::Status RegisterValueEncoderByQValueSpecialisationKey(
    absl::string_view, serialization_base::ValueEncoder) {
  return absl::OkStatus();
}
inline absl::Status RegisterValueDecoder(
    absl::string_view name, serialization_base::ValueDecoder d) {
  serialization_base::GetCodecs().decoders[std::string(name)] = std::move(d);
  return absl::OkStatus();
}
}  // namespace serialization_codecs

struct InitializerArgs {
  std::initializer_list<int> deps = {};
  int reverse_deps = 0;
  absl::Status (*init_fn)() = nullptr;
};
namespace initializer_dep {
inline constexpr int kS11n = 1;
}
struct RunInitializer {
  explicit RunInitializer(const InitializerArgs& a) {
    if (!a.init_fn().ok()) std::abort();
  }
};
}  // namespace arolla
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
#define AROLLA_INITIALIZER(...)                                     \
  static const ::arolla::RunInitializer VERIF_CAT(verif_init_, __LINE__)( \
      ::arolla::InitializerArgs{__VA_ARGS__});
#endif
