#ifndef VERIF_MINI_AROLLA_FRAME_H_
#define VERIF_MINI_AROLLA_FRAME_H_
// Frames, slots and operators: a frame is a vector of shared values.
#include "arolla/mini/base.h"
#include "arolla/mini/optional.h"
#include "arolla/mini/ops.h"
#include "arolla/mini/qtype.h"

namespace arolla {

struct MiniFrame {
  std::vector<std::shared_ptr<void>> v;
};

class FrameLayout {
 public:
  template <typename T>
  class Slot {
   public:
    using value_type = T;
    explicit Slot(size_t i) : i_(i) {}
    size_t index() const { return i_; }
    static Slot UnsafeSlotFromOffset(size_t i) { return Slot(i); }

   private:
    size_t i_;
  };
};

class ConstFramePtr {
 public:
  explicit ConstFramePtr(MiniFrame* f) : f_(f) {}
  template <typename T>
  const T& Get(FrameLayout::Slot<T> s) const {
    const auto& p = f_->v.at(s.index());
    if (p == nullptr) throw std::logic_error("unset slot");
    return *static_cast<const T*>(p.get());
  }
  MiniFrame* raw() const { return f_; }

 protected:
  MiniFrame* f_;
};
class FramePtr : public ConstFramePtr {
 public:
  using ConstFramePtr::ConstFramePtr;
  template <typename T, typename V>
  void Set(FrameLayout::Slot<T> s, V&& v) const {
    f_->v.at(s.index()) = std::make_shared<T>(std::forward<V>(v));
  }
  template <typename T>
  T* GetMutable(FrameLayout::Slot<T> s) const {
    auto& p = f_->v.at(s.index());
    if (p == nullptr) p = std::make_shared<T>();
    return static_cast<T*>(p.get());
  }
};

class TypedSlot {
 public:
  TypedSlot(QTypePtr t, size_t i, std::vector<TypedSlot> sub)
      : t_(t), i_(i), sub_(std::move(sub)) {}
  // Adds the slot (and the slots of its fields) to the frame.
  static TypedSlot Add(MiniFrame* f, QTypePtr t) {
    std::vector<TypedSlot> sub;
    if (auto* tt = dynamic_cast<const TupleQType*>(t)) {
      for (QTypePtr x : tt->field_types()) sub.push_back(Add(f, x));
    }
    f->v.emplace_back();
    return TypedSlot(t, f->v.size() - 1, std::move(sub));
  }
  template <typename T>
  static TypedSlot FromSlot(FrameLayout::Slot<T> s, QTypePtr t) {
    return TypedSlot(t, s.index(), {});
  }
  QTypePtr GetType() const { return t_; }
  size_t SubSlotCount() const { return sub_.size(); }
  const TypedSlot& SubSlot(size_t i) const { return sub_.at(i); }
  template <typename T>
  FrameLayout::Slot<T> UnsafeToSlot() const {
    return FrameLayout::Slot<T>(i_);
  }
  template <typename T>
  absl::StatusOr<FrameLayout::Slot<T>> ToSlot() const {
    if (t_ != GetQType<T>()) {
      return absl::InvalidArgumentError("slot type does not match");
    }
    return FrameLayout::Slot<T>(i_);
  }
  void CopyTo(ConstFramePtr from, const TypedSlot& dst, FramePtr to) const {
    to.raw()->v.at(dst.i_) = from.raw()->v.at(i_);
    for (size_t k = 0; k < sub_.size(); ++k) sub_[k].CopyTo(from, dst.sub_[k], to);
  }
  void Store(MiniFrame* f, TypedRef v) const {
    if (v.GetType() != t_) throw std::logic_error("slot type");
    for (size_t k = 0; k < sub_.size(); ++k) sub_[k].Store(f, v.GetField(k));
    f->v.at(i_) = t_->Copy(v.GetRawPointer());
  }
  TypedValue Load(MiniFrame* f) const {
    if (dynamic_cast<const TupleQType*>(t_) != nullptr && f->v.at(i_) == nullptr) {
      auto v = std::make_shared<MiniTuple>();
      for (const TypedSlot& s : sub_) v->fields.push_back(s.Load(f));
      return TypedValue::UnsafeFromShared(t_, std::move(v));
    }
    if (f->v.at(i_) == nullptr) throw std::logic_error("unset output slot");
    return TypedValue::UnsafeFromShared(t_, f->v.at(i_));
  }

 private:
  QTypePtr t_;
  size_t i_;
  std::vector<TypedSlot> sub_;
};

class BoundOperator {
 public:
  virtual ~BoundOperator() = default;
  virtual void Run(EvaluationContext* ctx, FramePtr frame) const = 0;
};
namespace mini_internal {
template <typename F>
class FnBoundOperator : public BoundOperator {
 public:
  explicit FnBoundOperator(F f) : f_(std::move(f)) {}
  void Run(EvaluationContext* ctx, FramePtr frame) const override {
    using R = decltype(f_(ctx, frame));
    if constexpr (std::is_same_v<R, void>) {
      f_(ctx, frame);
    } else {
      absl::Status s = f_(ctx, frame);
      if (!s.ok()) ctx->set_status(std::move(s));
    }
  }

 private:
  F f_;
};
}  // namespace mini_internal
template <typename F>
std::unique_ptr<BoundOperator> MakeBoundOperator(F f) {
  return std::make_unique<mini_internal::FnBoundOperator<F>>(std::move(f));
}

class QExprOperatorSignature {
 public:
  QExprOperatorSignature(std::vector<QTypePtr> in, QTypePtr out)
      : in_(std::move(in)), out_(out) {}
  absl::Span<const QTypePtr> input_types() const { return in_; }
  QTypePtr output_type() const { return out_; }
  static const QExprOperatorSignature* Get(absl::Span<const QTypePtr> in,
                                           QTypePtr out) {
    return new QExprOperatorSignature({in.begin(), in.end()}, out);
  }

 private:
  std::vector<QTypePtr> in_;
  QTypePtr out_;
};
class QExprOperator {
 public:
  template <typename T>
  using Slot = FrameLayout::Slot<T>;
  QExprOperator(absl::Span<const QTypePtr> in, QTypePtr out)
      : s_({in.begin(), in.end()}, out) {}
  QExprOperator(const QExprOperatorSignature* s) : s_(*s) {}
  virtual ~QExprOperator() = default;
  const QExprOperatorSignature* signature() const { return &s_; }
  absl::StatusOr<std::unique_ptr<BoundOperator>> Bind(
      absl::Span<const TypedSlot> in, TypedSlot out) const {
    return DoBind(in, out);
  }

 private:
  virtual absl::StatusOr<std::unique_ptr<BoundOperator>> DoBind(
      absl::Span<const TypedSlot> in, TypedSlot out) const = 0;
  QExprOperatorSignature s_;
};
using OperatorPtr = std::shared_ptr<const QExprOperator>;
class OperatorFamily {
 public:
  virtual ~OperatorFamily() = default;
  absl::StatusOr<OperatorPtr> GetOperator(absl::Span<const QTypePtr> in,
                                          QTypePtr out) const {
    return DoGetOperator(in, out);
  }

 private:
  virtual absl::StatusOr<OperatorPtr> DoGetOperator(
      absl::Span<const QTypePtr> in, QTypePtr out) const = 0;
};
inline absl::StatusOr<OperatorPtr> EnsureOutputQTypeMatches(
    absl::StatusOr<OperatorPtr> op, absl::Span<const QTypePtr> in,
    QTypePtr out) {
  if (!op.ok()) return op;
  if (out != nullptr && (*op)->signature()->output_type() != out) {
    return absl::NotFoundError("output type does not match");
  }
  return op;
}
// Calls an operator of the family; the output type is the one it has.
inline absl::StatusOr<TypedValue> InvokeOperator(
    const OperatorFamily& f, absl::Span<const TypedValue> args,
    QTypePtr out_type = nullptr) {
  std::vector<QTypePtr> in;
  for (const auto& a : args) in.push_back(a.GetType());
  absl::StatusOr<OperatorPtr> op = f.GetOperator(in, out_type);
  if (!op.ok()) return op.status();
  MiniFrame frame;
  std::vector<TypedSlot> slots;
  for (QTypePtr t : in) slots.push_back(TypedSlot::Add(&frame, t));
  TypedSlot out = TypedSlot::Add(&frame, (*op)->signature()->output_type());
  auto bound = (*op)->Bind(slots, out);
  if (!bound.ok()) return bound.status();
  for (size_t i = 0; i < args.size(); ++i) slots[i].Store(&frame, args[i].AsRef());
  EvaluationContext ctx;
  (*bound)->Run(&ctx, FramePtr(&frame));
  if (!ctx.status().ok()) return ctx.status();
  return out.Load(&frame);
}

namespace mini_internal {
template <typename A>
struct VariadicArg;
template <typename T>
struct VariadicArg<absl::Span<const T* const>> {
  using type = T;
  static auto Make(std::vector<const T*>& v) {
    return absl::Span<const T* const>(v.data(), v.size());
  }
};
template <typename T>
struct VariadicArg<std::vector<T>> {
  using type = T;
  static std::vector<T> Make(std::vector<const T*>& v) {
    std::vector<T> r;
    for (const T* x : v) r.push_back(*x);
    return r;
  }
};
template <typename Fn>
class VariadicFamily : public OperatorFamily {
  using FT = meta::function_traits<std::decay_t<Fn>>;
  using Arg = VariadicArg<std::decay_t<meta::head_t<typename FT::arg_types>>>;
  using T = typename Arg::type;
  using Ret = typename FT::return_type;
  using Out = meta::strip_template_t<absl::StatusOr, Ret>;

 public:
  explicit VariadicFamily(Fn fn) : fn_(std::move(fn)) {}

 private:
  class Op : public QExprOperator {
   public:
    Op(absl::Span<const QTypePtr> in, Fn fn)
        : QExprOperator(in, GetQType<Out>()), fn_(std::move(fn)) {}

   private:
    absl::StatusOr<std::unique_ptr<BoundOperator>> DoBind(
        absl::Span<const TypedSlot> in, TypedSlot out) const override {
      return MakeBoundOperator(
          [slots = std::vector<TypedSlot>(in.begin(), in.end()),
           o = out.UnsafeToSlot<Out>(),
           fn = fn_](EvaluationContext*, FramePtr frame) -> absl::Status {
            std::vector<const T*> v;
            for (const TypedSlot& s : slots) {
              v.push_back(&frame.Get(s.UnsafeToSlot<T>()));
            }
            Ret r = fn(Arg::Make(v));
            if constexpr (IsStatusOrT<Ret>::value) {
              if (!r.ok()) return r.status();
              frame.Set(o, *std::move(r));
            } else {
              frame.Set(o, std::move(r));
            }
            return absl::OkStatus();
          });
    }
    Fn fn_;
  };
  absl::StatusOr<OperatorPtr> DoGetOperator(absl::Span<const QTypePtr> in,
                                            QTypePtr) const override {
    for (QTypePtr t : in) {
      if (t != GetQType<T>()) return absl::NotFoundError("argument type");
    }
    return OperatorPtr(std::make_shared<Op>(in, fn_));
  }
  Fn fn_;
};
}  // namespace mini_internal
template <typename Fn>
std::unique_ptr<OperatorFamily> MakeVariadicInputOperatorFamily(Fn fn) {
  return std::make_unique<mini_internal::VariadicFamily<Fn>>(std::move(fn));
}
inline absl::Status OperatorNotDefinedError(absl::string_view name,
                                            absl::Span<const QTypePtr>,
                                            absl::string_view why = "") {
  return absl::NotFoundError(absl::StrCat("operator ", name, " is not defined: ", why));
}

struct Unspecified {
  void ArollaFingerprint(FingerprintHasher* h) const {
    h->Combine(absl::string_view("unspecified"));
  }
};
VERIF_BASE_QTYPE(UNSPECIFIED, Unspecified);
inline QTypePtr GetUnspecifiedQType() { return GetQType<Unspecified>(); }
inline const TypedValue& GetUnspecifiedQValue() {
  static auto* v = new TypedValue(TypedValue::FromValue(Unspecified()));
  return *v;
}
class SliceQType : public TupleQType {
 public:
  using TupleQType::TupleQType;
};
inline QTypePtr MakeSliceQType(QTypePtr a, QTypePtr b, QTypePtr c) {
  static auto* cache = new std::map<std::vector<QTypePtr>, QTypePtr>();
  std::vector<QTypePtr> key = {a, b, c};
  QTypePtr& r = (*cache)[key];
  if (r == nullptr) {
    r = new SliceQType("slice<" + std::string(a->name()) + "," +
                           std::string(b->name()) + "," +
                           std::string(c->name()) + ">", key);
  }
  return r;
}
inline bool IsSliceQType(QTypePtr t) {
  return dynamic_cast<const SliceQType*>(t) != nullptr;
}
}  // namespace arolla
#endif
