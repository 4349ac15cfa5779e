// Driver command over the operators of koladata/operators, by their registered
// names.  The table is operators.cc itself, without the operators that need
// parts of arolla with no stand-in.
//
//   op <name> <argument>...
// Arguments: '$n' slice, '@n' bag, 'S:<shape>' shape, 'n:<int>' int64,
// 'nd' the non-deterministic token, 'u' unspecified, '...' ellipsis, '( a b )' tuple,
// '{ name a name b }' named tuple, '[ a b c ]' slice of three values.
#include "arolla/mini/bridge.h"
#include "arolla/mini/frame.h"
#include "koladata/arolla_utils.h"
#include "koladata/casting.h"
#include "koladata/data_bag.h"
#include "koladata/data_slice.h"
#include "koladata/data_slice_qtype.h"
#include "koladata/internal/ellipsis.h"
#include "koladata/internal/non_deterministic_token.h"
#include "koladata/internal/op_utils/qexpr.h"
#include "koladata/jagged_shape_qtype.h"
#include "koladata/object_factories.h"
#include "koladata/operators/allocation.h"
#include "koladata/operators/arolla_bridge.h"
#include "koladata/operators/assertion.h"
#include "koladata/operators/bags.h"
#include "koladata/operators/bitwise.h"
#include "koladata/operators/comparison.h"
#include "koladata/operators/core.h"
#include "koladata/operators/dicts.h"
#include "koladata/operators/entities.h"
#include "koladata/operators/ids.h"
#include "koladata/operators/json.h"
#include "koladata/operators/lists.h"
#include "koladata/operators/masking.h"
#include "koladata/operators/math.h"
#include "koladata/operators/memory.h"
#include "koladata/operators/non_deterministic_op.h"
#include "koladata/operators/objs.h"
#include "koladata/operators/predicates.h"
#ifdef VERIF_PROTO
#include "koladata/operators/proto.h"
#endif
#include "koladata/operators/schema.h"
#include "koladata/operators/schema_filters.h"
#include "koladata/operators/shapes.h"
#include "koladata/operators/slices.h"
#include "koladata/operators/strings.h"
#include "kcore_slices.h"

namespace kops {
using arolla::QTypePtr;
using arolla::TypedValue;
using Values = std::vector<TypedValue>;
using Fn = std::function<absl::StatusOr<TypedValue>(const Values&)>;

inline std::map<std::string, Fn>& Ops() {
  static auto* m = new std::map<std::string, Fn>();
  return *m;
}

template <typename Fun, typename Ret, typename L>
struct Call;
template <typename Fun, typename Ret, typename... A>
struct Call<Fun, Ret, arolla::meta::type_list<A...>> {
  static absl::StatusOr<TypedValue> Do(const Fun& fn, const Values& v) {
    constexpr bool kCtx = [] {
      bool r = false, first = true;
      ((first ? (r = std::is_same_v<A, arolla::EvaluationContext*>) : 0,
        first = false),
       ...);
      return r;
    }();
    if (v.size() != sizeof...(A) - kCtx) {
      throw kapp::Bad("the operator has " + std::to_string(sizeof...(A)) +
                      " arguments");
    }
    arolla::EvaluationContext ctx;
    Ret r = [&]<size_t... I>(std::index_sequence<I...>) -> Ret {
      return fn(Get<A, I, kCtx>(&ctx, v)...);
    }(std::index_sequence_for<A...>());
    if (!ctx.status().ok()) return ctx.status();
    if constexpr (arolla::IsStatusOrT<Ret>::value) {
      if (!r.ok()) return r.status();
      return TypedValue::FromValue(*std::move(r));
    } else {
      return TypedValue::FromValue(std::move(r));
    }
  }
  template <typename T, size_t I, bool kCtx>
  static T Get(arolla::EvaluationContext* ctx, const Values& v) {
    if constexpr (std::is_same_v<T, arolla::EvaluationContext*>) {
      return ctx;
    } else {
      const TypedValue& x = v[I - kCtx];
      using D = std::decay_t<T>;
      if (x.GetType() != arolla::GetQType<D>()) {
        throw kapp::Bad("type of argument " + std::to_string(I));
      }
      return x.UnsafeAs<D>();
    }
  }
};

struct Reg {
  template <typename F>
    requires(!std::is_convertible_v<F, std::unique_ptr<arolla::OperatorFamily>>)
  Reg(const char* name, F fn) {
    using FT = arolla::meta::function_traits<F>;
    Ops()[name] = [fn = std::move(fn)](const Values& v) {
      return Call<F, typename FT::return_type, typename FT::arg_types>::Do(fn,
                                                                           v);
    };
  }
  Reg(const char* name, std::unique_ptr<arolla::OperatorFamily> f) {
    // The families of shapes are asked for with their output type.
    bool shape = absl::StartsWith(name, "kd.shapes.");
    Ops()[name] = [f = std::shared_ptr<arolla::OperatorFamily>(std::move(f)),
                   shape](const Values& v) {
      return arolla::InvokeOperator(
          *f, v, shape ? koladata::GetJaggedShapeQType() : nullptr);
    };
  }
};
}  // namespace kops

#define AROLLA_REGISTER_QEXPR_OPERATOR(name, ...) \
  static ::kops::Reg KCAT(reg_, __COUNTER__)(name, __VA_ARGS__)
#define AROLLA_REGISTER_QEXPR_OPERATOR_FAMILY(name, ...) \
  static ::kops::Reg KCAT(reg_, __COUNTER__)(name, __VA_ARGS__)
#define OPERATOR KODA_QEXPR_OPERATOR
#define OPERATOR_FAMILY KODA_QEXPR_OPERATOR_FAMILY
namespace koladata::ops {
namespace {
#include "ops_table.inc"
}  // namespace
}  // namespace koladata::ops

namespace {
using namespace kapp;  // NOLINT
using arolla::TypedValue;

TypedValue ParseArg(const std::string& t, Args& a) {
  switch (t[0]) {
    case '$':
      return TypedValue::FromValue(Slices().Get(t));
    case '@':
      return TypedValue::FromValue(GetBag(t));
    case 'S':
      return TypedValue::FromValue(ParseShape(t.substr(2)));
    case 'n':
      if (t == "nd") {
        return TypedValue::FromValue(koladata::internal::NonDeterministicToken());
      }
      return TypedValue::FromValue<int64_t>(std::stoll(t.substr(2)));
    case 'b':
      return TypedValue::FromValue<bool>(t == "b1");
    case 'u':
      return arolla::GetUnspecifiedQValue();
    case '.':
      return TypedValue::FromValue(koladata::internal::Ellipsis());
    case '(':
    case '[': {
      std::vector<TypedValue> v;
      std::string end = t == "(" ? ")" : "]";
      for (std::string w = a.str(); w != end; w = a.str()) {
        v.push_back(ParseArg(w, a));
      }
      if (t == "(") return arolla::MakeTuple(absl::MakeConstSpan(v));
      if (v.size() != 3) throw Bad("slice of three values");
      auto m = std::make_shared<arolla::MiniTuple>();
      m->fields = v;
      return TypedValue::UnsafeFromShared(
          arolla::MakeSliceQType(v[0].GetType(), v[1].GetType(),
                                 v[2].GetType()),
          std::move(m));
    }
    case '{': {
      std::vector<TypedValue> v;
      std::vector<std::string> names;
      for (std::string w = a.str(); w != "}"; w = a.str()) {
        names.push_back(UnPct(w));
        v.push_back(ParseArg(a.str(), a));
      }
      return Ok(arolla::MakeNamedTuple(names, absl::MakeConstSpan(v)));
    }
    default:
      throw Bad("argument " + t);
  }
}

std::string ResultStr(arolla::TypedRef r) {
  if (auto s = r.As<DataSlice>(); s.ok()) return PutS(DataSlice(s->get()));
  if (auto b = r.As<DataBagPtr>(); b.ok()) return BagKey(b->get());
  if (auto s = r.As<arolla::JaggedDenseArrayShape>(); s.ok()) {
    return "S:" + ShapeStr(s->get());
  }
  if (auto s = r.As<int64_t>(); s.ok()) return "n:" + std::to_string(s->get());
  if (r.GetType()->type_info() == typeid(arolla::MiniTuple)) {
    std::string s = "(";
    for (int64_t i = 0; i < r.GetFieldCount(); ++i) {
      s += " " + ResultStr(r.GetField(i));
    }
    return s + " )";
  }
  throw Bad("result type");
}

CMD("op") {
  auto it = kops::Ops().find(a.str());
  if (it == kops::Ops().end()) throw Bad("no such operator");
  std::vector<TypedValue> v;
  while (a.more()) {
    std::string w = a.str();
    v.push_back(ParseArg(w, a));
  }
  return ResultStr(Ok(it->second(v)).AsRef());
} END
CMD("ops") {
  std::string r;
  for (const auto& [k, f] : kops::Ops()) r += k + " ";
  return r;
} END
}  // namespace
