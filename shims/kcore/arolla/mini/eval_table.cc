// Operators of arolla that koladata evaluates by name, over dense arrays with
// the groups of an edge.
#include <algorithm>
#include <cmath>

#include "arolla/mini/bridge.h"
#include "arolla/mini/math.h"

namespace arolla {
namespace {

using Args = absl::Span<const TypedRef>;
using Res = absl::StatusOr<TypedValue>;

std::vector<std::vector<int64_t>> Groups(const DenseArrayEdge& e) {
  std::vector<std::vector<int64_t>> g(e.parent_size());
  for (int64_t i = 0; i < e.child_size(); ++i) {
    auto p = e.Parent(i);
    if (p.present) g[p.value].push_back(i);
  }
  return g;
}

template <typename T>
bool Less(const T& a, const T& b) {
  if constexpr (std::is_floating_point_v<T>) {
    // NaN is after all numbers.
    if (std::isnan(a)) return false;
    if (std::isnan(b)) return true;
  }
  return a < b;
}

template <typename T>
T Val(const DenseArray<T>& a, int64_t i) {
  return T(a.values[i]);
}

bool Bool(TypedRef r) {
  if (r.GetType() == GetQType<bool>()) return r.UnsafeAs<bool>();
  return r.UnsafeAs<OptionalValue<bool>>().value;
}

template <typename T>
Res Run(absl::string_view name, Args in) {
  const auto& x = in[0].UnsafeAs<DenseArray<T>>();
  auto edge_at = [&](size_t i) -> const DenseArrayEdge& {
    return in[i].UnsafeAs<DenseArrayEdge>();
  };
  constexpr bool kNum = std::is_arithmetic_v<T> && !std::is_same_v<T, bool>;
  if constexpr (kNum) {
    if (name == "math.argmax" || name == "math.argmin") {
      auto groups = Groups(edge_at(1));
      DenseArrayBuilder<int64_t> b(groups.size());
      for (size_t g = 0; g < groups.size(); ++g) {
        int64_t best = -1;
        for (size_t k = 0; k < groups[g].size(); ++k) {
          int64_t i = groups[g][k];
          if (!x.present(i)) continue;
          if (best < 0 ||
              (name == "math.argmax"
                   ? Less<T>(x.values[groups[g][best]], x.values[i])
                   : Less<T>(x.values[i], x.values[groups[g][best]]))) {
            best = k;
          }
        }
        if (best >= 0) b.Set(g, best);
      }
      return TypedValue::FromValue(std::move(b).Build());
    }
    if (name == "math.sum" || name == "math.min" || name == "math.max" ||
        name == "math.mean") {
      using M = std::conditional_t<std::is_integral_v<T>, float, T>;
      auto groups = Groups(edge_at(1));
      DenseArrayBuilder<T> b(groups.size());
      DenseArrayBuilder<M> bm(groups.size());
      for (size_t g = 0; g < groups.size(); ++g) {
        bool any = false;
        T r{};
        double total = 0;
        int64_t n = 0;
        for (int64_t i : groups[g]) {
          if (!x.present(i)) continue;
          T v = x.values[i];
          total += v;
          ++n;
          if (!any) r = v;
          else if (name == "math.sum") r = AddOp()(r, v);
          else if (name == "math.min") r = MinOp()(r, v);
          else r = MaxOp()(r, v);
          any = true;
        }
        if (any || name == "math.sum") b.Set(g, r);
        if (any) bm.Set(g, M(total / n));
      }
      if (name == "math.mean") {
        return TypedValue::FromValue(std::move(bm).Build());
      }
      return TypedValue::FromValue(std::move(b).Build());
    }
    if (name == "math.cum_sum" || name == "math.cum_min" ||
        name == "math.cum_max") {
      auto groups = Groups(edge_at(1));
      DenseArrayBuilder<T> b(x.size());
      for (const auto& g : groups) {
        bool any = false;
        T r{};
        for (int64_t i : g) {
          if (!x.present(i)) continue;
          T v = x.values[i];
          if (!any) r = v;
          else if (name == "math.cum_sum") r = AddOp()(r, v);
          else if (name == "math.cum_min") r = MinOp()(r, v);
          else r = MaxOp()(r, v);
          any = true;
          b.Set(i, r);
        }
      }
      return TypedValue::FromValue(std::move(b).Build());
    }
    if constexpr (std::is_integral_v<T>) {
      if (name == "array.inverse_mapping") {
        auto groups = Groups(edge_at(1));
        DenseArrayBuilder<T> b(x.size());
        for (const auto& g : groups) {
          std::vector<bool> seen(g.size());
          for (size_t k = 0; k < g.size(); ++k) {
            if (!x.present(g[k])) continue;
            T v = x.values[g[k]];
            if (v < 0 || static_cast<size_t>(v) >= g.size()) {
              return absl::InvalidArgumentError(
                  "unable to compute array.inverse_mapping: invalid index");
            }
            if (seen[v]) {
              return absl::InvalidArgumentError(
                  "unable to compute array.inverse_mapping: duplicated index");
            }
            seen[v] = true;
            b.Set(g[v], T(k));
          }
        }
        return TypedValue::FromValue(std::move(b).Build());
      }
    }
  }
  if (name == "array.ordinal_rank" || name == "array.dense_rank") {
    bool dense = name == "array.dense_rank";
    auto groups = Groups(edge_at(dense ? 1 : 2));
    bool desc = Bool(in[dense ? 2 : 3]);
    auto tie = [&](int64_t i) -> OptionalValue<int64_t> {
      if (dense) return int64_t{0};
      QTypePtr t = in[1].GetType();
      if (t == GetQType<int64_t>()) return in[1].UnsafeAs<int64_t>();
      if (t == GetQType<OptionalValue<int64_t>>()) {
        return in[1].UnsafeAs<OptionalValue<int64_t>>();
      }
      return in[1].UnsafeAs<DenseArray<int64_t>>()[i];
    };
    DenseArrayBuilder<int64_t> b(x.size());
    for (const auto& g : groups) {
      std::vector<int64_t> idx;
      for (int64_t i : g) {
        if (x.present(i) && tie(i).present) idx.push_back(i);
      }
      auto before = [&](int64_t i, int64_t j) {
        if (desc) {
          if constexpr (std::is_floating_point_v<T>) {
            T a = Val(x, i), c = Val(x, j);
            if (std::isnan(a) != std::isnan(c)) return std::isnan(c);
          }
          return Less(Val(x, j), Val(x, i));
        }
        return Less(Val(x, i), Val(x, j));
      };
      std::stable_sort(idx.begin(), idx.end(), [&](int64_t i, int64_t j) {
        if (before(i, j)) return true;
        if (before(j, i)) return false;
        return tie(i).value < tie(j).value;
      });
      int64_t rank = -1;
      for (size_t k = 0; k < idx.size(); ++k) {
        if (!dense || k == 0 || before(idx[k - 1], idx[k])) ++rank;
        b.Set(idx[k], rank);
      }
    }
    return TypedValue::FromValue(std::move(b).Build());
  }
  return absl::UnimplementedError(absl::StrCat("no operator ", name));
}

Res RunMask(bool any, Args in) {
  const auto& x = in[0].UnsafeAs<DenseArray<Unit>>();
  auto groups = Groups(in[1].UnsafeAs<DenseArrayEdge>());
  DenseArrayBuilder<Unit> b(groups.size());
  for (size_t g = 0; g < groups.size(); ++g) {
    size_t n = 0;
    for (int64_t i : groups[g]) n += x.present(i);
    if (any ? n > 0 : n == groups[g].size()) b.Set(g, kUnit);
  }
  return TypedValue::FromValue(std::move(b).Build());
}

}  // namespace

absl::StatusOr<MiniEvalFn> LookupMiniStringOp(absl::string_view name,
                                              absl::Span<const QTypePtr> types);

absl::StatusOr<MiniEvalFn> LookupMiniOp(absl::string_view name,
                                        absl::Span<const QTypePtr> types) {
  std::string n(name);
  if (n.starts_with("strings.")) return LookupMiniStringOp(name, types);
  MiniEvalFn fn;
  auto add = [&]<typename T>(meta::type<T>) {
    if (types[0] == GetDenseArrayQType<T>()) {
      fn = [n](Args in) { return Run<T>(n, in); };
    }
  };
  add(meta::type<int32_t>());
  add(meta::type<int64_t>());
  add(meta::type<float>());
  add(meta::type<double>());
  add(meta::type<bool>());
  add(meta::type<Text>());
  add(meta::type<Bytes>());
  if (types[0] == GetDenseArrayQType<Unit>() &&
      (n == "core.any" || n == "core.all")) {
    fn = [n](Args in) { return RunMask(n == "core.any", in); };
  }
  if (!fn) {
    return absl::UnimplementedError(
        absl::StrCat("no operator ", n, " on ", types[0]->name()));
  }
  return fn;
}
}  // namespace arolla
