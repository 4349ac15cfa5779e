#ifndef VERIF_MINI_AROLLA_CONCAT_H_
#define VERIF_MINI_AROLLA_CONCAT_H_
#include "arolla/mini/array.h"
#include "arolla/mini/ops.h"
namespace arolla {
namespace mini_internal {
template <typename T>
absl::StatusOr<std::pair<DenseArray<T>, JaggedDenseArrayShape>> JoinArrays(
    absl::Span<const DenseArray<T>> arrays,
    absl::Span<const JaggedDenseArrayShape> shapes, int64_t dim, bool stack) {
  if (arrays.empty() || arrays.size() != shapes.size()) {
    return absl::InvalidArgumentError("at least one array/shape must be provided");
  }
  int64_t rank = shapes[0].rank();
  for (const auto& s : shapes) {
    if (s.rank() != rank) {
      return absl::InvalidArgumentError("all concat/stack args must have the same rank");
    }
  }
  if (dim < 0 || dim > rank || (!stack && dim == rank)) {
    return absl::InvalidArgumentError("invalid dim");
  }
  for (int64_t d = 0; d < dim; ++d) {
    for (const auto& s : shapes) {
      if (!s.edges()[d].IsEquivalentTo(shapes[0].edges()[d])) {
        return absl::InvalidArgumentError(
            "concat/stack requires shapes equal up to the dimension");
      }
    }
  }
  std::vector<DenseArrayEdge> edges(shapes[0].edges().begin(),
                                    shapes[0].edges().begin() + dim);
  int64_t parents = dim == 0 ? 1 : edges.back().child_size();
  // (array, index) in the order of the result.
  std::vector<std::pair<size_t, int64_t>> order;
  auto add_edge = [&](const std::vector<int64_t>& pts) {
    edges.push_back(
        DenseArrayEdge::UnsafeFromSplitPoints(CreateFullDenseArray<int64_t>(pts)));
  };
  int64_t d = dim;
  std::vector<int64_t> pts = {0};
  if (stack) {
    for (int64_t p = 0; p < parents; ++p) {
      for (size_t a = 0; a < arrays.size(); ++a) order.push_back({a, p});
      pts.push_back(order.size());
    }
  } else {
    for (int64_t p = 0; p < parents; ++p) {
      for (size_t a = 0; a < arrays.size(); ++a) {
        const auto& sp = shapes[a].edges()[d].edge_values().values;
        for (int64_t i = sp[p]; i < sp[p + 1]; ++i) order.push_back({a, i});
      }
      pts.push_back(order.size());
    }
    ++d;
  }
  add_edge(pts);
  for (; d < rank; ++d) {
    std::vector<std::pair<size_t, int64_t>> next;
    pts = {0};
    for (auto [a, p] : order) {
      const auto& sp = shapes[a].edges()[d].edge_values().values;
      for (int64_t i = sp[p]; i < sp[p + 1]; ++i) next.push_back({a, i});
      pts.push_back(next.size());
    }
    add_edge(pts);
    order = std::move(next);
  }
  DenseArrayBuilder<T> b(order.size());
  for (size_t i = 0; i < order.size(); ++i) {
    auto [a, k] = order[i];
    if (arrays[a].present(k)) b.Set(i, arrays[a].values[k]);
  }
  JaggedDenseArrayShape::EdgeVec ev(edges.begin(), edges.end());
  ASSIGN_OR_RETURN(auto shape, JaggedDenseArrayShape::FromEdges(std::move(ev)));
  return std::make_pair(std::move(b).Build(), std::move(shape));
}
}  // namespace mini_internal
template <typename T>
auto ConcatJaggedArraysAlongDimension(absl::Span<const DenseArray<T>> a,
                                      absl::Span<const JaggedDenseArrayShape> s,
                                      int64_t dim) {
  return mini_internal::JoinArrays(a, s, dim, false);
}
template <typename T>
auto StackJaggedArraysAlongDimension(absl::Span<const DenseArray<T>> a,
                                     absl::Span<const JaggedDenseArrayShape> s,
                                     int64_t dim) {
  return mini_internal::JoinArrays(a, s, dim, true);
}
}  // namespace arolla
#endif
