// Minimal stand-in for the arolla operators and shapes that /repo's C++ uses.
#ifndef VERIF_MINI_AROLLA_OPS_H_
#define VERIF_MINI_AROLLA_OPS_H_
#include "arolla/mini/array.h"
namespace arolla {

class EvaluationContext {
 public:
  EvaluationContext() = default;
  RawBufferFactory& buffer_factory() { return *GetHeapBufferFactory(); }
  const absl::Status& status() const& { return status_; }
  absl::Status&& status() && { return std::move(status_); }
  void set_status(absl::Status s) { status_ = std::move(s); }

 private:
  absl::Status status_;
};

// ---- accumulators -----------------------------------------------------------
enum class AccumulatorType { kAggregator, kPartial, kFull };

template <AccumulatorType type, typename Res, typename ParentTs,
          typename ChildTs>
struct Accumulator;
template <AccumulatorType kType, typename Res, typename... P, typename... C>
struct Accumulator<kType, Res, meta::type_list<P...>, meta::type_list<C...>> {
  using result_type = Res;
  using parent_types = meta::type_list<P...>;
  using child_types = meta::type_list<C...>;
  static constexpr AccumulatorType type() { return kType; }
  static constexpr bool IsAggregator() {
    return kType == AccumulatorType::kAggregator;
  }
  static constexpr bool IsPartial() { return kType == AccumulatorType::kPartial; }
  static constexpr bool IsFull() { return kType == AccumulatorType::kFull; }
  virtual ~Accumulator() = default;
  virtual void Reset(view_type_t<P>... values) = 0;
  virtual void Add(view_type_t<C>... values) = 0;
  virtual view_type_t<Res> GetResult() = 0;
  virtual void FinalizeFullGroup() {}
  virtual absl::Status GetStatus() { return absl::OkStatus(); }
};

template <typename T>
class CollapseAccumulator
    : public Accumulator<AccumulatorType::kAggregator, OptionalValue<T>,
                         meta::type_list<>, meta::type_list<T>> {
 public:
  void Reset() final { present_ = false, all_same_ = true; }
  void Add(view_type_t<T> v) final {
    if (!present_) {
      present_ = true;
      value_ = T(v);
    } else if (!(view_type_t<T>(value_) == v)) {
      all_same_ = false;
    }
  }
  OptionalValue<view_type_t<T>> GetResult() final {
    if (present_ && all_same_) return {true, view_type_t<T>(value_)};
    return {};
  }

 private:
  bool present_ = false, all_same_ = true;
  T value_{};
};
class SimpleCountAggregator
    : public Accumulator<AccumulatorType::kAggregator, int64_t,
                         meta::type_list<>, meta::type_list<Unit>> {
 public:
  void Reset() final { n_ = 0; }
  void Add(Unit) final { ++n_; }
  int64_t GetResult() final { return n_; }

 private:
  int64_t n_ = 0;
};
class CountPartialAccumulator
    : public Accumulator<AccumulatorType::kPartial, int64_t, meta::type_list<>,
                         meta::type_list<Unit>> {
 public:
  void Reset() final { n_ = 0; }
  void Add(Unit) final { ++n_; }
  int64_t GetResult() final { return n_; }

 private:
  int64_t n_ = 0;
};

namespace ops_mini {
template <typename T>
bool Ok(const DenseArray<strip_optional_t<T>>& a, int64_t i) {
  return is_optional_v<T> || a.present(i);
}
template <typename T>
view_type_t<T> Get(const DenseArray<strip_optional_t<T>>& a, int64_t i) {
  if constexpr (is_optional_v<T>) {
    return a[i];
  } else {
    return a.values[i];
  }
}
}  // namespace ops_mini

template <typename Acc>
class DenseGroupOps {
 public:
  template <typename... Args>
  explicit DenseGroupOps(RawBufferFactory*, Args&&... args)
      : acc_(std::forward<Args>(args)...) {}
  template <typename Edge, typename... As>
  auto Apply(const Edge& edge, const As&... arrays) const {
    return Do(edge, typename Acc::parent_types(), typename Acc::child_types(),
              std::tie(arrays...));
  }

 private:
  using ResT = strip_optional_t<typename Acc::result_type>;
  template <typename Edge, typename... P, typename... C, typename Tuple>
  absl::StatusOr<DenseArray<ResT>> Do(const Edge& edge, meta::type_list<P...>,
                                      meta::type_list<C...>,
                                      const Tuple& t) const {
    std::vector<std::vector<int64_t>> groups(edge.parent_size());
    for (int64_t i = 0; i < edge.child_size(); ++i) {
      auto p = edge.Parent(i);
      if (p.present) groups[p.value].push_back(i);
    }
    return [&]<size_t... PI, size_t... CI>(
               std::index_sequence<PI...>,
               std::index_sequence<CI...>) -> absl::StatusOr<DenseArray<ResT>> {
      constexpr size_t kP = sizeof...(P);
      if (((std::get<PI>(t).size() != edge.parent_size()) || ...) ||
          ((std::get<kP + CI>(t).size() != edge.child_size()) || ...)) {
        return SizeMismatchError({edge.parent_size(), edge.child_size()});
      }
      DenseArrayBuilder<ResT> b(Acc::IsAggregator() ? edge.parent_size()
                                                    : edge.child_size());
      Acc acc = acc_;
      for (int64_t g = 0; g < edge.parent_size(); ++g) {
        if (!(ops_mini::Ok<P>(std::get<PI>(t), g) && ...)) continue;
        acc.Reset(ops_mini::Get<P>(std::get<PI>(t), g)...);
        std::vector<int64_t> used;
        for (int64_t i : groups[g]) {
          if (!(ops_mini::Ok<C>(std::get<kP + CI>(t), i) && ...)) continue;
          acc.Add(ops_mini::Get<C>(std::get<kP + CI>(t), i)...);
          if constexpr (Acc::IsPartial()) b.Set(i, acc.GetResult());
          used.push_back(i);
        }
        if constexpr (Acc::IsAggregator()) b.Set(g, acc.GetResult());
        if constexpr (Acc::IsFull()) {
          acc.FinalizeFullGroup();
          for (int64_t i : used) b.Set(i, acc.GetResult());
        }
      }
      if (auto s = acc.GetStatus(); !s.ok()) return s;
      return std::move(b).Build();
    }(std::index_sequence_for<P...>(), std::index_sequence_for<C...>());
  }
  Acc acc_;
};

// ---- operators on arrays ----------------------------------------------------
struct DenseArrayEdgeSizesOp {
  absl::StatusOr<DenseArray<int64_t>> operator()(EvaluationContext*,
                                                 const DenseArrayEdge& e) const {
    std::vector<int64_t> n(e.parent_size(), 0);
    for (int64_t i = 0; i < e.child_size(); ++i) {
      if (auto p = e.Parent(i); p.present) n[p.value]++;
    }
    return CreateFullDenseArray<int64_t>(n);
  }
};
struct DenseArrayEdgeFromSizesOp {
  absl::StatusOr<DenseArrayEdge> operator()(EvaluationContext*,
                                            const DenseArray<int64_t>& n) const {
    if (!n.IsFull()) {
      return absl::InvalidArgumentError("operator edge.from_sizes expects no missing size values");
    }
    std::vector<int64_t> s{0};
    for (int64_t i = 0; i < n.size(); ++i) {
      if (n.values[i] < 0) {
        return absl::InvalidArgumentError("operator edge.from_sizes expects non-negative sizes");
      }
      s.push_back(s.back() + n.values[i]);
    }
    return DenseArrayEdge::FromSplitPoints(CreateFullDenseArray<int64_t>(s));
  }
};
struct DenseArrayPresentIndicesOp {
  DenseArray<int64_t> operator()(EvaluationContext*,
                                 const DenseArray<Unit>& m) const {
    std::vector<int64_t> r;
    for (int64_t i = 0; i < m.size(); ++i) {
      if (m.present(i)) r.push_back(i);
    }
    return CreateFullDenseArray<int64_t>(r);
  }
};
struct DenseArrayAtOp {
  template <typename T>
  DenseArray<T> operator()(EvaluationContext* ctx, const DenseArray<T>& a,
                           const DenseArray<int64_t>& idx) const {
    DenseArrayBuilder<T> b(idx.size());
    for (int64_t i = 0; i < idx.size(); ++i) {
      if (!idx.present(i)) continue;
      int64_t k = idx.values[i];
      if (k < 0 || k >= a.size()) {
        ctx->set_status(absl::InvalidArgumentError("array index out of range"));
        continue;
      }
      b.Set(i, a[k]);
    }
    return std::move(b).Build();
  }
};
struct DenseArrayFromIndicesAndValues {
  template <typename T>
  DenseArray<T> operator()(EvaluationContext* ctx,
                           const DenseArray<int64_t>& idx,
                           const DenseArray<T>& v, int64_t size) const {
    DenseArrayBuilder<T> b(size);
    if (idx.size() != v.size()) {
      ctx->set_status(SizeMismatchError({idx.size(), v.size()}));
      return std::move(b).Build();
    }
    for (int64_t i = 0; i < idx.size(); ++i) b.Set(idx.values[i], v[i]);
    return std::move(b).Build();
  }
};
struct DenseArrayExpandOp {
  template <typename T>
  absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*,
                                           const DenseArray<T>& a,
                                           const DenseArrayEdge& e) const {
    if (a.size() != e.parent_size()) {
      return SizeMismatchError({e.parent_size(), a.size()});
    }
    DenseArrayBuilder<T> b(e.child_size());
    for (int64_t i = 0; i < e.child_size(); ++i) {
      if (auto p = e.Parent(i); p.present) b.Set(i, a[p.value]);
    }
    return std::move(b).Build();
  }
};
struct DenseArrayGroupByOp {
  template <typename T>
  absl::StatusOr<DenseArrayEdge> operator()(EvaluationContext*,
                                            const DenseArray<T>& v,
                                            const DenseArrayEdge& over) const {
    if (v.size() != over.child_size()) {
      return SizeMismatchError({over.child_size(), v.size()});
    }
    std::vector<absl::flat_hash_map<T, int64_t>> seen(over.parent_size());
    DenseArrayBuilder<int64_t> b(v.size());
    int64_t next = 0;
    for (int64_t i = 0; i < over.child_size(); ++i) {
      auto p = over.Parent(i);
      if (!p.present || !v.present(i)) continue;
      auto [it, inserted] = seen[p.value].try_emplace(T(v.values[i]), next);
      next += inserted;
      b.Set(i, it->second);
    }
    return DenseArrayEdge::UnsafeFromMapping(std::move(b).Build(), next);
  }
};
struct DenseArrayIotaOp {
  DenseArray<int64_t> operator()(EvaluationContext*,
                                 OptionalValue<int64_t> size) const {
    int64_t n = size.value;
    std::vector<int64_t> v(n < 0 ? 0 : n);
    for (int64_t i = 0; i < n; ++i) v[i] = i;
    return CreateFullDenseArray<int64_t>(v);
  }
};
// Present values in the order of their first occurrence.
struct DenseArrayUniqueOp {
  template <typename T>
  DenseArray<T> operator()(EvaluationContext*, const DenseArray<T>& a) const {
    absl::flat_hash_set<T> seen;
    std::vector<int64_t> at;
    for (int64_t i = 0; i < a.size(); ++i) {
      if (a.present(i) && seen.insert(T(a.values[i])).second) at.push_back(i);
    }
    DenseArrayBuilder<T> b(at.size());
    for (size_t i = 0; i < at.size(); ++i) b.Set(i, a.values[at[i]]);
    return std::move(b).Build();
  }
};
struct DenseArrayHasOp {
  template <typename T>
  DenseArray<Unit> operator()(const DenseArray<T>& a) const {
    return a.ToMask();
  }
};
struct DenseArrayPresenceNotOp {
  template <typename T>
  DenseArray<Unit> operator()(EvaluationContext*, const DenseArray<T>& a) const {
    DenseArrayBuilder<Unit> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) {
      if (!a.present(i)) b.Set(i, Unit{});
    }
    return std::move(b).Build();
  }
};
struct DenseArrayPresenceAndOp {
  template <typename T>
  absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*,
                                           const DenseArray<T>& a,
                                           const DenseArray<Unit>& m) const {
    if (a.size() != m.size()) return SizeMismatchError({a.size(), m.size()});
    DenseArrayBuilder<T> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) {
      if (m.present(i)) b.Set(i, a[i]);
    }
    return std::move(b).Build();
  }
};
struct DenseArrayPresenceOrOp {
  template <typename T>
  absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*,
                                           const DenseArray<T>& a,
                                           const DenseArray<T>& c) const {
    if (a.size() != c.size()) return SizeMismatchError({a.size(), c.size()});
    DenseArrayBuilder<T> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) b.Set(i, a.present(i) ? a[i] : c[i]);
    return std::move(b).Build();
  }
  template <typename T>
  DenseArray<T> operator()(EvaluationContext*, const DenseArray<T>& a,
                           view_type_t<T> c) const {
    DenseArrayBuilder<T> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) {
      b.Set(i, a.present(i) ? view_type_t<T>(a.values[i]) : c);
    }
    return std::move(b).Build();
  }
  template <typename T, typename U>
    requires(std::is_same_v<U, OptionalValue<view_type_t<T>>>)
  DenseArray<T> operator()(EvaluationContext*, const DenseArray<T>& a,
                           const U& c) const {
    DenseArrayBuilder<T> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) b.Set(i, a.present(i) ? a[i] : c);
    return std::move(b).Build();
  }
};
struct MaskEqualOp {
  template <typename T>
  OptionalUnit operator()(const T& a, const T& b) const {
    return OptionalUnit(a == b);
  }
};

// ---- shapes -----------------------------------------------------------------
class JaggedDenseArrayShape {
 public:
  using Edge = DenseArrayEdge;
  using EdgeVec = std::vector<DenseArrayEdge>;
  using ShapePtr = JaggedDenseArrayShape;
  JaggedDenseArrayShape() = default;
  static JaggedDenseArrayShape Empty() { return {}; }
  static absl::StatusOr<JaggedDenseArrayShape> FromEdges(EdgeVec edges) {
    int64_t size = 1;
    EdgeVec v;
    for (size_t i = 0; i < edges.size(); ++i) {
      if (edges[i].parent_size() != size) {
        return absl::InvalidArgumentError(absl::StrFormat(
            "incompatible dimensions - edges[%d].parent_size != %d "
            "(prior edge's child_size)",
            i, size));
      }
      size = edges[i].child_size();
      ASSIGN_OR_RETURN(auto e, edges[i].ToSplitPointsEdge());
      v.push_back(std::move(e));
    }
    JaggedDenseArrayShape r;
    r.edges_ = std::move(v);
    return r;
  }
  static JaggedDenseArrayShape FlatFromSize(int64_t n,
                                            RawBufferFactory* = nullptr) {
    JaggedDenseArrayShape r;
    r.edges_.push_back(DenseArrayEdge::UnsafeFromSplitPoints(
        CreateFullDenseArray<int64_t>({0, n})));
    return r;
  }
  size_t rank() const { return edges_.size(); }
  int64_t size() const {
    return edges_.empty() ? 1 : edges_.back().child_size();
  }
  absl::Span<const DenseArrayEdge> edges() const { return edges_; }
  absl::StatusOr<JaggedDenseArrayShape> AddDims(
      absl::Span<const DenseArrayEdge> more) const {
    EdgeVec v(edges_.begin(), edges_.end());
    v.insert(v.end(), more.begin(), more.end());
    return FromEdges(std::move(v));
  }
  JaggedDenseArrayShape RemoveDims(size_t from) const {
    JaggedDenseArrayShape r;
    r.edges_ = EdgeVec(edges_.begin(), edges_.begin() + from);
    return r;
  }
  JaggedDenseArrayShape FlattenDims(size_t from, size_t to,
                                    RawBufferFactory* = nullptr) const {
    JaggedDenseArrayShape r;
    r.edges_ = EdgeVec(edges_.begin(), edges_.begin() + from);
    if (from == to) {
      // Inserts a uniform dimension of size 1.
      int64_t n = from == 0 ? 1 : edges_[from - 1].child_size();
      r.edges_.push_back(*DenseArrayEdge::FromUniformGroups(n, 1));
    } else {
      r.edges_.push_back(*DenseArrayEdge::ComposeEdges(
          absl::MakeConstSpan(edges_).subspan(from, to - from)));
    }
    r.edges_.insert(r.edges_.end(), edges_.begin() + to, edges_.end());
    return r;
  }
  bool IsEquivalentTo(const JaggedDenseArrayShape& o) const {
    return rank() == o.rank() && IsBroadcastableTo(o);
  }
  // Broadcasting is by prefix.
  bool IsBroadcastableTo(const JaggedDenseArrayShape& o) const {
    if (rank() > o.rank()) return false;
    for (size_t i = 0; i < rank(); ++i) {
      if (!edges_[i].IsEquivalentTo(o.edges_[i])) return false;
    }
    return true;
  }
  DenseArrayEdge GetBroadcastEdge(const JaggedDenseArrayShape& o,
                                  RawBufferFactory* = nullptr) const {
    if (rank() == o.rank()) {
      return *DenseArrayEdge::FromUniformGroups(size(), 1);
    }
    return *DenseArrayEdge::ComposeEdges(
        absl::MakeConstSpan(o.edges_).subspan(rank()));
  }
  friend bool operator==(const JaggedDenseArrayShape& a,
                         const JaggedDenseArrayShape& b) {
    return a.IsEquivalentTo(b);
  }
  void ArollaFingerprint(FingerprintHasher* h) const {
    h->Combine(edges_.size());
    for (const auto& e : edges_) h->Combine(e);
  }
  friend std::ostream& operator<<(std::ostream& o,
                                  const JaggedDenseArrayShape& s) {
    return o << Repr(s);
  }

 private:
  EdgeVec edges_;
};
// Flattens dimensions [from, to) with Python-like indices; inserts a dimension
// of size one when the range is empty.
template <typename Shape>
struct JaggedShapeFlattenOp {
  Shape operator()(const Shape& s, int64_t from,
                   OptionalValue<int64_t> to_opt) const {
    int64_t rank = s.rank();
    int64_t to = to_opt.present ? to_opt.value : rank;
    auto dim = [&](int64_t d) {
      if (d < 0) d += rank;
      return std::min(std::max<int64_t>(d, 0), rank);
    };
    from = dim(from);
    to = std::max(dim(to), from);
    return s.FlattenDims(from, to);
  }
};
using JaggedDenseArrayShapePtr = JaggedDenseArrayShape;
VERIF_BASE_QTYPE(DENSE_ARRAY_EDGE, DenseArrayEdge);
VERIF_BASE_QTYPE(JAGGED_DENSE_ARRAY_SHAPE, JaggedDenseArrayShape);
template <>
struct ReprTraits<JaggedDenseArrayShape> {
  ReprToken operator()(const JaggedDenseArrayShape& s) const {
    std::string r = "JaggedShape(";
    bool first = true;
    for (const auto& e : s.edges()) {
      if (!first) r += ", ";
      first = false;
      bool uniform = e.parent_size() > 0;
      for (int64_t i = 1; i < e.parent_size(); ++i) {
        uniform &= e.split_size(i) == e.split_size(0);
      }
      if (uniform) {
        absl::StrAppend(&r, e.split_size(0));
        continue;
      }
      r += "[";
      for (int64_t i = 0; i < e.parent_size(); ++i) {
        absl::StrAppend(&r, i ? ", " : "", e.split_size(i));
      }
      r += "]";
    }
    return ReprToken(r + ")");
  }
};
}  // namespace arolla
#endif
