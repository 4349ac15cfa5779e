// Text form of Koda values for the pipe protocol of the kcore driver.
//
// A token has no spaces.  Items:
//   _            missing
//   i5 l5        int32, int64
//   f<hex> d<hex>  float32, float64 (bits)
//   b0 b1        bool
//   p            mask
//   t.. y.. e..  text, bytes, expression (percent-encoded)
//   o<kind><hex> ObjectId; kind: a/u (allocated/uuid) and e/l/d/x/i/n
//                (entity, list, dict, explicit, implicit, no-follow schema)
//   s<NAME>      dtype
// Shapes: '-' for a scalar, else edges joined by '/', each the group sizes
// joined by ','.  Item lists: joined by ','; '.' when empty.
#ifndef VERIF_KCORE_IO_H_
#define VERIF_KCORE_IO_H_
#include <cstdio>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_split.h"
#include "absl/strings/strip.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/expr/quote.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/util/bytes.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "koladata/internal/data_item.h"
#include "koladata/internal/data_slice.h"
#include "koladata/internal/dtype.h"
#include "koladata/internal/object_id.h"
#include "koladata/internal/op_utils/presence_and.h"
#include "koladata/internal/slice_builder.h"

namespace kio {
using koladata::internal::AllocationId;
using koladata::internal::DataItem;
using koladata::internal::DataSliceImpl;
using koladata::internal::ObjectId;
using koladata::internal::SliceBuilder;
using koladata::schema::DType;
using Shape = arolla::JaggedDenseArrayShape;

// A request that the driver does not understand: a mistake of the harness.
struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};

inline std::string Pct(absl::string_view s) {
  std::string r;
  char buf[4];
  for (unsigned char c : s) {
    if (isalnum(c) || c == '_' || c == '-') {
      r += c;
    } else {
      snprintf(buf, 4, "%%%02x", c);
      r += buf;
    }
  }
  return r;
}
inline std::string UnPct(absl::string_view s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%') {
      r += static_cast<char>(
          std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

inline std::string IdStr(ObjectId id) {
  char buf[40];
  char kind = '?';
  if (id.IsEntity()) kind = 'e';
  else if (id.IsList()) kind = 'l';
  else if (id.IsDict()) kind = 'd';
  else if (id.IsNoFollowSchema()) kind = 'n';
  else if (id.IsExplicitSchema()) kind = 'x';
  else if (id.IsImplicitSchema()) kind = 'i';
  snprintf(buf, sizeof(buf), "o%c%c%016llx%016llx", id.IsUuid() ? 'u' : 'a',
           kind, static_cast<unsigned long long>(id.InternalHigh64()),
           static_cast<unsigned long long>(id.InternalLow64()));
  return buf;
}
inline ObjectId ParseId(absl::string_view t) {
  if (t.size() != 35 || t[0] != 'o') throw Bad("id " + std::string(t));
  return ObjectId::UnsafeCreateFromInternalHighLow(
      std::stoull(std::string(t.substr(3, 16)), nullptr, 16),
      std::stoull(std::string(t.substr(19, 16)), nullptr, 16));
}
inline std::map<std::string, DType, std::less<>> DTypes() {
  std::map<std::string, DType, std::less<>> r;
  for (int i = 0; i < koladata::schema::kNextDTypeId; ++i) {
    if (i == 9) continue;
    DType d = DType::UnsafeFromId(i);
    r.emplace(std::string(d.name()), d);
  }
  return r;
}

inline std::string ItemStr(const DataItem& item) {
  return item.VisitValue([](const auto& v) -> std::string {
    using T = std::decay_t<decltype(v)>;
    char buf[32];
    if constexpr (std::is_same_v<T, koladata::internal::MissingValue>) {
      return "_";
    } else if constexpr (std::is_same_v<T, ObjectId>) {
      return IdStr(v);
    } else if constexpr (std::is_same_v<T, int32_t>) {
      return "i" + std::to_string(v);
    } else if constexpr (std::is_same_v<T, int64_t>) {
      return "l" + std::to_string(v);
    } else if constexpr (std::is_same_v<T, float>) {
      uint32_t b;
      memcpy(&b, &v, 4);
      if (v != v) b = 0x7fc00000;
      snprintf(buf, sizeof(buf), "f%08x", b);
      return buf;
    } else if constexpr (std::is_same_v<T, double>) {
      uint64_t b;
      memcpy(&b, &v, 8);
      if (v != v) b = 0x7ff8000000000000;
      snprintf(buf, sizeof(buf), "d%016llx",
               static_cast<unsigned long long>(b));
      return buf;
    } else if constexpr (std::is_same_v<T, bool>) {
      return v ? "b1" : "b0";
    } else if constexpr (std::is_same_v<T, arolla::Unit>) {
      return "p";
    } else if constexpr (std::is_same_v<T, arolla::Text>) {
      return "t" + Pct(v.view());
    } else if constexpr (std::is_same_v<T, arolla::Bytes>) {
      return "y" + Pct(absl::string_view(v));
    } else if constexpr (std::is_same_v<T, arolla::expr::ExprQuote>) {
      if (!v.has_expr()) return "e%21";
      absl::string_view text = v->get()->text;
      absl::ConsumePrefix(&text, "L.");
      return "e" + Pct(text);
    } else if constexpr (std::is_same_v<T, DType>) {
      return "s" + std::string(v.name());
    } else {
      return "?";
    }
  });
}

inline DataItem ParseItem(absl::string_view t) {
  if (t.empty()) throw Bad("empty item");
  std::string rest(t.substr(1));
  switch (t[0]) {
    case '_':
      return DataItem();
    case 'i':
      return DataItem(static_cast<int32_t>(std::stol(rest)));
    case 'l':
      return DataItem(static_cast<int64_t>(std::stoll(rest)));
    case 'f': {
      uint32_t b = std::stoul(rest, nullptr, 16);
      float v;
      memcpy(&v, &b, 4);
      return DataItem(v);
    }
    case 'd': {
      uint64_t b = std::stoull(rest, nullptr, 16);
      double v;
      memcpy(&v, &b, 8);
      return DataItem(v);
    }
    case 'b':
      return DataItem(rest == "1");
    case 'p':
      return DataItem(arolla::kUnit);
    case 't':
      return DataItem(arolla::Text(UnPct(rest)));
    case 'y':
      return DataItem(arolla::Bytes(UnPct(rest)));
    case 'e':
      return DataItem(arolla::expr::ExprQuote(arolla::expr::Leaf(UnPct(rest))));
    case 'o':
      return DataItem(ParseId(t));
    case 's': {
      static const auto* types =
          new std::map<std::string, DType, std::less<>>(DTypes());
      auto it = types->find(rest);
      if (it == types->end()) throw Bad("dtype " + rest);
      return DataItem(it->second);
    }
    default:
      throw Bad("item " + std::string(t));
  }
}

// The ids of a slice have to be covered by its allocation_ids: other operations
// only look there.
inline bool Covers(const koladata::internal::AllocationIdSet& set, ObjectId id) {
  if (id.IsSmallAlloc()) return set.contains_small_allocation_id();
  koladata::internal::AllocationId a(id);
  for (const auto& x : set) {
    if (x == a) return true;
  }
  return false;
}
inline std::string ItemsStr(const DataSliceImpl& s) {
  if (s.size() == 0) return ".";
  std::string r;
  for (int64_t i = 0; i < s.size(); ++i) {
    if (i) r += ',';
    DataItem x = s[i];
    r += ItemStr(x);
    if (x.holds_value<ObjectId>() &&
        !Covers(s.allocation_ids(), x.value<ObjectId>())) {
      r += "!untracked";
    }
  }
  return r;
}
inline std::string ItemsStr(const std::vector<DataItem>& s) {
  if (s.empty()) return ".";
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (i) r += ',';
    r += ItemStr(s[i]);
  }
  return r;
}
inline std::vector<DataItem> ParseItemVec(absl::string_view t) {
  std::vector<DataItem> v;
  if (t == ".") return v;
  for (absl::string_view x : absl::StrSplit(t, ',')) v.push_back(ParseItem(x));
  return v;
}
// The slice as the result of masking one that has other values in place of the
// missing ones.
inline DataSliceImpl MaskedItems(const std::vector<DataItem>& v) {
  std::vector<DataItem> present;
  for (const DataItem& x : v) {
    if (x.has_value()) present.push_back(x);
  }
  if (present.empty()) return DataSliceImpl::Create(v);
  SliceBuilder b(v.size());
  arolla::DenseArrayBuilder<arolla::Unit> mask(v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i].has_value()) mask.Set(i, arolla::kUnit);
    b.InsertIfNotSetAndUpdateAllocIds(
        i, v[i].has_value() ? v[i] : present[i % present.size()]);
  }
  auto r = koladata::internal::PresenceAndOp()(
      std::move(b).Build(), DataSliceImpl::Create(std::move(mask).Build()));
  if (!r.ok()) throw Bad("mask");
  return *std::move(r);
}
// A leading '^' builds through a mask, '~' builds through DataSliceImpl::Create instead of the builder.
// '@<id>:<n>' is the first n objects of an allocation.
inline DataSliceImpl ParseItems(absl::string_view t) {
  if (absl::StartsWith(t, "@")) {
    std::vector<std::string> p = absl::StrSplit(t.substr(1), ':');
    return DataSliceImpl::ObjectsFromAllocation(AllocationId(ParseId(p[0])),
                                                std::stoll(p[1]));
  }
  if (absl::StartsWith(t, "~")) {
    return DataSliceImpl::Create(ParseItemVec(t.substr(1)));
  }
  if (absl::StartsWith(t, "^")) return MaskedItems(ParseItemVec(t.substr(1)));
  std::vector<DataItem> v = ParseItemVec(t);
  SliceBuilder b(v.size());
  for (size_t i = 0; i < v.size(); ++i) b.InsertIfNotSetAndUpdateAllocIds(i, v[i]);
  return std::move(b).Build();
}

// Like ItemsStr, with removed values (as opposed to unset ones) shown as 'r'.
inline std::string ItemsWithRemovedStr(const DataSliceImpl& s) {
  if (s.size() == 0) return ".";
  const auto& tb = s.types_buffer();
  std::string r;
  for (int64_t i = 0; i < s.size(); ++i) {
    if (i) r += ',';
    DataItem x = s[i];
    if (x.has_value()) {
      r += ItemStr(x);
    } else if (tb.size() == 0 ||
               tb.id_to_typeidx[i] == koladata::internal::TypesBuffer::kRemoved) {
      r += 'r';
    } else {
      r += '_';
    }
  }
  return r;
}

inline std::string EdgeStr(const arolla::DenseArrayEdge& e) {
  if (e.parent_size() == 0) return ".";
  std::string r;
  for (int64_t i = 0; i < e.parent_size(); ++i) {
    if (i) r += ',';
    r += std::to_string(e.split_size(i));
  }
  return r;
}
inline arolla::DenseArrayEdge ParseEdge(absl::string_view t) {
  std::vector<int64_t> sp{0};
  if (t != ".") {
    for (absl::string_view x : absl::StrSplit(t, ',')) {
      sp.push_back(sp.back() + std::stoll(std::string(x)));
    }
  }
  auto e = arolla::DenseArrayEdge::FromSplitPoints(
      arolla::CreateFullDenseArray<int64_t>(sp));
  if (!e.ok()) throw Bad("edge " + std::string(t));
  return *std::move(e);
}
inline std::string ShapeStr(const Shape& s) {
  if (s.rank() == 0) return "-";
  std::string r;
  for (const auto& e : s.edges()) {
    if (!r.empty()) r += '/';
    r += EdgeStr(e);
  }
  return r;
}
inline Shape ParseShape(absl::string_view t) {
  if (t == "-") return Shape::Empty();
  Shape::EdgeVec edges;
  for (absl::string_view x : absl::StrSplit(t, '/')) {
    edges.push_back(ParseEdge(x));
  }
  auto s = Shape::FromEdges(std::move(edges));
  if (!s.ok()) throw Bad("shape " + std::string(t));
  return *std::move(s);
}
inline arolla::DenseArray<int64_t> ParseInts(absl::string_view t) {
  std::vector<arolla::OptionalValue<int64_t>> v;
  for (const DataItem& d : ParseItemVec(t)) {
    if (d.holds_value<int64_t>()) {
      v.push_back(d.value<int64_t>());
    } else {
      v.push_back({});
    }
  }
  return arolla::CreateDenseArray<int64_t>(v);
}
inline std::string IntsStr(const arolla::DenseArray<int64_t>& a) {
  if (a.size() == 0) return ".";
  std::string r;
  for (int64_t i = 0; i < a.size(); ++i) {
    if (i) r += ',';
    r += a.present(i) ? "l" + std::to_string(a.values[i]) : "_";
  }
  return r;
}
}  // namespace kio
#endif
