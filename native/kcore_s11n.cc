// Commands of the kcore driver: serialized values.
#include <list>

#include "arolla/mini/s11n.h"
#include "kcore_slices.h"
#include "koladata/data_slice_qtype.h"
#include "koladata/internal/ellipsis.h"
#include "koladata/internal/non_deterministic_token.h"
#include "koladata/jagged_shape_qtype.h"
#include "koladata/s11n/codec.pb.h"

namespace kapp {
namespace {
using ::arolla::TypedValue;
using ::arolla::serialization_base::VerifContainer;
using ::koladata::s11n::KodaV1Proto;

Regs<std::string>& Blobs() {
  static auto* r = new Regs<std::string>('%');
  return *r;
}
struct FromImplTag {
  using Fn = DataBagPtr (*)(DataBagImplPtr);
  friend Fn Get(FromImplTag);
};
template <typename Tag, typename Tag::Fn F>
struct Access {
  friend typename Tag::Fn Get(Tag) { return F; }
};
template struct Access<FromImplTag, &DataBag::FromImpl>;

std::vector<std::pair<std::string, arolla::QTypePtr>> Types() {
  return {{"slice", arolla::GetQType<DataSlice>()},
          {"bag", arolla::GetQType<DataBagPtr>()},
          {"shape", koladata::GetJaggedShapeQType()},
          {"ellipsis", arolla::GetQType<Ellipsis>()},
          {"token", arolla::GetQType<NonDeterministicToken>()}};
}

TypedValue Value(const std::string& w) {
  if (w[0] == '$') return TypedValue::FromValue(Slices().Get(w));
  if (w[0] == '@') return TypedValue::FromValue(GetBag(w));
  if (w == "...") return TypedValue::FromValue(Ellipsis());
  const std::string rest = w.size() > 2 ? w.substr(2) : "";
  if (w[1] != ':') throw Bad("value " + w);
  switch (w[0]) {
    case 'I':
      return TypedValue::FromValue(ParseItem(rest));
    case 'V':
      return TypedValue::FromValue(ParseItems(rest));
    case 'B':
      return TypedValue::FromValue(ParseShape(rest));
    case 'S':
      return arolla::UnsafeDowncastDerivedQValue(
          koladata::GetJaggedShapeQType(),
          TypedValue::FromValue(ParseShape(rest)));
    case 'T':
      for (auto& [n, t] : Types()) {
        if (n == rest) return TypedValue::FromValue(t);
      }
  }
  throw Bad("value " + w);
}

std::string Name(const TypedValue& v) {
  auto t = v.GetType();
  if (t == arolla::GetQType<DataSlice>()) {
    return PutS(v.UnsafeAs<DataSlice>());
  }
  if (t == arolla::GetQType<DataBagPtr>()) {
    return BagKey(v.UnsafeAs<DataBagPtr>());
  }
  if (t == arolla::GetQType<Ellipsis>()) return "...";
  if (t == arolla::GetQType<DataItem>()) {
    return "I:" + ItemStr(v.UnsafeAs<DataItem>());
  }
  if (t == arolla::GetQType<DataSliceImpl>()) {
    return "V:" + ItemsWithRemovedStr(v.UnsafeAs<DataSliceImpl>());
  }
  if (t == arolla::GetQType<arolla::JaggedDenseArrayShape>()) {
    return "B:" + ShapeStr(v.UnsafeAs<arolla::JaggedDenseArrayShape>());
  }
  if (t == koladata::GetJaggedShapeQType()) {
    return "S:" + ShapeStr(v.UnsafeAs<arolla::JaggedDenseArrayShape>());
  }
  if (t == arolla::GetQType<arolla::QTypePtr>()) {
    for (auto& [n, q] : Types()) {
      if (q == v.UnsafeAs<arolla::QTypePtr>()) return "T:" + n;
    }
  }
  throw Bad("type " + std::string(t->name()));
}

VerifContainer Parse(const std::string& blob) {
  VerifContainer c;
  if (!c.ParseFromString(blob)) throw Bad("not a container");
  return c;
}

// z.enc values... -> blob
CMD("z.enc") {
  arolla::serialization_base::Encoder e;
  std::vector<uint64_t> out;
  while (a.more()) out.push_back(Ok(e.EncodeValue(Value(a.str()))));
  for (uint64_t i : out) e.container().add_outputs(i);
  return Blobs().Put(e.container().SerializeAsString());
} END
CMD("z.dec") {
  std::string r;
  for (const TypedValue& v :
       Ok(arolla::serialization_base::DecodeContainer(
           Parse(Blobs().Get(a.str()))))) {
    r += (r.empty() ? "" : " ") + Name(v);
  }
  return r;
} END
CMD("z.bytes") { return Pct(Blobs().Get(a.str())); } END
CMD("z.blob") { return Blobs().Put(UnPct(a.str())); } END
CMD("z.size") { return std::to_string(Blobs().Get(a.str()).size()); } END
// Extra parts of the compact slices of the container.
CMD("z.parts") {
  int64_t n = 0;
  VerifContainer c = Parse(Blobs().Get(a.str()));
  for (const auto& v : c.values()) {
    n += v.GetExtension(KodaV1Proto::extension)
             .data_slice_impl_value()
             .data_slice_compact()
             .extra_part_count();
  }
  return std::to_string(n);
} END
// Attributes whose values are stored together with other equal values:
// "id:attr" of the objects.
CMD("z.shared") {
  VerifContainer c = Parse(Blobs().Get(a.str()));
  std::vector<int64_t> uses(c.values_size());
  for (const auto& v : c.values()) {
    for (uint64_t i : v.input_value_indices()) ++uses[i];
  }
  for (uint64_t i : c.outputs()) ++uses[i];
  std::string r;
  for (const auto& v : c.values()) {
    const auto& e = v.GetExtension(KodaV1Proto::extension);
    for (const auto& attr : e.data_bag_value().attrs()) {
      for (const auto& chunk : attr.chunks()) {
        uint64_t i = v.input_value_indices(chunk.values_subindex());
        const auto& w = c.values(i).GetExtension(KodaV1Proto::extension);
        if (uses[i] < 2 || !w.has_data_slice_impl_value()) continue;
        AllocationId id(ObjectId::UnsafeCreateFromInternalHighLow(
            chunk.first_object_id().hi(), chunk.first_object_id().lo()));
        size_t n = w.data_slice_impl_value().data_slice_compact()
                       .types_buffer().size();
        for (size_t k = 0; k < n; ++k) {
          r += (r.empty() ? "" : " ") + IdStr(id.ObjectByOffset(k)) + ":" +
               Pct(attr.name());
        }
      }
    }
  }
  return r;
} END
CMD("z.frombag") {
  return BagKey(Get(FromImplTag())(Bags().Get(a.str()).impl));
} END
CMD("z.fp") { return B(a)->fingerprint().AsString(); } END
CMD("z.fps") {
  return TypedValue::FromValue(S(a)).GetFingerprint().AsString();
} END
CMD("z.whole") { return S(a).IsWhole() ? "1" : "0"; } END
// The values of a slice; removed ones as 'r'.
CMD("z.items") {
  const DataSlice& s = S(a);
  return s.is_item() ? ItemStr(s.item()) : ItemsWithRemovedStr(s.slice());
} END
// z.big size runs... : a slice of values that depend on their index.
// run: <count><kind>, repeated until the slice is full.
DataItem BigItem(char kind, int64_t i, AllocationId al) {
  uint64_t h = (i + 1) * 0x9e3779b97f4a7c15ull;
  switch (kind) {
    case 'i': return DataItem(static_cast<int32_t>(h >> 32));
    case 'l': return DataItem(static_cast<int64_t>(h));
    case 'f': return DataItem(static_cast<float>(i) / 3);
    case 'd': return DataItem(static_cast<double>(i) / 7);
    case 'b': return DataItem(h % 3 == 0);
    case 'p': return DataItem(arolla::kUnit);
    case 't': return DataItem(arolla::Text("t" + std::to_string(h)));
    case 'T': return DataItem(arolla::Text(std::string(i % 4096, 'x')));
    case 'y': return DataItem(arolla::Bytes("\xff" + std::to_string(i)));
    case 'Y': return DataItem(arolla::Bytes(std::string(i % 1000, '\0')));
    case 'o': return DataItem(al.ObjectByOffset(i));
    case 'O': return DataItem(ObjectId::UnsafeCreateFromInternalHighLow(
        al.ObjectByOffset(0).InternalHigh64(),
        al.ObjectByOffset(0).InternalLow64() + h % al.Capacity()));
    case 's': return DataItem(koladata::schema::kInt32);
    case '_': return DataItem();
  }
  throw Bad("kind");
}
struct Big {
  int64_t n;
  std::vector<std::pair<int64_t, char>> runs;
  AllocationId al;
  explicit Big(Args& a) : n(a.num()) {
    al = AllocationId(ParseId(a.str()));
    while (a.more()) {
      const std::string& w = a.str();
      runs.push_back({std::stoll(w), w.back()});
    }
  }
  template <typename F>
  void Each(F f) const {
    for (int64_t i = 0, k = 0; i < n; ++k) {
      auto [c, t] = runs[k % runs.size()];
      for (int64_t j = 0; j < c && i < n; ++j, ++i) f(i, t);
    }
  }
};
CMD("z.big") {
  Big g(a);
  SliceBuilder b(g.n);
  g.Each([&](int64_t i, char t) {
    b.InsertIfNotSetAndUpdateAllocIds(i, BigItem(t, i, g.al));
  });
  return PutS(DataSlice::Create(std::move(b).Build(),
                                DataSlice::JaggedShape::FlatFromSize(g.n),
                                DataItem(koladata::schema::kObject)));
} END
// z.bigcheck slice size ...: the first index where it differs.
CMD("z.bigcheck") {
  const DataSlice& s = S(a);
  Big g(a);
  if (s.size() != g.n) return "size " + std::to_string(s.size());
  std::string r;
  g.Each([&](int64_t i, char t) {
    if (!r.empty()) return;
    DataItem x = s.slice()[i], y = BigItem(t, i, g.al);
    std::string u = ItemStr(x), v = ItemStr(y);
    if (u != v) {
      r = std::to_string(i) + " " + u.substr(0, 99) + " " + v.substr(0, 99);
    } else if (x.holds_value<ObjectId>() &&
               !Covers(s.slice().allocation_ids(), x.value<ObjectId>())) {
      r = std::to_string(i) + " untracked";
    }
  });
  return r.empty() ? "ok" : r;
} END
}  // namespace
}  // namespace kapp
