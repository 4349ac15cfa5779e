// Slice and bag registers of the kcore driver.
#ifndef VERIF_KCORE_SLICES_H_
#define VERIF_KCORE_SLICES_H_
#include "kcore_regs.h"
#include "koladata/data_bag.h"
#include "koladata/data_slice.h"

namespace kapp {
using koladata::DataBag;
using koladata::DataBagPtr;
using koladata::DataSlice;

inline Regs<DataSlice>& Slices() {
  static auto* r = new Regs<DataSlice>('$');
  return *r;
}
inline Regs<DataBagPtr>& PubBags() {
  static auto* r = new Regs<DataBagPtr>('@');
  return *r;
}
inline std::map<const DataBag*, std::string>& BagNames() {
  static auto* r = [] {
    auto* m = new std::map<const DataBag*, std::string>();
    Resets().push_back([m] { m->clear(); });
    return m;
  }();
  return *r;
}
// The register of the bag: one per bag.
inline std::string BagKey(const DataBagPtr& b) {
  if (b == nullptr) throw Bad("no bag");
  auto& names = BagNames();
  auto it = names.find(b.get());
  if (it != names.end()) return it->second;
  return names[b.get()] = PubBags().Put(b);
}
inline DataBagPtr GetBag(const std::string& k) { return PubBags().Get(k); }
inline void DropBag(const std::string& k) {
  BagNames().erase(PubBags().Get(k).get());
  PubBags().Drop(k);
}

inline const DataSlice& S(Args& a) { return Slices().Get(a.str()); }
inline DataBagPtr B(Args& a) { return GetBag(a.str()); }
inline std::optional<DataSlice> OptS(Args& a) {
  const std::string& w = a.str();
  if (w == "-") return std::nullopt;
  return Slices().Get(w);
}
inline DataBagPtr OptBag(Args& a) {
  const std::string& w = a.str();
  if (w == "-") return nullptr;
  return GetBag(w);
}
inline std::optional<int64_t> OptNum(Args& a) {
  const std::string& w = a.str();
  if (w == "-") return std::nullopt;
  return std::stoll(w);
}
inline std::vector<DataSlice> RestS(Args& a) {
  std::vector<DataSlice> v;
  while (a.more()) v.push_back(S(a));
  return v;
}
inline std::string PutS(DataSlice s) { return Slices().Put(std::move(s)); }
inline std::string PutS(absl::StatusOr<DataSlice> s) {
  return Slices().Put(Ok(std::move(s)));
}
inline std::string PutAll(const std::vector<DataSlice>& v) {
  std::string r;
  for (const DataSlice& s : v) r += (r.empty() ? "" : " ") + PutS(s);
  return r.empty() ? "." : r;
}
// "n name value name value ..."
struct Attrs {
  std::vector<std::string> keep;
  std::vector<absl::string_view> names;
  std::vector<DataSlice> values;
  explicit Attrs(Args& a) {
    int64_t n = a.num();
    for (int64_t i = 0; i < n; ++i) {
      keep.push_back(UnPct(a.str()));
      values.push_back(S(a));
    }
    for (const auto& k : keep) names.push_back(k);
  }
};

// "schema shape items"
inline std::string Show(const DataSlice& s) {
  std::string items =
      s.is_item() ? ItemStr(s.item()) : ItemsStr(s.slice());
  return ItemStr(s.GetSchemaImpl()) + " " + ShapeStr(s.GetShape()) + " " +
         items;
}
}  // namespace kapp
#endif
