// Driver commands over internal::DataBagImpl.
#include "kcore_app.h"
#include "kcore_regs.h"
#include "koladata/internal/data_bag.h"
#include "koladata/internal/schema_attrs.h"
#include "koladata/internal/triples.h"
#include "koladata/internal/uuid_object.h"

namespace {
using namespace koladata::internal;  // NOLINT
using namespace kapp;                // NOLINT
using namespace kio;                 // NOLINT

// "#0" or "#0,#1,#2": the bag and its fallbacks, in order.
struct Target {
  DataBagImpl* bag;
  std::vector<const DataBagImpl*> fb;
  explicit Target(Args& a) {
    bool first = true;
    for (absl::string_view k : absl::StrSplit(a.str(), ',')) {
      DataBagImpl* p = Bags().Get(std::string(k)).impl.get();
      if (first) {
        bag = p;
      } else {
        fb.push_back(p);
      }
      first = false;
    }
  }
};

DataItem Item(Args& a) { return ParseItem(a.str()); }
DataSliceImpl Slice(Args& a) { return ParseItems(a.str()); }

DataBagImpl::ListRange Range(Args& a) {
  int64_t from = a.num();
  const std::string& to = a.str();
  if (to == "-") return DataBagImpl::ListRange(from);
  return DataBagImpl::ListRange(from, std::stoll(to));
}

template <typename P>
std::string WithEdge(const P& p) {
  return ItemsStr(p.first) + " " + EdgeStr(p.second);
}

MergeOptions Options(Args& a) {
  auto one = [](char c) {
    switch (c) {
      case 'r':
        return MergeOptions::kRaiseOnConflict;
      case 'k':
        return MergeOptions::kKeepOriginal;
      case 'o':
        return MergeOptions::kOverwrite;
      default:
        throw Bad("policy");
    }
  };
  const std::string& s = a.str();
  return {.data_conflict_policy = one(s[0]), .schema_conflict_policy = one(s[1])};
}

CMD("slice") { return ItemsStr(Slice(a)); } END

CMD("i.new") { return Bags().Put({DataBagImpl::CreateEmptyDatabag()}); } END
CMD("i.fork") {
  return Bags().Put({Target(a).bag->PartiallyPersistentFork()});
} END
CMD("i.drop") {
  Bags().Drop(a.str());
  return "";
} END
CMD("i.freeze") {
  Target(a).bag->Freeze();
  return "";
} END
CMD("i.empty") { return Target(a).bag->IsEmpty() ? "1" : "0"; } END
CMD("i.pristine") { return Target(a).bag->IsPristine() ? "1" : "0"; } END
CMD("i.dump") { return Dump(*Target(a).bag); } END
// Content of a part: "a" (no dicts and lists), "l", "d" of the index.
CMD("i.dumppart") {
  Target t(a);
  DataBagIndex index = t.bag->CreateIndex();
  const std::string& parts = a.str();
  if (parts.find('a') == std::string::npos) index.attrs.clear();
  if (parts.find('l') == std::string::npos) index.lists.clear();
  if (parts.find('d') == std::string::npos) index.dicts.clear();
  return Dump(*t.bag, &index);
} END
CMD("i.stats") {
  DataBagStatistics s = Ok(Target(a).bag->GetStatistics());
  std::string r = absl::StrCat(
      s.total_non_empty_lists, " ", s.total_items_in_lists, " ",
      s.total_non_empty_dicts, " ", s.total_items_in_dicts, " ",
      s.total_explicit_schemas, " ", s.total_explicit_schema_attrs, " ",
      s.entity_and_object_count);
  std::map<std::string, size_t> m(s.attr_values_sizes.begin(),
                                  s.attr_values_sizes.end());
  for (auto& [k, v] : m) absl::StrAppend(&r, " ", Pct(k), "=", v);
  return r;
} END
CMD("i.size") {
  Target t(a);
  return absl::StrCat(t.bag->GetApproxTotalSize(), " ",
                      t.bag->GetApproxTotalByteSize());
} END

// ---- attributes
CMD("i.get") {
  Target t(a);
  DataSliceImpl o = Slice(a);
  return ItemsStr(Ok(t.bag->GetAttr(o, UnPct(a.str()), t.fb)));
} END
CMD("i.getrm") {
  Target t(a);
  DataSliceImpl o = Slice(a);
  return ItemsWithRemovedStr(
      Ok(t.bag->GetAttrWithRemoved(o, UnPct(a.str()), t.fb)));
} END
CMD("i.getalloc") {
  Target t(a);
  DataSliceImpl o = Slice(a);
  std::string attr = UnPct(a.str());
  bool full = a.flag();
  return ItemsWithRemovedStr(
      Ok(t.bag->GetMaybeFullAllocAttrWithRemoved(o, attr, t.fb, full)));
} END
CMD("i.get1") {
  Target t(a);
  DataItem o = Item(a);
  return ItemStr(Ok(t.bag->GetAttr(o, UnPct(a.str()), t.fb)));
} END
CMD("i.getrm1") {
  Target t(a);
  ObjectId o = ParseId(a.str());
  auto r = t.bag->GetAttrWithRemoved(o, UnPct(a.str()), t.fb);
  return !r.has_value() ? "_" : r->has_value() ? ItemStr(*r) : "r";
} END
CMD("i.set") {
  Target t(a);
  DataSliceImpl o = Slice(a);
  std::string attr = UnPct(a.str());
  Ok(t.bag->SetAttr(o, attr, Slice(a)));
  return "";
} END
CMD("i.set1") {
  Target t(a);
  DataItem o = Item(a);
  std::string attr = UnPct(a.str());
  Ok(t.bag->SetAttr(o, attr, Item(a)));
  return "";
} END
CMD("i.setunit") {
  Target t(a);
  DataSliceImpl o = Slice(a);
  return ItemsStr(Ok(
      t.bag->InternalSetUnitAttrAndReturnMissingObjects(o, UnPct(a.str()))));
} END
// Values of a whole allocation; 'r' removes and '_' keeps.
CMD("i.setfull") {
  Target t(a);
  AllocationId alloc(ParseId(a.str()));
  std::string attr = UnPct(a.str());
  std::vector<std::string> v = absl::StrSplit(a.str(), ',');
  SliceBuilder b(v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i] == "_") continue;
    b.InsertIfNotSetAndUpdateAllocIds(i,
                                      v[i] == "r" ? DataItem() : ParseItem(v[i]));
  }
  Ok(t.bag->SetAttrFullAlloc(alloc, attr, std::move(b).Build()));
  return "";
} END
// New objects: attr=items ...
CMD("i.create") {
  Target t(a);
  std::vector<std::string> names;
  std::vector<DataSliceImpl> slices;
  while (a.more()) {
    std::vector<std::string> p = absl::StrSplit(a.str(), '=');
    names.push_back(UnPct(p[0]));
    slices.push_back(ParseItems(p[1]));
  }
  std::vector<absl::string_view> nv(names.begin(), names.end());
  std::vector<std::reference_wrapper<const DataSliceImpl>> sv(slices.begin(),
                                                              slices.end());
  return ItemsStr(Ok(t.bag->CreateObjectsFromFields(nv, sv)));
} END
CMD("i.objschema") {
  Target t(a);
  return ItemsStr(Ok(t.bag->GetObjSchemaAttr(Slice(a), t.fb)));
} END

// ---- lists
CMD("i.lsize") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  bool zero = !a.more() || a.flag();
  return IntsStr(Ok(t.bag->GetListSize(l, t.fb, zero)));
} END
CMD("i.lget") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  return ItemsStr(Ok(t.bag->GetFromLists(l, ParseInts(a.str()), t.fb)));
} END
CMD("i.lpop") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  return ItemsStr(Ok(t.bag->PopFromLists(l, ParseInts(a.str()))));
} END
CMD("i.lexplode") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  return WithEdge(Ok(t.bag->ExplodeLists(l, Range(a), t.fb)));
} END
CMD("i.lset") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  auto idx = ParseInts(a.str());
  Ok(t.bag->SetInLists(l, idx, Slice(a)));
  return "";
} END
CMD("i.lappend") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  Ok(t.bag->AppendToList(l, Slice(a)));
  return "";
} END
CMD("i.lextend") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  DataSliceImpl v = Slice(a);
  Ok(t.bag->ExtendLists(l, v, ParseEdge(a.str())));
  return "";
} END
CMD("i.lreplace") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  auto range = Range(a);
  DataSliceImpl v = Slice(a);
  Ok(t.bag->ReplaceInLists(l, range, v, ParseEdge(a.str())));
  return "";
} END
CMD("i.lremove") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  Ok(t.bag->RemoveInList(l, Range(a)));
  return "";
} END
CMD("i.lremoveidx") {
  Target t(a);
  DataSliceImpl l = Slice(a);
  Ok(t.bag->RemoveInList(l, ParseInts(a.str())));
  return "";
} END
CMD("i.lsize1") {
  Target t(a);
  return ItemStr(Ok(t.bag->GetListSize(Item(a), t.fb)));
} END
CMD("i.lget1") {
  Target t(a);
  DataItem l = Item(a);
  return ItemStr(Ok(t.bag->GetFromList(l, a.num(), t.fb)));
} END
CMD("i.lpop1") {
  Target t(a);
  DataItem l = Item(a);
  return ItemStr(Ok(t.bag->PopFromList(l, a.num())));
} END
CMD("i.lexplode1") {
  Target t(a);
  DataItem l = Item(a);
  return ItemsStr(Ok(t.bag->ExplodeList(l, Range(a), t.fb)));
} END
CMD("i.lset1") {
  Target t(a);
  DataItem l = Item(a);
  int64_t i = a.num();
  Ok(t.bag->SetInList(l, i, Item(a)));
  return "";
} END
CMD("i.lappend1") {
  Target t(a);
  DataItem l = Item(a);
  Ok(t.bag->AppendToList(l, Item(a)));
  return "";
} END
CMD("i.lextend1") {
  Target t(a);
  DataItem l = Item(a);
  Ok(t.bag->ExtendList(l, Slice(a)));
  return "";
} END
CMD("i.lreplace1") {
  Target t(a);
  DataItem l = Item(a);
  auto range = Range(a);
  Ok(t.bag->ReplaceInList(l, range, Slice(a)));
  return "";
} END
CMD("i.lremove1") {
  Target t(a);
  DataItem l = Item(a);
  Ok(t.bag->RemoveInList(l, Range(a)));
  return "";
} END

// ---- dicts
CMD("i.dkeys") {
  Target t(a);
  return WithEdge(Ok(t.bag->GetDictKeys(Slice(a), t.fb)));
} END
CMD("i.dvals") {
  Target t(a);
  return WithEdge(Ok(t.bag->GetDictValues(Slice(a), t.fb)));
} END
CMD("i.dsize") {
  Target t(a);
  return ItemsStr(Ok(t.bag->GetDictSize(Slice(a), t.fb)));
} END
CMD("i.dget") {
  Target t(a);
  DataSliceImpl d = Slice(a);
  return ItemsStr(Ok(t.bag->GetFromDict(d, Slice(a), t.fb)));
} END
CMD("i.dset") {
  Target t(a);
  DataSliceImpl d = Slice(a);
  DataSliceImpl k = Slice(a);
  Ok(t.bag->SetInDict(d, k, Slice(a)));
  return "";
} END
CMD("i.dclear") {
  Target t(a);
  Ok(t.bag->ClearDict(Slice(a)));
  return "";
} END
CMD("i.dkeys1") {
  Target t(a);
  return WithEdge(Ok(t.bag->GetDictKeys(Item(a), t.fb)));
} END
CMD("i.dvals1") {
  Target t(a);
  return WithEdge(Ok(t.bag->GetDictValues(Item(a), t.fb)));
} END
CMD("i.dsize1") {
  Target t(a);
  return ItemStr(Ok(t.bag->GetDictSize(Item(a), t.fb)));
} END
CMD("i.dget1") {
  Target t(a);
  DataItem d = Item(a);
  return ItemStr(Ok(t.bag->GetFromDict(d, Item(a), t.fb)));
} END
CMD("i.dset1") {
  Target t(a);
  DataItem d = Item(a);
  DataItem k = Item(a);
  Ok(t.bag->SetInDict(d, k, Item(a)));
  return "";
} END
CMD("i.dclear1") {
  Target t(a);
  Ok(t.bag->ClearDict(Item(a)));
  return "";
} END

// ---- schemas
CMD("i.sattrs") {
  Target t(a);
  return ItemsStr(Ok(t.bag->GetSchemaAttrs(Item(a), t.fb)));
} END
CMD("i.sattrsp") {
  Target t(a);
  return ItemsStr(Ok(t.bag->GetPresentSchemaAttrs(Item(a), t.fb)));
} END
CMD("i.sget1") {
  Target t(a);
  DataItem s = Item(a);
  return ItemStr(Ok(t.bag->GetSchemaAttr(s, UnPct(a.str()), t.fb)));
} END
CMD("i.sgetm1") {
  Target t(a);
  DataItem s = Item(a);
  auto r = Ok(
      t.bag->GetSchemaAttrAllowMissingWithRemoved(s, UnPct(a.str()), t.fb));
  return !r.has_value() ? "_" : r->has_value() ? ItemStr(*r) : "r";
} END
CMD("i.sget") {
  Target t(a);
  DataSliceImpl s = Slice(a);
  return ItemsStr(Ok(t.bag->GetSchemaAttr(s, UnPct(a.str()), t.fb)));
} END
CMD("i.sgetm") {
  Target t(a);
  DataSliceImpl s = Slice(a);
  return ItemsStr(
      Ok(t.bag->GetSchemaAttrAllowMissing(s, UnPct(a.str()), t.fb)));
} END
CMD("i.sset1") {
  Target t(a);
  DataItem s = Item(a);
  std::string attr = UnPct(a.str());
  Ok(t.bag->SetSchemaAttr(s, attr, Item(a)));
  return "";
} END
CMD("i.sset") {
  Target t(a);
  DataSliceImpl s = Slice(a);
  std::string attr = UnPct(a.str());
  Ok(t.bag->SetSchemaAttr(s, attr, Slice(a)));
  return "";
} END
CMD("i.ssetc") {
  Target t(a);
  DataSliceImpl s = Slice(a);
  std::string attr = UnPct(a.str());
  Ok(t.bag->SetSchemaAttr(s, attr, Item(a)));
  return "";
} END
CMD("i.sdel1") {
  Target t(a);
  DataItem s = Item(a);
  Ok(t.bag->DelSchemaAttr(s, UnPct(a.str())));
  return "";
} END
CMD("i.sdel") {
  Target t(a);
  DataSliceImpl s = Slice(a);
  Ok(t.bag->DelSchemaAttr(s, UnPct(a.str())));
  return "";
} END
struct Fields {
  std::vector<std::string> names;
  std::vector<DataItem> items;
  std::vector<absl::string_view> nv;
  std::vector<std::reference_wrapper<const DataItem>> iv;
  explicit Fields(Args& a) {
    while (a.more()) {
      std::vector<std::string> p = absl::StrSplit(a.str(), '=');
      names.push_back(UnPct(p[0]));
      items.push_back(ParseItem(p[1]));
    }
    nv.assign(names.begin(), names.end());
    iv.assign(items.begin(), items.end());
  }
};
CMD("i.screate") {
  Target t(a);
  Fields f(a);
  return ItemStr(Ok(t.bag->CreateExplicitSchemaFromFields(f.nv, f.iv)));
} END
CMD("i.suu") {
  Target t(a);
  std::string seed = UnPct(a.str());
  Fields f(a);
  return ItemStr(Ok(t.bag->CreateUuSchemaFromFields(seed, f.nv, f.iv)));
} END
CMD("i.sfields") {
  Target t(a);
  DataSliceImpl s = Slice(a);
  Fields f(a);
  Ok(t.bag->SetSchemaFields(s, f.nv, f.iv));
  return "";
} END
CMD("i.sfieldsalloc") {
  Target t(a);
  AllocationId alloc(ParseId(a.str()));
  int64_t n = a.num();
  Fields f(a);
  Ok(t.bag->SetSchemaFieldsForEntireAllocation(alloc, n, f.nv, f.iv));
  return "";
} END

// ---- merging
CMD("i.merge") {
  Target t(a);
  Target o(a);
  Ok(t.bag->MergeInplace(*o.bag, Options(a)));
  return "";
} END
CMD("i.update") {
  Target t(a);
  Target o(a);
  return Bags().Put({Ok(t.bag->CreateOverwritingMergeUpdate(*o.bag))});
} END
}  // namespace
