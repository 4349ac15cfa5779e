// Driver commands over DataSlice, DataBag and the object factories.
// Slices are '$n', bags '@n'; '-' stands for "none".
#include "koladata/adoption_utils.h"
#include "koladata/casting.h"
#include "koladata/check_frozen.h"
#include "koladata/data_bag.h"
#include "koladata/data_bag_comparison.h"
#include "koladata/data_slice.h"
#include "koladata/data_slice_qtype.h"
#include "koladata/extract_utils.h"
#include "koladata/metadata_utils.h"
#include "koladata/object_factories.h"
#include "koladata/schema_utils.h"
#include "koladata/shape_utils.h"
#include "koladata/subslice_utils.h"
#include "koladata/uuid_utils.h"
#include "kcore_slices.h"

namespace {
using namespace koladata;  // NOLINT
using namespace kapp;      // NOLINT
using namespace kio;       // NOLINT

std::string NamesStr(const DataSlice::AttrNamesSet& names) {
  std::string r;
  for (const auto& n : names) r += (r.empty() ? "" : ",") + Pct(n);
  return r.empty() ? "." : r;
}

// --- values ---------------------------------------------------------------
// s.mk schema shape items bag
CMD("s.mk") {
  DataItem schema = ParseItem(a.str());
  Shape shape = ParseShape(a.str());
  DataSliceImpl impl = ParseItems(a.str());
  DataBagPtr db = OptBag(a);
  if (shape.rank() == 0) {
    if (impl.size() != 1) throw Bad("scalar");
    return PutS(DataSlice::Create(impl[0], schema, db));
  }
  return PutS(DataSlice::Create(impl, shape, schema, db));
} END
// s.full <first id> shape schema bag: the objects of an allocation.
CMD("s.full") {
  internal::AllocationId alloc(ParseId(a.str()));
  Shape shape = ParseShape(a.str());
  DataItem schema = ParseItem(a.str());
  DataBagPtr db = OptBag(a);
  return PutS(DataSlice::CreateFullAlloc(alloc, shape, schema, db));
} END
CMD("s.show") { return Show(S(a)); } END
CMD("s.drop") {
  Slices().Drop(a.str());
  return "";
} END
CMD("s.bag") {
  const DataBagPtr& b = S(a).GetBag();
  return b == nullptr ? "-" : BagKey(b);
} END
CMD("s.whole") { return S(a).IsWhole() ? "1" : "0"; } END
CMD("s.fullalloc") {
  auto f = S(a).GetFullAllocOrNone();
  return f ? IdStr(f->ObjectByOffset(0)) : "-";
} END
CMD("s.withbag") {
  const DataSlice& s = S(a);
  return PutS(s.WithBag(OptBag(a)));
} END
CMD("s.forkbag") { return PutS(S(a).ForkBag()); } END
CMD("s.freezebag") { return PutS(S(a).FreezeBag()); } END
CMD("s.equiv") {
  const DataSlice& x = S(a);
  const DataSlice& y = S(a);
  return x.IsEquivalentTo(y) ? "1" : "0";
} END
CMD("s.fp") {
  return arolla::TypedValue::FromValue(S(a)).GetFingerprint().AsString();
} END
CMD("s.count") { return std::to_string(S(a).present_count()); } END

// --- schema and shape -----------------------------------------------------
CMD("s.schema") { return PutS(S(a).GetSchema()); } END
CMD("s.objschema") { return PutS(S(a).GetObjSchema()); } END
CMD("s.withschema") {
  const DataSlice& s = S(a);
  return PutS(s.WithSchema(S(a)));
} END
CMD("s.setschema") {
  const DataSlice& s = S(a);
  return PutS(s.SetSchema(S(a)));
} END
CMD("s.embed") {
  const DataSlice& s = S(a);
  return PutS(s.EmbedSchema(a.flag()));
} END
CMD("s.narrowed") { return ItemStr(GetNarrowedSchema(S(a))); } END
CMD("s.is") {
  const DataSlice& s = S(a);
  const std::string& w = a.str();
  bool r;
  if (w == "list") r = s.IsList();
  else if (w == "dict") r = s.IsDict();
  else if (w == "entity") r = s.IsEntity();
  else if (w == "entityschema") r = s.IsEntitySchema();
  else if (w == "structschema") r = s.IsStructSchema();
  else if (w == "listschema") r = s.IsListSchema();
  else if (w == "dictschema") r = s.IsDictSchema();
  else if (w == "primschema") r = s.IsPrimitiveSchema();
  else if (w == "itemidschema") r = s.IsItemIdSchema();
  else if (w == "namedschema") r = s.IsNamedSchema();
  else if (w == "empty") r = s.IsEmpty();
  else if (w == "prims") r = s.ContainsAnyPrimitives();
  else throw Bad(w);
  return r ? "1" : "0";
} END
CMD("s.reshape") {
  const DataSlice& s = S(a);
  return PutS(s.Reshape(ParseShape(a.str())));
} END
CMD("s.flatten") {
  const DataSlice& s = S(a);
  int64_t from = a.num();
  const std::string& to = a.str();
  std::optional<int64_t> t;
  if (to != "-") t = std::stoll(to);
  return PutS(s.Flatten(from, t));
} END
CMD("s.bcast") {
  const DataSlice& s = S(a);
  return PutS(BroadcastToShape(s, ParseShape(a.str())));
} END
CMD("s.bcastable") {
  Shape x = ParseShape(a.str());
  return x.IsBroadcastableTo(ParseShape(a.str())) ? "1" : "0";
} END
CMD("s.emptylike") {
  Shape x = ParseShape(a.str());
  DataItem schema = ParseItem(a.str());
  return PutS(EmptyLike(x, schema, OptBag(a)));
} END
CMD("s.commonshape") { return ShapeStr(Ok(shape::GetCommonShape(RestS(a)))); } END
CMD("s.align") { return PutAll(Ok(shape::Align(RestS(a)))); } END
CMD("s.alignns") {
  auto r = Ok(shape::AlignNonScalars(RestS(a)));
  return ShapeStr(r.second) + " " + PutAll(r.first);
} END
// s.subslice x ($index | start:stop)...
CMD("s.subslice") {
  const DataSlice& s = S(a);
  std::vector<subslice::SlicingArgType> args;
  while (a.more()) {
    const std::string& w = a.str();
    size_t c = w.find(':');
    if (c == std::string::npos) {
      args.push_back(Slices().Get(w));
    } else {
      subslice::Slice x;
      if (c > 0) x.start = Slices().Get(w.substr(0, c));
      if (c + 1 < w.size()) x.stop = Slices().Get(w.substr(c + 1));
      args.push_back(x);
    }
  }
  return PutS(subslice::Subslice(s, args));
} END

// --- casting --------------------------------------------------------------
CMD("s.to") {
  const std::string& w = a.str();
  const DataSlice& s = S(a);
  if (w == "INT32") return PutS(ToInt32(s));
  if (w == "INT64") return PutS(ToInt64(s));
  if (w == "FLOAT32") return PutS(ToFloat32(s));
  if (w == "FLOAT64") return PutS(ToFloat64(s));
  if (w == "NONE") return PutS(ToNone(s));
  if (w == "EXPR") return PutS(ToExpr(s));
  if (w == "STRING") return PutS(ToStr(s));
  if (w == "BYTES") return PutS(ToBytes(s));
  if (w == "DECODE") return PutS(Decode(s, a.str()));
  if (w == "ENCODE") return PutS(Encode(s));
  if (w == "MASK") return PutS(ToMask(s));
  if (w == "BOOLEAN") return PutS(ToBool(s));
  if (w == "ITEMID") return PutS(ToItemId(s));
  if (w == "SCHEMA") return PutS(ToSchema(s));
  if (w == "OBJECT") return PutS(ToObject(s));
  throw Bad(w);
} END
CMD("s.toentity") {
  const DataSlice& s = S(a);
  DataItem schema = ParseItem(a.str());
  bool rm = a.flag();
  return PutS(ToEntity(s, schema, rm, a.flag()));
} END
CMD("s.implicit") {
  const DataSlice& s = S(a);
  return PutS(CastToImplicit(s, ParseItem(a.str())));
} END
CMD("s.explicit") {
  const DataSlice& s = S(a);
  return PutS(CastToExplicit(s, ParseItem(a.str())));
} END
CMD("s.narrow") {
  const DataSlice& s = S(a);
  return PutS(CastToNarrow(s, ParseItem(a.str())));
} END
CMD("s.castable") {
  DataItem x = ParseItem(a.str());
  return casting_internal::IsProbablyCastableTo(x, ParseItem(a.str())) ? "1"
                                                                       : "0";
} END
CMD("s.alignschemas") {
  auto r = Ok(AlignSchemas(RestS(a)));
  return ItemStr(r.common_schema) + " " + PutAll(r.slices);
} END

// --- attributes -----------------------------------------------------------
CMD("s.get") {
  const DataSlice& s = S(a);
  return PutS(s.GetAttr(UnPct(a.str())));
} END
CMD("s.getom") {
  const DataSlice& s = S(a);
  return PutS(s.GetAttrOrMissing(UnPct(a.str())));
} END
CMD("s.getdef") {
  const DataSlice& s = S(a);
  std::string n = UnPct(a.str());
  return PutS(s.GetAttrWithDefault(n, S(a)));
} END
CMD("s.has") {
  const DataSlice& s = S(a);
  return PutS(s.HasAttr(UnPct(a.str())));
} END
// s.set x name values overwrite
CMD("s.set") {
  const DataSlice& s = S(a);
  std::string n = UnPct(a.str());
  const DataSlice& v = S(a);
  Ok(s.SetAttr(n, v, a.flag()));
  return "";
} END
CMD("s.setdyn") {
  const DataSlice& s = S(a);
  const DataSlice& n = S(a);
  const DataSlice& v = S(a);
  Ok(s.SetAttr(n, v, a.flag()));
  return "";
} END
CMD("s.setmany") {
  const DataSlice& s = S(a);
  bool ow = a.flag();
  Attrs at(a);
  Ok(s.SetAttrs(at.names, at.values, ow));
  return "";
} END
CMD("s.del") {
  const DataSlice& s = S(a);
  Ok(s.DelAttr(UnPct(a.str())));
  return "";
} END
CMD("s.names") {
  const DataSlice& s = S(a);
  const std::string& w = a.str();
  using M = DataSlice::OnAttrNamesMismatch;
  return NamesStr(Ok(s.GetAttrNames(w == "i"   ? M::kIntersection
                                    : w == "u" ? M::kUnion
                                               : M::kError)));
} END
CMD("s.namesper") { return PutS(S(a).GetAttrNamesPerItem()); } END

// --- lists and dicts ------------------------------------------------------
CMD("s.dget") {
  const DataSlice& s = S(a);
  return PutS(s.GetFromDict(S(a)));
} END
CMD("s.dset") {
  const DataSlice& s = S(a);
  const DataSlice& k = S(a);
  Ok(s.SetInDict(k, S(a)));
  return "";
} END
CMD("s.dkeys") { return PutS(S(a).GetDictKeys()); } END
CMD("s.dvals") { return PutS(S(a).GetDictValues()); } END
CMD("s.clear") {
  Ok(S(a).ClearDictOrList());
  return "";
} END
CMD("s.lget") {
  const DataSlice& s = S(a);
  return PutS(s.GetFromList(S(a)));
} END
CMD("s.lpop") {
  const DataSlice& s = S(a);
  if (!a.more()) return PutS(s.PopFromList());
  return PutS(s.PopFromList(S(a)));
} END
CMD("s.lset") {
  const DataSlice& s = S(a);
  const DataSlice& i = S(a);
  Ok(s.SetInList(i, S(a)));
  return "";
} END
CMD("s.lappend") {
  const DataSlice& s = S(a);
  Ok(s.AppendToList(S(a)));
  return "";
} END
CMD("s.explode") {
  const DataSlice& s = S(a);
  int64_t from = a.num();
  return PutS(s.ExplodeList(from, OptNum(a)));
} END
CMD("s.lreplace") {
  const DataSlice& s = S(a);
  int64_t from = a.num();
  auto to = OptNum(a);
  Ok(s.ReplaceInList(from, to, S(a)));
  return "";
} END
CMD("s.lremove") {
  const DataSlice& s = S(a);
  int64_t from = a.num();
  Ok(s.RemoveInList(from, OptNum(a)));
  return "";
} END
CMD("s.lremoveidx") {
  const DataSlice& s = S(a);
  Ok(s.RemoveInList(S(a)));
  return "";
} END
CMD("s.item") {
  const DataSlice& s = S(a);
  return PutS(s.GetItem(S(a)));
} END
CMD("s.size") { return PutS(ListSize(S(a))); } END

// --- bags -----------------------------------------------------------------
CMD("b.new") { return BagKey(DataBag::EmptyMutable()); } END
CMD("b.empty") { return BagKey(DataBag::Empty()); } END
CMD("b.fork") {
  DataBagPtr b = B(a);
  return BagKey(Ok(b->Fork(a.flag())));
} END
CMD("b.freeze") { return BagKey(B(a)->Freeze()); } END
CMD("b.unsafeimmutable") {
  B(a)->UnsafeMakeImmutable();
  return "";
} END
CMD("b.mutable") { return B(a)->IsMutable() ? "1" : "0"; } END
CMD("b.isempty") { return B(a)->IsEmpty() ? "1" : "0"; } END
CMD("b.drop") {
  DropBag(a.str());
  return "";
} END
CMD("b.fallbacks") {
  std::vector<DataBagPtr> v;
  while (a.more()) v.push_back(OptBag(a));
  return BagKey(Ok(DataBag::ImmutableEmptyWithFallbacks(v)));
} END
CMD("b.mergefb") { return BagKey(Ok(B(a)->MergeFallbacks())); } END
// b.merge bag other overwrite allow_data allow_schema
CMD("b.merge") {
  DataBagPtr b = B(a);
  DataBagPtr o = B(a);
  bool ow = a.flag(), ad = a.flag(), as = a.flag();
  Ok(b->MergeInplace(o, ow, ad, as));
  return "";
} END
CMD("b.update") {
  DataBagPtr b = B(a);
  return BagKey(Ok(b->CreateOverwritingMergeUpdate(B(a))));
} END
// The implementation and the flattened fallbacks, for the i. commands.
CMD("b.impls") {
  DataBagPtr b = B(a);
  std::string r = Bags().Put({DataBagImplPtr::NewRef(
      const_cast<internal::DataBagImpl*>(&b->GetImpl()))});
  FlattenFallbackFinder fb(*b);
  for (const internal::DataBagImpl* p : fb.GetFlattenFallbacks()) {
    r += "," + Bags().Put({DataBagImplPtr::NewRef(
                   const_cast<internal::DataBagImpl*>(p))});
  }
  return r;
} END
// The content; every fallback after a '|'.
CMD("b.dump") {
  DataBagPtr b = B(a);
  std::string r = Dump(b->GetImpl());
  FlattenFallbackFinder fb(*b);
  for (const internal::DataBagImpl* p : fb.GetFlattenFallbacks()) {
    r += "| " + Dump(*p);
  }
  return r;
} END
CMD("b.exacteq") {
  DataBagPtr b = OptBag(a);
  return DataBagComparison::ExactlyEqual(b, OptBag(a)) ? "1" : "0";
} END
CMD("b.contenteq") {
  DataBagPtr b = OptBag(a);
  return DataBagComparison::ContentEqual(b, OptBag(a)) ? "1" : "0";
} END
CMD("b.adoptinto") {
  DataBagPtr b = B(a);
  AdoptionQueue q;
  while (a.more()) {
    const std::string& w = a.str();
    if (w[0] == '$') q.Add(Slices().Get(w));
    else q.Add(GetBag(w));
  }
  Ok(q.AdoptInto(*b));
  return "";
} END
// b.adopt (common|fallbacks) values...
CMD("b.adopt") {
  const std::string& how = a.str();
  AdoptionQueue q;
  while (a.more()) {
    const std::string& w = a.str();
    if (w[0] == '$') q.Add(Slices().Get(w));
    else q.Add(GetBag(w));
  }
  if (how == "common") {
    DataBagPtr r = Ok(q.GetCommonOrMergedDb());
    return r == nullptr ? "-" : BagKey(r);
  }
  return BagKey(q.GetBagWithFallbacks());
} END
CMD("b.adoptstub") {
  DataBagPtr b = B(a);
  Ok(AdoptStub(b, S(a)));
  return "";
} END
CMD("b.withadopted") {
  DataBagPtr b = OptBag(a);
  DataBagPtr r = Ok(WithAdoptedValues(b, S(a)));
  return r == nullptr ? "-" : BagKey(r);
} END
CMD("s.extract") { return PutS(extract_utils_internal::Extract(S(a))); } END
CMD("s.extractschema") {
  const DataSlice& s = S(a);
  const DataSlice& schema = S(a);
  return PutS(
      extract_utils_internal::ExtractWithSchema(s, schema, a.num()));
} END
CMD("frozen") { return CheckFrozen(arolla::TypedRef::FromValue(S(a))).ok() ? "1" : "0"; } END

// --- factories ------------------------------------------------------------
// f.entity bag schema overwrite itemid n attrs
CMD("f.entity") {
  DataBagPtr b = B(a);
  auto schema = OptS(a);
  bool ow = a.flag();
  auto itemid = OptS(a);
  Attrs at(a);
  return PutS(EntityCreator::FromAttrs(b, at.names, at.values, schema, ow, itemid));
} END
CMD("f.entityshaped") {
  DataBagPtr b = B(a);
  Shape shape = ParseShape(a.str());
  auto schema = OptS(a);
  bool ow = a.flag();
  auto itemid = OptS(a);
  Attrs at(a);
  return PutS(EntityCreator::Shaped(b, shape, at.names, at.values, schema, ow, itemid));
} END
CMD("f.entitylike") {
  DataBagPtr b = B(a);
  const DataSlice& like = S(a);
  auto schema = OptS(a);
  bool ow = a.flag();
  auto itemid = OptS(a);
  Attrs at(a);
  return PutS(EntityCreator::Like(b, like, at.names, at.values, schema, ow, itemid));
} END
CMD("f.obj") {
  DataBagPtr b = B(a);
  auto itemid = OptS(a);
  Attrs at(a);
  return PutS(ObjectCreator::FromAttrs(b, at.names, at.values, itemid));
} END
CMD("f.objshaped") {
  DataBagPtr b = B(a);
  Shape shape = ParseShape(a.str());
  auto itemid = OptS(a);
  Attrs at(a);
  return PutS(ObjectCreator::Shaped(b, shape, at.names, at.values, itemid));
} END
CMD("f.objlike") {
  DataBagPtr b = B(a);
  const DataSlice& like = S(a);
  auto itemid = OptS(a);
  Attrs at(a);
  return PutS(ObjectCreator::Like(b, like, at.names, at.values, itemid));
} END
CMD("f.objconvert") {
  DataBagPtr b = B(a);
  bool adopt = a.flag();
  const DataSlice& v = S(a);
  return PutS(adopt ? ObjectCreator::ConvertWithAdoption(b, v)
                    : ObjectCreator::ConvertWithoutAdopt(b, v));
} END
CMD("f.uu") {
  DataBagPtr b = B(a);
  std::string seed = UnPct(a.str());
  auto schema = OptS(a);
  bool ow = a.flag();
  Attrs at(a);
  return PutS(CreateUu(b, seed, at.names, at.values, schema, ow));
} END
CMD("f.uuobj") {
  DataBagPtr b = B(a);
  std::string seed = UnPct(a.str());
  Attrs at(a);
  return PutS(CreateUuObject(b, seed, at.names, at.values));
} END
CMD("f.uuschema") {
  DataBagPtr b = B(a);
  std::string seed = UnPct(a.str());
  Attrs at(a);
  return PutS(CreateUuSchema(b, seed, at.names, at.values));
} END
CMD("f.namedschema") {
  DataBagPtr b = B(a);
  std::string name = UnPct(a.str());
  Attrs at(a);
  return PutS(CreateNamedSchema(b, name, at.names, at.values));
} END
CMD("f.schema") {
  DataBagPtr b = B(a);
  Attrs at(a);
  return PutS(CreateSchema(b, at.names, at.values));
} END
CMD("f.schemaordered") {
  DataBagPtr b = B(a);
  Attrs at(a);
  return PutS(CreateSchemaWithOrderedAttrs(b, at.names, at.values));
} END
CMD("f.orderednames") {
  std::string r;
  for (const auto& n : Ok(GetOrderedOrLexicographicAttrNames(S(a), false))) {
    r += (r.empty() ? "" : ",") + Pct(n);
  }
  return r.empty() ? "." : r;
} END
CMD("f.metadata") {
  DataBagPtr b = B(a);
  const DataSlice& s = S(a);
  Attrs at(a);
  return PutS(CreateMetadata(b, s, at.names, at.values));
} END
CMD("f.listschema") {
  DataBagPtr b = B(a);
  return PutS(CreateListSchema(b, S(a)));
} END
CMD("f.dictschema") {
  DataBagPtr b = B(a);
  const DataSlice& k = S(a);
  return PutS(CreateDictSchema(b, k, S(a)));
} END
// f.dictshaped bag shape keys values schema key_schema value_schema itemid
CMD("f.dictshaped") {
  DataBagPtr b = B(a);
  Shape shape = ParseShape(a.str());
  auto k = OptS(a), v = OptS(a), s = OptS(a), ks = OptS(a), vs = OptS(a),
       id = OptS(a);
  return PutS(CreateDictShaped(b, shape, k, v, s, ks, vs, id));
} END
CMD("f.dictlike") {
  DataBagPtr b = B(a);
  const DataSlice& like = S(a);
  auto k = OptS(a), v = OptS(a), s = OptS(a), ks = OptS(a), vs = OptS(a),
       id = OptS(a);
  return PutS(CreateDictLike(b, like, k, v, s, ks, vs, id));
} END
CMD("f.emptylist") {
  DataBagPtr b = B(a);
  auto s = OptS(a), is = OptS(a), id = OptS(a);
  return PutS(CreateEmptyList(b, s, is, id));
} END
CMD("f.listslast") {
  DataBagPtr b = B(a);
  const DataSlice& v = S(a);
  auto s = OptS(a), is = OptS(a), id = OptS(a);
  return PutS(CreateListsFromLastDimension(b, v, s, is, id));
} END
CMD("f.nestedlist") {
  DataBagPtr b = B(a);
  const DataSlice& v = S(a);
  auto s = OptS(a), is = OptS(a), id = OptS(a);
  return PutS(CreateNestedList(b, v, s, is, id));
} END
CMD("f.implode") {
  DataBagPtr b = B(a);
  const DataSlice& v = S(a);
  int n = a.num();
  return PutS(Implode(b, v, n, OptS(a)));
} END
CMD("f.concatlists") {
  DataBagPtr b = B(a);
  return PutS(ConcatLists(b, RestS(a)));
} END
CMD("f.listshaped") {
  DataBagPtr b = B(a);
  Shape shape = ParseShape(a.str());
  auto v = OptS(a), s = OptS(a), is = OptS(a), id = OptS(a);
  return PutS(CreateListShaped(b, shape, v, s, is, id));
} END
CMD("f.listlike") {
  DataBagPtr b = B(a);
  const DataSlice& like = S(a);
  auto v = OptS(a), s = OptS(a), is = OptS(a), id = OptS(a);
  return PutS(CreateListLike(b, like, v, s, is, id));
} END
CMD("f.nofollowschema") { return PutS(CreateNoFollowSchema(S(a))); } END
CMD("f.nofollow") { return PutS(NoFollow(S(a))); } END
CMD("f.unnofollow") { return PutS(S(a).GetNoFollowedSchema()); } END
// f.uuid kind seed n attrs
CMD("f.uuid") {
  const std::string& k = a.str();
  std::string seed = UnPct(a.str());
  Attrs at(a);
  return PutS(k == "l"   ? CreateListUuidFromFields(seed, at.names, at.values)
              : k == "d" ? CreateDictUuidFromFields(seed, at.names, at.values)
                         : CreateUuidFromFields(seed, at.names, at.values));
} END
CMD("f.uuidalloc") {
  std::string seed = UnPct(a.str());
  return PutS(koladata::CreateUuidsWithAllocationSize(seed, a.num()));
} END
CMD("f.childids") {
  const std::string& k = a.str();
  auto parent = OptS(a);
  std::string seed = UnPct(a.str());
  std::string name = UnPct(a.str());
  auto r = Ok(k == "l"   ? MakeChildListAttrItemIds(parent, seed, name)
              : k == "d" ? MakeChildDictAttrItemIds(parent, seed, name)
                         : MakeChildObjectAttrItemIds(parent, seed, name));
  return r ? Slices().Put(*r) : "-";
} END
}  // namespace
