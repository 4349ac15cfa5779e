// Driver commands over the proto conversions.
//   p.pool <FileDescriptorSet>       the descriptors that the others use
//   p.from <message> <bag|-> <itemids|-> <schema|-> <n> ext... <bytes>...
//   p.schema <message> <bag|-> ext...
//   p.to <slice> <message>           serialized messages
//   p.descriptor <schema> <package|-> <root>
#include <memory>

#include "google/protobuf/descriptor.h"
#include "google/protobuf/descriptor.pb.h"
#include "google/protobuf/dynamic_message.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "absl/base/nullability.h"
#include "koladata/proto/annotations.pb.h"
#include "koladata/proto/from_proto.h"
#include "koladata/proto/to_proto.h"
#include "koladata/uuid_utils.h"
#include "verif/msg.pb.h"
#include "kcore_slices.h"

namespace {
using namespace koladata;  // NOLINT
using namespace kapp;      // NOLINT
using namespace kio;       // NOLINT
namespace pb = google::protobuf;

const pb::Descriptor* kLinked = verif::Msg::descriptor();

struct Types {
  pb::DescriptorPool pool;
  pb::DynamicMessageFactory factory{&pool};
};
std::unique_ptr<Types>& Current() {
  static auto* t = [] {
    auto* t = new std::unique_ptr<Types>();
    return t;
  }();
  return *t;
}
const pb::Message* Prototype(const std::string& name) {
  Types* t = Current().get();
  if (t == nullptr) throw Bad("no pool");
  const pb::Descriptor* d = t->pool.FindMessageTypeByName(name);
  if (d == nullptr) throw Bad("no message " + name);
  return t->factory.GetPrototype(d);
}
std::string Bytes(const pb::Message& m) {
  std::string s;
  {
    pb::io::StringOutputStream out(&s);
    pb::io::CodedOutputStream c(&out);
    c.SetSerializationDeterministic(true);
    m.SerializePartialToCodedStream(&c);
  }
  return s;
}
struct Errors : pb::DescriptorPool::ErrorCollector {
  std::string text;
  void AddError(const std::string&, const std::string& e, const pb::Message*,
                ErrorLocation, const std::string& m) override {
    text += e + ": " + m + "; ";
  }
};

CMD("p.pool") {
  pb::FileDescriptorSet set;
  if (!set.ParseFromString(UnPct(a.str()))) throw Bad("descriptors");
  auto types = std::make_unique<Types>();
  Errors errors;
  for (const auto& f : set.file()) {
    if (types->pool.BuildFileCollectingErrors(f, &errors) == nullptr) {
      throw Failed{absl::InvalidArgumentError(errors.text)};
    }
  }
  Current() = std::move(types);
  return std::to_string(set.file_size());
} END

CMD("p.from") {
  const pb::Message* proto = Prototype(a.str());
  DataBagPtr bag = OptBag(a);
  auto ids = OptS(a);
  auto schema = OptS(a);
  std::vector<std::string> keep;
  for (int64_t n = a.num(); n > 0; --n) keep.push_back(UnPct(a.str()));
  std::vector<absl::string_view> ext(keep.begin(), keep.end());
  std::vector<std::unique_ptr<pb::Message>> owned;
  std::vector<const pb::Message*> messages;
  while (a.more()) {
    owned.emplace_back(proto->New());
    const std::string& w = a.str();
    if (!owned.back()->ParsePartialFromString(w == "." ? "" : UnPct(w))) {
      throw Bad("message");
    }
    messages.push_back(owned.back().get());
  }
  return PutS(bag ? FromProto(bag, messages, ext, ids, schema)
                  : FromProto(messages, ext, ids, schema));
} END

CMD("p.schema") {
  const pb::Descriptor* d = Prototype(a.str())->GetDescriptor();
  DataBagPtr bag = OptBag(a);
  std::vector<std::string> keep;
  while (a.more()) keep.push_back(UnPct(a.str()));
  std::vector<absl::string_view> ext(keep.begin(), keep.end());
  return PutS(bag ? SchemaFromProto(bag, d, ext) : SchemaFromProto(d, ext));
} END

CMD("p.to") {
  const DataSlice& s = S(a);
  const pb::Message* proto = Prototype(a.str());
  auto messages = Ok(ToProtoMessages(s, proto));
  std::string r;
  for (const auto& m : messages) {
    std::string b = Bytes(*m);
    r += (r.empty() ? "" : " ") + (b.empty() ? "." : Pct(b));
  }
  return r.empty() ? "none" : r;
} END

CMD("p.unspecified") { return PutS(UnspecifiedDataSlice()); } END

CMD("p.descriptor") {
  const DataSlice& s = S(a);
  std::string package = a.str();
  std::string root = a.str();
  std::vector<std::string> warnings;
  auto r = Ok(package == "-" ? ProtoDescriptorFromSchema(s, &warnings)
                             : ProtoDescriptorFromSchema(
                                   s, &warnings, "f.proto", UnPct(package),
                                   root));
  return std::to_string(warnings.size()) + " " + Pct(r.SerializeAsString());
} END
}  // namespace
