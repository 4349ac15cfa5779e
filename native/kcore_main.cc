// Request loop of the kcore driver: one request per line, one reply per line.
//   '= ' reply      '! ' percent-encoded error of the library
//   '? ' the request makes no sense (a mistake of the harness)
#include <cstdio>
#include <iostream>

#include "absl/strings/str_split.h"
#include "kcore_app.h"
#include "koladata/internal/object_id.h"
#include "koladata/internal/schema_attrs.h"
#include "koladata/internal/uuid_object.h"

namespace kapp {
namespace {
using namespace koladata::internal;
using namespace kio;

CMD("alloc") {
  const std::string& k = a.str();
  int64_t n = a.num();
  AllocationId id = k == "l"   ? AllocateLists(n)
                    : k == "d" ? AllocateDicts(n)
                    : k == "x" ? AllocateExplicitSchemas(n)
                               : Allocate(n);
  return IdStr(id.ObjectByOffset(0)) + " " + std::to_string(id.Capacity());
} END
// A single object, through the single-object allocator.
CMD("alloc1") {
  const std::string& k = a.str();
  return IdStr(k == "l"   ? AllocateSingleList()
               : k == "d" ? AllocateSingleDict()
               : k == "x" ? AllocateExplicitSchema()
                          : AllocateSingleObject());
} END
// The implicit schema that belongs to an object.
CMD("implicit") {
  return ItemStr(Ok(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(
      ParseItem(a.str()), koladata::schema::kImplicitSchemaSeed)));
} END
}  // namespace
}  // namespace kapp

int main() {
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::string reply;
    try {
      std::vector<std::string> words = absl::StrSplit(line, ' ');
      if (words[0] == "reset") {
        for (auto& f : kapp::Resets()) f();
        reply = "= ";
      } else {
        auto it = kapp::Table().find(words[0]);
        if (it == kapp::Table().end()) throw kio::Bad("command " + words[0]);
        kapp::Args args(words);
        reply = it->second(args);
        if (args.more()) throw kio::Bad("too many arguments: " + line);
        reply = "= " + reply;
      }
    } catch (const kapp::Failed& e) {
      reply = "! " + kio::Pct(e.status.message());
    } catch (const kio::Bad& e) {
      reply = "? " + kio::Pct(e.what());
    } catch (const std::invalid_argument& e) {
      reply = "? " + kio::Pct(std::string("number: ") + e.what());
    }
    reply += '\n';
    fwrite(reply.data(), 1, reply.size(), stdout);
    fflush(stdout);
  }
}
