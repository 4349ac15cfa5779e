// C interface to koladata's JsonStreamParser (for ctypes).
#include <cstdint>
#include <string>

#include "absl/strings/string_view.h"
#include "koladata/operators/json_stream_parser.h"

using koladata::ops::JsonStreamParser;

namespace {
// kind 0: begin (type), 1: end.
typedef void (*event_cb)(int kind, int type, const char* path, int64_t plen,
                         const char* json, int64_t jlen);
struct Handle {
  JsonStreamParser parser;
  event_cb cb = nullptr;
  std::string error;
};
}  // namespace

extern "C" {
void* jp_new(int flags, event_cb cb) {
  auto* h = new Handle{JsonStreamParser(
      flags & 1 ? JsonStreamParser::SeparatorPolicy::REMOVE
                : JsonStreamParser::SeparatorPolicy::KEEP)};
  h->cb = cb;
  h->parser.AllowSingleQuotes(flags & 2);
  h->parser.AllowUnquotedKeys(flags & 4);
  h->parser.AllowLinebreakInStrings(flags & 8);
  h->parser.EnableQuotingInvalidTokens(flags & 16);
  h->parser.SetValueBeginCallback(
      [h](absl::string_view path, JsonStreamParser::ValueType type) {
        h->cb(0, static_cast<int>(type), path.data(), path.size(), "", 0);
      });
  h->parser.SetValueEndCallback(
      [h](absl::string_view path, absl::string_view json) {
        h->cb(1, 0, path.data(), path.size(), json.data(), json.size());
      });
  return h;
}
int jp_add(void* p, const char* data, int64_t n) {
  auto* h = static_cast<Handle*>(p);
  std::string copy(data, n);
  auto s = h->parser.AddChunk(copy);
  if (!s.ok()) h->error = std::string(s.message());
  return s.ok();
}
int jp_finalize(void* p) {
  auto* h = static_cast<Handle*>(p);
  auto s = h->parser.Finalize();
  if (!s.ok()) h->error = std::string(s.message());
  return s.ok();
}
const char* jp_consume(void* p, int64_t* n) {
  auto r = static_cast<Handle*>(p)->parser.ConsumeChunk();
  *n = r.size();
  return r.data();
}
const char* jp_error(void* p, int64_t* n) {
  auto& e = static_cast<Handle*>(p)->error;
  *n = e.size();
  return e.data();
}
void jp_delete(void* p) { delete static_cast<Handle*>(p); }
}
