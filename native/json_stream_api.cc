// C interface to koladata's JSON stream processors (for ctypes).
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <variant>

#include "koladata/internal/op_utils/json_stream.h"

using namespace koladata::internal;  // NOLINT

namespace {
using Fn = std::function<JsonStreamProcessResult(std::string_view, bool)>;

template <class T>
Fn Wrap(std::shared_ptr<T> p) {
  return [p](std::string_view s, bool end) { return p->Process(s, end); };
}

struct Handle {
  Fn fn;
};
}  // namespace

extern "C" {

// path: for every element 'i' + decimal + 0x00 or 's' + bytes + 0x00 is
// ambiguous for keys with NUL, so elements are length-prefixed:
// kind(1) length(8) payload.
typedef int (*match_cb)(const char* data, int64_t size);
typedef void (*out_cb)(const char* data, int64_t size);

void* js_new(const char* kind, int64_t n, int flags, const char* s,
             int64_t slen, match_cb match) {
  std::string_view k(kind);
  auto h = std::make_unique<Handle>();
  if (k == "salvage") {
    JsonSalvageOptions o;
    o.allow_nan = flags & 1;
    o.ensure_ascii = flags & 2;
    o.max_depth = n;
    h->fn = Wrap(std::make_shared<JsonSalvageStreamProcessor>(o));
  } else if (k == "head") {
    JsonHeadOptions o;
    o.n = n;
    h->fn = Wrap(std::make_shared<JsonHeadStreamProcessor>(o));
  } else if (k == "prettify") {
    JsonPrettifyOptions o;
    o.indent_string = std::string(s, slen);
    h->fn = Wrap(std::make_shared<JsonPrettifyStreamProcessor>(o));
  } else if (k == "compactify") {
    h->fn = Wrap(std::make_shared<JsonCompactifyStreamProcessor>());
  } else if (k == "select_nonempty_objects") {
    h->fn = Wrap(std::make_shared<JsonSelectNonemptyObjectsStreamProcessor>());
  } else if (k == "select_nonempty_arrays") {
    h->fn = Wrap(std::make_shared<JsonSelectNonemptyArraysStreamProcessor>());
  } else if (k == "select_nonnull") {
    h->fn = Wrap(std::make_shared<JsonSelectNonnullStreamProcessor>());
  } else if (k == "extract_values") {
    JsonExtractValuesOptions o;
    o.with_path = flags & 1;
    o.path_match_fn =
        [match](absl::Span<const std::variant<int64_t, std::string>> path) {
          std::string b;
          for (const auto& e : path) {
            std::string p;
            if (auto* i = std::get_if<int64_t>(&e)) {
              b.push_back('i');
              p = std::to_string(*i);
            } else {
              b.push_back('s');
              p = std::get<std::string>(e);
            }
            uint64_t len = p.size();
            b.append(reinterpret_cast<const char*>(&len), 8);
            b.append(p);
          }
          return match(b.data(), b.size()) != 0;
        };
    h->fn = Wrap(std::make_shared<JsonExtractValuesStreamProcessor>(o));
  } else if (k == "implode_array") {
    h->fn = Wrap(std::make_shared<JsonImplodeArrayStreamProcessor>());
  } else if (k == "explode_array") {
    h->fn = Wrap(std::make_shared<JsonExplodeArrayStreamProcessor>());
  } else if (k == "get_array_nth_value") {
    JsonGetArrayNthValueOptions o;
    o.n = n;
    h->fn = Wrap(std::make_shared<JsonGetArrayNthValueStreamProcessor>(o));
  } else if (k == "unquote") {
    h->fn = Wrap(std::make_shared<JsonUnquoteStreamProcessor>());
  } else if (k == "quote") {
    h->fn = Wrap(std::make_shared<JsonQuoteStreamProcessor>());
  } else if (k == "chunk_values") {
    h->fn = Wrap(std::make_shared<JsonChunkValuesStreamProcessor>());
  } else {
    return nullptr;
  }
  return h.release();
}

int js_process(void* h, const char* data, int64_t size, int end, out_cb cb) {
  // A private copy, so that sanitizers see reads past the chunk.
  std::string copy(data, size);
  auto r = static_cast<Handle*>(h)->fn(copy, end != 0);
  for (const auto& c : r.chunks) cb(c.data(), c.size());
  return r.is_end;
}

void js_delete(void* h) { delete static_cast<Handle*>(h); }
}
