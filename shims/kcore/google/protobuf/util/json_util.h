// The installed json_util.h with the types of newer versions.
#ifndef VERIF_SHIM_JSON_UTIL_H_
#define VERIF_SHIM_JSON_UTIL_H_
#include_next <google/protobuf/util/json_util.h>
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
namespace google::protobuf::util {
inline absl::Status JsonStringToMessage(absl::string_view s, Message* m) {
  auto r = JsonStringToMessage(StringPiece(s.data(), s.size()), m);
  return r.ok() ? absl::OkStatus()
                : absl::InvalidArgumentError(r.message().ToString());
}
namespace verif {
inline absl::Status MessageToJsonString(const Message& m, std::string* out) {
  auto r = util::MessageToJsonString(m, out);
  return r.ok() ? absl::OkStatus()
                : absl::InvalidArgumentError(r.message().ToString());
}
}  // namespace verif
}  // namespace google::protobuf::util
#define MessageToJsonString verif::MessageToJsonString
#endif
