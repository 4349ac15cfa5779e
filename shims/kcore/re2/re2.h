#ifndef VERIF_MINI_RE2_H_
#define VERIF_MINI_RE2_H_
// The subset of RE2 that koladata uses, on std::regex.
#include <regex>
#include <string>

#include "absl/strings/string_view.h"

class RE2 {
 public:
  explicit RE2(const char* p) : re_(p, std::regex::ECMAScript) {}
  static bool Replace(std::string* str, const RE2& re,
                      absl::string_view rewrite) {
    std::smatch m;
    if (!std::regex_search(*str, m, re.re_)) return false;
    std::string out;
    for (size_t i = 0; i < rewrite.size(); ++i) {
      if (rewrite[i] == '\\' && i + 1 < rewrite.size()) {
        char c = rewrite[++i];
        out += c == '\\' ? std::string("\\") : m[c - '0'].str();
      } else {
        out += rewrite[i];
      }
    }
    str->replace(m.position(0), m.length(0), out);
    return true;
  }

 private:
  std::regex re_;
};
struct LazyRE2 {
  const char* pattern;
  const RE2& operator*() const {
    // Each pattern is compiled once and kept.
    static auto* re = new RE2(pattern);
    return *re;
  }
};
#endif
