// Command table and value registers of the kcore driver.
#ifndef VERIF_KCORE_APP_H_
#define VERIF_KCORE_APP_H_
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

#include "kcore_io.h"

namespace kapp {
using kio::Bad;

// The arguments of one request.
class Args {
 public:
  explicit Args(std::vector<std::string> v) : v_(std::move(v)) {}
  const std::string& str() {
    if (i_ >= v_.size()) throw Bad("too few arguments: " + v_[0]);
    return v_[i_++];
  }
  bool more() const { return i_ < v_.size(); }
  int64_t num() { return std::stoll(str()); }
  bool flag() { return str() == "1"; }

 private:
  std::vector<std::string> v_;
  size_t i_ = 1;
};

struct Failed {
  absl::Status status;
};
inline void Ok(const absl::Status& s) {
  if (!s.ok()) throw Failed{s};
}
template <typename T>
T Ok(absl::StatusOr<T> s) {
  if (!s.ok()) throw Failed{s.status()};
  return *std::move(s);
}

using Fn = std::function<std::string(Args&)>;
inline std::unordered_map<std::string, Fn>& Table() {
  static auto* t = new std::unordered_map<std::string, Fn>();
  return *t;
}
inline std::vector<std::function<void()>>& Resets() {
  static auto* t = new std::vector<std::function<void()>>();
  return *t;
}
struct Cmd {
  Cmd(const char* name, Fn fn) { Table()[name] = std::move(fn); }
};

// Values kept between requests.
template <typename T>
class Regs {
 public:
  explicit Regs(char sigil) : sigil_(sigil) {
    Resets().push_back([this] {
      m_.clear();
      n_ = 0;
    });
  }
  std::string Put(T v) {
    std::string k = sigil_ + std::to_string(n_++);
    m_.emplace(k, std::move(v));
    return k;
  }
  T& Get(const std::string& k) {
    auto it = m_.find(k);
    if (it == m_.end()) throw Bad("no such value " + k);
    return it->second;
  }
  void Drop(const std::string& k) { m_.erase(k); }
  bool Has(const std::string& k) { return m_.count(k); }

 private:
  char sigil_;
  int n_ = 0;
  std::unordered_map<std::string, T> m_;
};

#define KCAT2(a, b) a##b
#define KCAT(a, b) KCAT2(a, b)
#define CMD(name) \
  static ::kapp::Cmd KCAT(cmd_, __COUNTER__)(name, [](::kapp::Args & a) -> std::string
#define END );
}  // namespace kapp
#endif
