// String operators of arolla that koladata evaluates by name: pointwise ones,
// aggregation over an edge, and splitting.
#include <algorithm>
#include <optional>
#include <string>
#include <vector>

#include "arolla/mini/bridge.h"
#include "arolla/qexpr/operators/strings/strings.h"

namespace arolla {
absl::StatusOr<MiniEvalFn> LookupMiniStringOp(absl::string_view name,
                                              absl::Span<const QTypePtr> types);
namespace {

using Args = absl::Span<const TypedRef>;
using Res = absl::StatusOr<TypedValue>;
using Str = std::optional<std::string>;
using Int = std::optional<int64_t>;

// One argument: a scalar, an optional or an array.
template <typename T, typename O>
struct Arg {
  bool array = false;
  std::vector<O> v;
  bool ok = true;
  explicit Arg(TypedRef r) {
    QTypePtr t = r.GetType();
    if (t == GetQType<T>()) {
      v.push_back(typename O::value_type(r.UnsafeAs<T>()));
    } else if (t == GetQType<OptionalValue<T>>()) {
      const auto& o = r.UnsafeAs<OptionalValue<T>>();
      v.push_back(o.present ? O(typename O::value_type(o.value)) : O());
    } else if (t == GetDenseArrayQType<T>()) {
      const auto& a = r.UnsafeAs<DenseArray<T>>();
      array = true;
      for (int64_t i = 0; i < a.size(); ++i) {
        v.push_back(a.present(i) ? O(typename O::value_type(T(a.values[i])))
                                 : O());
      }
    } else {
      ok = false;
    }
  }
  const O& at(size_t i) const { return array ? v[i] : v[0]; }
};

template <typename T, typename O>
TypedValue Pack(bool array, const std::vector<O>& v) {
  if (!array) {
    return TypedValue::FromValue(v[0] ? OptionalValue<T>(T(*v[0]))
                                      : OptionalValue<T>());
  }
  DenseArrayBuilder<T> b(v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i]) b.Set(i, T(*v[i]));
  }
  return TypedValue::FromValue(std::move(b).Build());
}

// The code points of a text, or the bytes.
template <typename T>
std::vector<std::string> Chars(absl::string_view s) {
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (std::is_same_v<T, Text> && i > 0 &&
        (static_cast<unsigned char>(s[i]) & 0xC0) == 0x80) {
      r.back() += s[i];
    } else {
      r.push_back(std::string(1, s[i]));
    }
  }
  return r;
}

std::string Cat(const std::vector<std::string>& c, int64_t from, int64_t to) {
  std::string r;
  for (int64_t i = from; i < to; ++i) r += c[i];
  return r;
}

// The offsets of a range, as in Python.
std::pair<int64_t, int64_t> Range(int64_t n, Int start, Int end) {
  auto fix = [&](int64_t x) {
    return x < 0 ? std::max<int64_t>(0, x + n) : std::min(x, n);
  };
  int64_t a = start ? fix(*start) : 0, b = end ? fix(*end) : n;
  return {a, b};
}

template <typename T>
Int Find(bool last, absl::string_view s, absl::string_view sub, Int start,
         Int end) {
  auto c = Chars<T>(s), p = Chars<T>(sub);
  int64_t n = c.size(), m = p.size();
  if (start && *start > n) return {};
  auto [a, b] = Range(n, start, end);
  Int r;
  for (int64_t i = a; i + m <= b; ++i) {
    if (std::equal(p.begin(), p.end(), c.begin() + i)) {
      r = i;
      if (!last) break;
    }
  }
  return r;
}

template <typename T>
bool IsSpace(const std::string& c) {
  static const char* kText[] = {"\xc2\x85", "\xc2\xa0", "\xe3\x80\x80",
                                "\xe2\x80\x83", "\xe2\x80\xa8"};
  if (c.size() == 1) {
    return c == " " || (c[0] >= '\t' && c[0] <= '\r') ||
           (std::is_same_v<T, Text> && c[0] >= 0x1c && c[0] <= 0x1f);
  }
  if (std::is_same_v<T, Text>) {
    for (auto* k : kText) {
      if (c == k) return true;
    }
  }
  return false;
}

template <typename T>
std::string Strip(bool left, bool right, absl::string_view s,
                  const Str& chars) {
  auto c = Chars<T>(s);
  std::vector<std::string> set;
  if (chars) set = Chars<T>(*chars);
  auto drop = [&](const std::string& x) {
    return chars ? std::find(set.begin(), set.end(), x) != set.end()
                 : IsSpace<T>(x);
  };
  int64_t a = 0, b = c.size();
  while (left && a < b && drop(c[a])) ++a;
  while (right && a < b && drop(c[b - 1])) --b;
  return Cat(c, a, b);
}

template <typename T>
std::string Replace(absl::string_view s, absl::string_view from,
                    absl::string_view to, Int max) {
  int64_t left = max && *max >= 0 ? *max : -1;
  std::string r;
  if (from.empty()) {
    auto c = Chars<T>(s);
    for (size_t i = 0; i <= c.size(); ++i) {
      if (left != 0) {
        r += std::string(to);
        --left;
      }
      if (i < c.size()) r += c[i];
    }
    return r;
  }
  while (left != 0) {
    size_t i = s.find(from);
    if (i == absl::string_view::npos) break;
    r += std::string(s.substr(0, i)) + std::string(to);
    s.remove_prefix(i + from.size());
    --left;
  }
  return r + std::string(s);
}

template <typename T>
Res Pointwise(const std::string& name, Args in) {
  using S = Arg<T, Str>;
  using I = Arg<int64_t, Int>;
  size_t n = 1;
  bool array = false;
  auto note = [&](const auto& a) {
    if (a.array) {
      array = true;
      n = a.v.size();
    }
    return a.ok;
  };
  auto bad = [&] {
    return absl::InvalidArgumentError(
        absl::StrCat("unexpected argument types of ", name));
  };
  if (name == "strings.join") {
    std::vector<S> a;
    for (auto r : in) {
      a.emplace_back(r);
      if (!note(a.back())) return bad();
    }
    std::vector<Str> out(n);
    for (size_t i = 0; i < n; ++i) {
      Str r = "";
      for (const auto& x : a) {
        if (r && x.at(i)) *r += *x.at(i);
        else r = {};
      }
      out[i] = r;
    }
    return Pack<T>(array, out);
  }
  S s(in[0]);
  if (!note(s)) return bad();
  if (name == "strings.find" || name == "strings.rfind") {
    S sub(in[1]);
    I start(in[2]), end(in[3]);
    if (!note(sub) || !note(start) || !note(end)) return bad();
    std::vector<Int> out(n);
    for (size_t i = 0; i < n; ++i) {
      if (s.at(i) && sub.at(i)) {
        out[i] = Find<T>(name == "strings.rfind", *s.at(i), *sub.at(i),
                         start.at(i), end.at(i));
      }
    }
    return Pack<int64_t>(array, out);
  }
  std::vector<Str> out;
  if (name == "strings.substr") {
    I start(in[1]), end(in[2]);
    if (!note(start) || !note(end)) return bad();
    out.resize(n);
    for (size_t i = 0; i < n; ++i) {
      if (!s.at(i)) continue;
      auto c = Chars<T>(*s.at(i));
      auto [a, b] = Range(c.size(), start.at(i), end.at(i));
      out[i] = Cat(c, a, b);
    }
  } else if (name == "strings.replace") {
    S from(in[1]), to(in[2]);
    I max(in[3]);
    if (!note(from) || !note(to) || !note(max)) return bad();
    out.resize(n);
    for (size_t i = 0; i < n; ++i) {
      if (s.at(i) && from.at(i) && to.at(i)) {
        out[i] = Replace<T>(*s.at(i), *from.at(i), *to.at(i), max.at(i));
      }
    }
  } else {
    S chars(in[1]);
    if (!note(chars)) return bad();
    out.resize(n);
    for (size_t i = 0; i < n; ++i) {
      if (!s.at(i)) continue;
      out[i] = Strip<T>(name != "strings.rstrip", name != "strings.lstrip",
                        *s.at(i), chars.at(i));
    }
  }
  return Pack<T>(array, out);
}

template <typename T>
Res Split(Args in) {
  Arg<T, Str> x(in[0]), sep(in[1]);
  if (!x.ok || !x.array || !sep.ok) {
    return absl::InvalidArgumentError("unexpected arguments of strings.split");
  }
  if (!sep.array && sep.v[0] && sep.v[0]->empty()) {
    return absl::InvalidArgumentError("separator is an empty string");
  }
  std::vector<Str> out;
  std::vector<int64_t> points{0};
  for (const auto& o : x.v) {
    if (o && sep.v[0]) {
      absl::string_view s = *o;
      for (;;) {
        size_t i = s.find(*sep.v[0]);
        out.push_back(std::string(s.substr(0, i)));
        if (i == absl::string_view::npos) break;
        s.remove_prefix(i + sep.v[0]->size());
      }
    } else if (o) {
      std::string word;
      for (const auto& c : Chars<T>(*o)) {
        if (!IsSpace<T>(c)) {
          word += c;
        } else if (!word.empty()) {
          out.push_back(word);
          word.clear();
        }
      }
      if (!word.empty()) out.push_back(word);
    }
    points.push_back(out.size());
  }
  return MakeTuple(
      {Pack<T>(true, out).AsRef(),
       TypedValue::FromValue(DenseArrayEdge::UnsafeFromSplitPoints(
                                 CreateFullDenseArray<int64_t>(points)))
           .AsRef()});
}

template <typename T>
Res AggJoin(Args in) {
  const auto& edge = in[1].UnsafeAs<DenseArrayEdge>();
  Arg<T, Str> x(in[0]), sep(in[2]);
  if (!x.ok || !x.array || !sep.ok) {
    return absl::InvalidArgumentError("unexpected arguments of agg_join");
  }
  std::vector<Str> out(edge.parent_size());
  for (int64_t i = 0; i < edge.child_size(); ++i) {
    auto p = edge.Parent(i);
    if (!p.present || !x.v[i]) continue;
    Str& r = out[p.value];
    if (r) {
      *r += sep.v[0].value_or("") + *x.v[i];
    } else {
      r = *x.v[i];
    }
  }
  return Pack<T>(true, out);
}

template <typename T>
MiniEvalFn Get(const std::string& n) {
  if (n == "strings.split") return [](Args in) { return Split<T>(in); };
  if (n == "strings.agg_join") return [](Args in) { return AggJoin<T>(in); };
  for (const char* k : {"find", "rfind", "join", "substr", "replace", "strip",
                        "lstrip", "rstrip"}) {
    if (n == std::string("strings.") + k) {
      return [n](Args in) { return Pointwise<T>(n, in); };
    }
  }
  return {};
}

}  // namespace

absl::StatusOr<MiniEvalFn> LookupMiniStringOp(
    absl::string_view name, absl::Span<const QTypePtr> types) {
  MiniEvalFn fn;
  auto add = [&]<typename T>(meta::type<T>) {
    if (types[0] == GetDenseArrayQType<T>() || types[0] == GetQType<T>() ||
        types[0] == GetQType<OptionalValue<T>>()) {
      fn = Get<T>(std::string(name));
    }
  };
  add(meta::type<Text>());
  add(meta::type<Bytes>());
  if (!fn) {
    return absl::UnimplementedError(
        absl::StrCat("no operator ", name, " on ", types[0]->name()));
  }
  return fn;
}
}  // namespace arolla
