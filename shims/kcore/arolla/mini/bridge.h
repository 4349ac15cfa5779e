#ifndef VERIF_MINI_AROLLA_BRIDGE_H_
#define VERIF_MINI_AROLLA_BRIDGE_H_
// Evaluation of registered operators by name: a table of functions on values.
#include "absl/container/node_hash_map.h"
#include "arolla/mini/array.h"
#include "arolla/mini/frame.h"
#include "arolla/mini/ops.h"

namespace arolla {
struct NotePayload {
  std::string note;
};
using MiniEvalFn = std::function<absl::StatusOr<TypedValue>(
    absl::Span<const TypedRef>)>;
// Implemented in mini/eval_table.cc.
absl::StatusOr<MiniEvalFn> LookupMiniOp(absl::string_view name,
                                        absl::Span<const QTypePtr> types);

inline absl::StatusOr<QTypePtr> GetScalarQType(QTypePtr t) {
  if (t->value_qtype() != nullptr) return t->value_qtype();
  return t;
}
namespace expr {
struct VerboseRuntimeError {
  std::string operator_name;
};
class RegisteredOperator {
 public:
  explicit RegisteredOperator(absl::string_view n) : name_(n) {}
  const std::string& name() const { return name_; }

 private:
  std::string name_;
};
inline absl::StatusOr<ExprNodePtr> CallOp(absl::string_view name,
                                          std::vector<ExprNodePtr> args) {
  std::string t = std::string(name) + "(";
  for (const auto& a : args) t += a->text + ",";
  return RefcountPtr<const ExprNode>::Make(t + ")");
}
}  // namespace expr
struct MiniInputLoader {};
inline MiniInputLoader CreateTypedRefsInputLoader(
    std::vector<std::pair<std::string, QTypePtr>>) {
  return {};
}
template <typename In, typename Out>
class ExprCompiler {
 public:
  ExprCompiler& SetAlwaysCloneThreadSafetyPolicy() { return *this; }
  ExprCompiler& SetPoolThreadSafetyPolicy() { return *this; }
  ExprCompiler& SetInputLoader(MiniInputLoader) { return *this; }
  absl::StatusOr<std::function<absl::StatusOr<Out>(const In&)>> CompileOperator(
      const std::shared_ptr<expr::RegisteredOperator>& op,
      const std::vector<QTypePtr>& types) {
    ASSIGN_OR_RETURN(MiniEvalFn fn, LookupMiniOp(op->name(), types));
    return [fn](const In& in) -> absl::StatusOr<Out> { return fn(in); };
  }
  absl::StatusOr<std::function<absl::StatusOr<Out>(const In&)>> Compile(
      const expr::ExprNodePtr&) {
    return absl::UnimplementedError("no expressions");
  }
};
template <typename K, typename V, typename H = absl::Hash<K>,
          typename E = std::equal_to<K>>
class LruCache {
 public:
  explicit LruCache(size_t n) : n_(n) {}
  template <typename L>
  const V* LookupOrNull(const L& k) {
    auto it = m_.find(k);
    return it == m_.end() ? nullptr : &it->second;
  }
  const V* Put(K k, V v) {
    if (m_.size() >= n_) m_.clear();
    return &m_.emplace(std::move(k), std::move(v)).first->second;
  }
  void Clear() { m_.clear(); }

 private:
  size_t n_;
  absl::node_hash_map<K, V, H, E> m_;
};
}  // namespace arolla
#endif
