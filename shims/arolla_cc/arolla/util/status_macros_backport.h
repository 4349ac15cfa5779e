// Stand-in for arolla's status macros: plain early returns (no streaming).
#ifndef VERIF_SHIM_STATUS_MACROS_H_
#define VERIF_SHIM_STATUS_MACROS_H_
#include <utility>
#include "absl/status/status.h"
#define RETURN_IF_ERROR(expr)                                   \
  if (absl::Status verif_status_ = (expr); verif_status_.ok()) { \
  } else                                                        \
    return verif_status_
#define VERIF_CONCAT2(a, b) a##b
#define VERIF_CONCAT(a, b) VERIF_CONCAT2(a, b)
#define ASSIGN_OR_RETURN(lhs, expr) \
  VERIF_ASSIGN_OR_RETURN(VERIF_CONCAT(verif_or_, __LINE__), lhs, expr)
#define VERIF_ASSIGN_OR_RETURN(tmp, lhs, expr) \
  auto tmp = (expr);                           \
  if (!tmp.ok()) return tmp.status();          \
  lhs = *std::move(tmp)
#endif
