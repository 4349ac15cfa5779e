// Stand-in: iterables are not modelled.
#pragma once
#include "arolla/mini/s11n.h"
namespace koladata::iterables {
inline bool IsIterableQType(const arolla::QType*) { return false; }
inline arolla::QTypePtr GetIterableQType(arolla::QTypePtr) {
  return arolla::GetQType<arolla::Sequence>();
}
}  // namespace koladata::iterables
