#ifndef VERIF_LIFTER_H_
#define VERIF_LIFTER_H_
#include "arolla/mini/array.h"
#include "arolla/mini/ops.h"
namespace arolla {
template <typename Fn, typename = void>
struct IsRunOnMissingOp : std::false_type {};
template <typename Fn>
struct IsRunOnMissingOp<Fn, std::void_t<typename Fn::run_on_missing>>
    : Fn::run_on_missing {};
}  // namespace arolla
#endif
