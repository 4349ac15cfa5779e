#pragma once
#include "gmock/gmock.h"
#include "arolla/mini/ops.h"
namespace arolla::testing {
MATCHER_P(IsEquivalentTo, expected, "") { return arg.IsEquivalentTo(expected); }
}
