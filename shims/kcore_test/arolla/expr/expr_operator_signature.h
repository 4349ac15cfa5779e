#include "arolla/expr/expr_operator.h"
