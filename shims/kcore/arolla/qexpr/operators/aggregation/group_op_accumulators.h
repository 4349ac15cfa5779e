#include "arolla/mini/ops.h"
