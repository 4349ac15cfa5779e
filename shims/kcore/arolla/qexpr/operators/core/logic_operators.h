#include "arolla/mini/math.h"
