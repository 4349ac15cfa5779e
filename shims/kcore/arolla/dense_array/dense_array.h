#include "arolla/mini/array.h"
