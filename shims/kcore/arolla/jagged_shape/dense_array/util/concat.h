#include "arolla/mini/concat.h"
