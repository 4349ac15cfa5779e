#include "arolla/mini/base.h"
