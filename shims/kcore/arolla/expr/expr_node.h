#include "arolla/mini/qtype.h"
