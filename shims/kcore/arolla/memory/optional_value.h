#include "arolla/mini/optional.h"
