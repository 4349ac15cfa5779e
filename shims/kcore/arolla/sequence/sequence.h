#include "arolla/mini/s11n.h"
