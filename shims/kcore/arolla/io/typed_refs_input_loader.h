#include "arolla/mini/bridge.h"
