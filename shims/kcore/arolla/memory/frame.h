#include "arolla/mini/frame.h"
