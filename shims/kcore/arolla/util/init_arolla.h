#pragma once
#include "arolla/mini/base.h"
namespace arolla { inline void InitArolla() {} }
