#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include "absl/log/check.h"
#define VERIF_LOG_INFO ::verif_shim::NullStream()
#define VERIF_LOG_WARNING ::verif_shim::NullStream()
#define VERIF_LOG_ERROR ::verif_shim::NullStream()
#define VERIF_LOG_FATAL ::verif_shim::FatalStream()
#define LOG(severity) VERIF_LOG_##severity
#endif
