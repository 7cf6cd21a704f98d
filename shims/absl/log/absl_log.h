#pragma once
#include "absl/log/absl_check.h"
#define INK_SHIM_LOG_INFO ::ink_shim::Null{}
#define INK_SHIM_LOG_WARNING ::ink_shim::Null{}
#define INK_SHIM_LOG_ERROR ::ink_shim::Null{}
#define INK_SHIM_LOG_DFATAL ::ink_shim::Null{}
#define INK_SHIM_LOG_FATAL ::ink_shim::Dead{"LOG(FATAL)", __FILE__, __LINE__}
#define ABSL_LOG(s) switch (0) case 0: default: ::ink_shim::Voidify() && INK_SHIM_LOG_##s
#define ABSL_LOG_IF(s, c) switch (0) case 0: default: if (!(c)) {} else ::ink_shim::Voidify() && INK_SHIM_LOG_##s
#define ABSL_LOG_FIRST_N(s, n) ABSL_LOG(s)
#define ABSL_LOG_EVERY_N(s, n) ABSL_LOG(s)
#define ABSL_DLOG(s) ABSL_LOG(s)
