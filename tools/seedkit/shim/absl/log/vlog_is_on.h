// Stand-in for absl/log/vlog_is_on.h; see log.h in this directory.
#ifndef VERIF_SHIM_ABSL_LOG_VLOG_IS_ON_H_
#define VERIF_SHIM_ABSL_LOG_VLOG_IS_ON_H_
#include "absl/log/log.h"
#endif
