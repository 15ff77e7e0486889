#ifndef SIM_SHIM_LOG_H_
#define SIM_SHIM_LOG_H_
#include "absl/log/absl_log.h"
#ifndef LOG
#define LOG(sev) ABSL_LOG(sev)
#define LOG_IF(sev, c) ABSL_LOG_IF(sev, c)
#define VLOG(v) ABSL_VLOG(v)
#endif
#endif
