#ifndef SIM_SHIM_ABSL_CHECK_H_
#define SIM_SHIM_ABSL_CHECK_H_
#include "absl/log/absl_log.h"
#define ABSL_CHECK(c) SIMLOG_IF(FATAL, !(c)) << "Check failed: " #c " "
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK(c) SIMLOG_IF(FATAL, false && !(c))
#define ABSL_CHECK_OK(s) ABSL_CHECK((s).ok())
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) ABSL_CHECK((a) != (b))
#define ABSL_CHECK_LE(a, b) ABSL_CHECK((a) <= (b))
#define ABSL_CHECK_LT(a, b) ABSL_CHECK((a) < (b))
#define ABSL_CHECK_GE(a, b) ABSL_CHECK((a) >= (b))
#define ABSL_CHECK_GT(a, b) ABSL_CHECK((a) > (b))
#endif
