// Stand-in for absl/log (missing from the installed abseil). Non-fatal messages
// are evaluated and dropped; FATAL reports to the simulator and never returns.
#ifndef SIM_SHIM_ABSL_LOG_H_
#define SIM_SHIM_ABSL_LOG_H_

#include <ostream>
#include <sstream>
#include <string>

#include "absl/base/attributes.h"
#include "absl/base/log_severity.h"
#include "absl/base/optimization.h"
#include "absl/strings/string_view.h"

extern "C" [[noreturn]] void sim_fatal(const char* file, int line,
                                       const char* msg);

namespace simlog {

class Null {
 public:
  Null(const char*, int) {}
  Null& WithVerbosity(int) { return *this; }
  Null& AtLocation(...) { return *this; }
  Null& WithPerror() { return *this; }
  Null& NoPrefix() { return *this; }
  template <typename T>
  Null& operator<<(const T&) {
    return *this;
  }
  Null& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};

class Fatal {
 public:
  Fatal(const char* f, int l) : f_(f), l_(l) {}
  [[noreturn]] ~Fatal() { sim_fatal(f_, l_, s_.str().c_str()); }
  Fatal& WithVerbosity(int) { return *this; }
  Fatal& WithPerror() { return *this; }
  template <typename T>
  Fatal& operator<<(const T& t) {
    s_ << t;
    return *this;
  }
  Fatal& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }

 private:
  const char* f_;
  int l_;
  std::ostringstream s_;
};

struct Voidify {
  template <typename T>
  void operator&&(T&&) const {}
};

}  // namespace simlog

#define SIMLOG_INFO ::simlog::Null(__FILE__, __LINE__)
#define SIMLOG_WARNING ::simlog::Null(__FILE__, __LINE__)
#define SIMLOG_ERROR ::simlog::Null(__FILE__, __LINE__)
#ifdef NDEBUG
#define SIMLOG_DFATAL ::simlog::Null(__FILE__, __LINE__)
#else
#define SIMLOG_DFATAL ::simlog::Fatal(__FILE__, __LINE__)
#endif
#define SIMLOG_FATAL ::simlog::Fatal(__FILE__, __LINE__)
#define SIMLOG_QFATAL ::simlog::Fatal(__FILE__, __LINE__)
#define SIMLOG_IF(sev, cond) \
  switch (0)                 \
  default:                   \
    !(cond) ? (void)0 : ::simlog::Voidify() && SIMLOG_##sev

#define ABSL_LOG(sev) SIMLOG_##sev
#define ABSL_LOG_IF(sev, cond) SIMLOG_IF(sev, cond)
#define ABSL_LOG_FIRST_N(sev, n) SIMLOG_IF(sev, false)
#define ABSL_LOG_EVERY_N(sev, n) SIMLOG_IF(sev, false)
#define ABSL_VLOG(v) SIMLOG_IF(INFO, false)
#define ABSL_DLOG(sev) SIMLOG_IF(sev, false)
#endif
