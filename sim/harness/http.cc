#include "http.inc"

const char* kRealComponents[] = {
    "fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc",
    "fcp/client/interruptible_runner.cc", "fcp/base/compression.cc", "fcp/base/scheduler.cc",
    "fcp/base/future.h", nullptr};
const char* kStubComponents[] = {"HTTP client and the servers behind it (simulated network)",
                                 "resource cache (reference cache with injected faults)",
                                 "absl synchronisation (scheduler seam)", "system clocks",
                                 "entropy source", "log manager", nullptr};

void SimRun() {
  std::string p = sim::Property();
  if (p == "H02") RunH02();
  else if (p == "H03" || p == "H04" || p == "H08" || p == "H09" || p == "C01") ses::Main();
  else sim::HarnessError("no such property");
}
