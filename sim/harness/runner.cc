// A device over its lifetime: sessions of the federated computation runner
// against a contract-keeping server, with real persistence between them.
#include <openssl/sha.h>
#include <zlib.h>

#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <variant>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_split.h"
#include "fcp/base/clock.h"
#include "fcp/client/cache/temp_files.h"
#include "fcp/client/engine/plan_engine_helpers.h"
#include "fcp/client/engine/tflite_plan_engine.h"
#include "fcp/client/example_query_result.pb.h"
#include "fcp/client/federated_protocol.h"
#include "fcp/client/federated_select.h"
#include "fcp/client/fl_runner.h"
#include "fcp/client/flags.h"
#include "fcp/client/http/http_client.h"
#include "fcp/client/log_manager.h"
#include "fcp/client/opstats/opstats_example_store.h"
#include "fcp/client/opstats/opstats_logger.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"
#include "fcp/client/phase_logger_impl.h"
#include "fcp/client/selector_context.pb.h"
#include "fcp/client/simple_task_environment.h"
#include "fcp/client/task_result_info.pb.h"
#include "fcp/protos/opstats.pb.h"
#include "fcp/protos/plan.pb.h"
#include "fcp/protos/population_eligibility_spec.pb.h"
#include "fcp/tensorflow/external_dataset.h"
#include "google/protobuf/util/message_differencer.h"
#include "google/protobuf/util/time_util.h"
#include "re2/re2.h"
#include "tensorflow/core/example/example.pb.h"
#include "tensorflow/core/public/session.h"
#include "tensorflow/core/util/tensor_slice_writer.h"

#include "../rt/sim.h"

using sim::Choose;
using sim::kData;
using sim::kFault;
using sim::kNet;
using sim::kTime;
using sim::kWork;

#include "simnet.inc"
#include "runner.inc"

const char* kRealComponents[] = {
    "fcp/client/fl_runner.cc", "fcp/client/eligibility_decider.cc", "fcp/client/phase_logger_impl.cc",
    "fcp/client/opstats/*", "fcp/client/engine/simple_plan_engine.cc", "fcp/client/engine/tf_wrapper.cc",
    "fcp/client/engine/example_query_plan_engine.cc", "fcp/client/engine/plan_engine_helpers.cc",
    "fcp/client/federated_select.cc", "fcp/client/http/in_memory_request_response.cc",
    "fcp/client/interruptible_runner.cc", "fcp/client/cache/temp_files.cc",
    "fcp/client/example_iterator_query_recorder.cc", "fcp/client/simple_task_environment.cc",
    "fcp/tensorflow/host_object.cc", nullptr};
const char* kStubComponents[] = {"server protocol (contract-keeping model)", "TensorFlow and TFLite (simulated programs)",
                                 "example stores", "HTTP client (simulated network)",
                                 "protocol data store library (reference implementation)",
                                 "aggregation checkpoint builder", "absl synchronisation (scheduler seam)",
                                 "system clocks", "disk (fault-injecting file system)", nullptr};

void SimRun() { run::Main(); }
