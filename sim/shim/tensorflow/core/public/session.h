// Stand-in for TensorFlow's session; the harness supplies NewSession().
#pragma once
#include <string>
#include <utility>
#include <vector>
#include "absl/status/status.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/public/session_options.h"
namespace tensorflow {
struct GraphDef {
  std::string bytes;
  bool ParseFromString(const std::string& s) {
    bytes = s;
    return s.rfind("bad", 0) != 0;
  }
};
class Session {
 public:
  virtual ~Session() = default;
  virtual absl::Status Create(const GraphDef& graph) = 0;
  virtual absl::Status Create(GraphDef&& graph) { return Create(static_cast<const GraphDef&>(graph)); }
  virtual absl::Status Run(const std::vector<std::pair<std::string, Tensor>>& inputs,
                           const std::vector<std::string>& output_tensor_names,
                           const std::vector<std::string>& target_tensor_names,
                           std::vector<Tensor>* outputs) = 0;
  virtual absl::Status Close() = 0;
};
absl::Status NewSession(const SessionOptions& options, Session** out);
}  // namespace tensorflow
