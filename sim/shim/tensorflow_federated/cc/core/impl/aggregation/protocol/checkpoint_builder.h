#pragma once
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor.h"
namespace tensorflow_federated {
namespace aggregation {
class CheckpointBuilder {
 public:
  virtual ~CheckpointBuilder() = default;
  virtual absl::Status Add(const std::string& name, const Tensor& tensor) = 0;
  virtual absl::StatusOr<absl::Cord> Build() = 0;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
