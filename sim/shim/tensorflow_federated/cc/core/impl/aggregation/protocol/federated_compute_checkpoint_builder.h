// Stand-in for the client report wire format: the checkpoint writer stand-in's lines behind another header.
#pragma once
#include <map>
#include <memory>
#include "tensorflow_federated/cc/core/impl/aggregation/protocol/checkpoint_builder.h"
namespace tensorflow_federated {
namespace aggregation {
class FederatedComputeCheckpointBuilderFactory {
 public:
  std::unique_ptr<CheckpointBuilder> Create() const {
    class B : public CheckpointBuilder {
     public:
      absl::Status Add(const std::string& name, const Tensor& t) override {
        if (!m_.emplace(name, t.Render()).second) return absl::InvalidArgumentError("duplicate tensor");
        return absl::OkStatus();
      }
      absl::StatusOr<absl::Cord> Build() override {
        absl::Cord c("report\n");
        for (const auto& [k, v] : m_) c.Append(k + "=" + v + "\n");
        return c;
      }

     private:
      std::map<std::string, std::string> m_;
    };
    return std::make_unique<B>();
  }
};
}  // namespace aggregation
}  // namespace tensorflow_federated
