// Stand-in for the aggregation core's tensor.
#pragma once
#include <memory>
#include <string>
#include <utility>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor.pb.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_data.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_shape.h"
namespace tensorflow_federated {
namespace aggregation {
class Tensor {
 public:
  Tensor() = default;
  static absl::StatusOr<Tensor> Create(DataType t, TensorShape shape, std::unique_ptr<TensorData> data) {
    size_t unit = t == DT_INT32 || t == DT_FLOAT ? 4 : t == DT_INT64 || t == DT_DOUBLE ? 8 : sizeof(absl::string_view);
    if (data->byte_size() != unit * shape.elements()) return absl::InvalidArgumentError("tensor size");
    Tensor x;
    x.t_ = t;
    x.n_ = shape.elements();
    x.d_ = std::move(data);
    return x;
  }
  // One bracketed element after the other, as the checkpoint writer stand-in does.
  std::string Render() const {
    std::string out;
    const char* p = (const char*)d_->data();
    for (int64_t i = 0; i < n_; ++i) {
      switch (t_) {
        case DT_INT32: out += "[i4:" + std::string(p + 4 * i, 4) + "]"; break;
        case DT_FLOAT: out += "[f4:" + std::string(p + 4 * i, 4) + "]"; break;
        case DT_INT64: out += "[i8:" + std::string(p + 8 * i, 8) + "]"; break;
        case DT_DOUBLE: out += "[f8:" + std::string(p + 8 * i, 8) + "]"; break;
        default: out += "[s:" + std::string(((const absl::string_view*)p)[i]) + "]";
      }
    }
    return out;
  }

 private:
  DataType t_ = DT_INVALID;
  int64_t n_ = 0;
  std::unique_ptr<TensorData> d_;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
