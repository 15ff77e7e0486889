#pragma once
namespace tensorflow {
class TensorSlice {
 public:
  explicit TensorSlice(int dims) : dims_(dims) {}
  int dims() const { return dims_; }

 private:
  int dims_;
};
}  // namespace tensorflow
