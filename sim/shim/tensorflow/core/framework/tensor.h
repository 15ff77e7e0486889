// Stand-in for TensorFlow's tensor: integers are kept widened, strings as they are.
#pragma once
#include <cstdint>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "tensorflow/core/framework/tensor.pb.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/framework/types.pb.h"
#include "tensorflow/core/platform/tstring.h"
#include "tensorflow/core/platform/types.h"
namespace tensorflow {
class Tensor {
 public:
  Tensor() : t_(DT_FLOAT) {}
  Tensor(DataType t, const TensorShape& s) : t_(t) {
    (t == DT_STRING ? (void)s_.resize(s.num_elements()) : (void)n_.resize(s.num_elements()));
  }
  explicit Tensor(std::string s) : t_(DT_STRING), s_{std::move(s)} {}
  static Tensor Ints(DataType t, std::vector<int64_t> v) {
    Tensor x;
    x.t_ = t;
    x.n_ = std::move(v);
    return x;
  }
  DataType dtype() const { return t_; }
  int64_t NumElements() const { return t_ == DT_STRING ? s_.size() : n_.size(); }
  template <typename T>
  struct Scalar {
    std::string* p;
    T& operator()() const { return *p; }
  };
  template <typename T>
  Scalar<T> scalar() const {
    static_assert(std::is_same<typename std::remove_const<T>::type, tstring>::value, "strings only");
    if (t_ != DT_STRING || s_.size() != 1) __builtin_trap();
    return Scalar<T>{const_cast<std::string*>(&s_[0])};
  }
  template <typename T>
  struct Flat {
    const std::vector<int64_t>* v;
    int64_t size() const { return (int64_t)v->size(); }
    T operator()(int64_t i) const { return static_cast<T>((*v)[i]); }
  };
  template <typename T>
  Flat<T> flat() const {
    return Flat<T>{&n_};
  }
  bool FromProto(const TensorProto& p) {
    t_ = p.dtype();
    s_.clear();
    n_.clear();
    if (t_ == DT_STRING) {
      for (const auto& s : p.string_val()) s_.push_back(s);
      return s_.size() == 1;
    }
    for (auto v : p.int64_val()) n_.push_back(v);
    return t_ == DT_INT64 && !n_.empty();
  }
  void AsProtoField(TensorProto* p) const {
    p->set_dtype(t_);
    for (const auto& s : s_) p->add_string_val(s);
    for (auto v : n_) p->add_int64_val(v);
  }

 private:
  DataType t_;
  std::vector<int64_t> n_;
  std::vector<std::string> s_;
};
}  // namespace tensorflow
