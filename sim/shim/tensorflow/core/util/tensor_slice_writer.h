// Stand-in for TensorFlow's checkpoint writer: one line per tensor, written on Finish().
#pragma once
#include <cstdio>
#include <map>
#include <string>
#include "absl/status/status.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/framework/tensor_slice.h"
#include "tensorflow/core/platform/tstring.h"
namespace tensorflow {
namespace checkpoint {
inline void CreateTableTensorSliceBuilder() {}
inline std::string Render(const char* type, const void* p, size_t n) {
  return std::string(type) + ":" + std::string((const char*)p, n);
}
inline std::string RenderOne(const int32_t& v) { return Render("i4", &v, 4); }
inline std::string RenderOne(const int64_t& v) { return Render("i8", &v, 8); }
inline std::string RenderOne(const bool& v) { return Render("b", &v, 1); }
inline std::string RenderOne(const float& v) { return Render("f4", &v, 4); }
inline std::string RenderOne(const double& v) { return Render("f8", &v, 8); }
inline std::string RenderOne(const std::string& v) { return Render("s", v.data(), v.size()); }
class TensorSliceWriter {
 public:
  template <typename F>
  TensorSliceWriter(const std::string& file, F) : file_(file) {}
  template <typename T>
  absl::Status Add(const std::string& name, const TensorShape& shape, const TensorSlice&, const T* data) {
    std::string out;
    for (int64_t i = 0; i < shape.num_elements(); ++i) out += "[" + RenderOne(data[i]) + "]";
    if (!m_.emplace(name, out).second) return absl::InvalidArgumentError("duplicate slice");
    return absl::OkStatus();
  }
  absl::Status Finish() {
    std::string all = Contents(m_);
    FILE* f = fopen(file_.c_str(), "w");
    if (!f) return absl::InternalError("open");
    bool ok = fwrite(all.data(), 1, all.size(), f) == all.size();
    ok = (fclose(f) == 0) && ok;
    return ok ? absl::OkStatus() : absl::InternalError("write");
  }
  static std::string Contents(const std::map<std::string, std::string>& m) {
    std::string all = "slices\n";
    for (const auto& [k, v] : m) all += k + "=" + v + "\n";
    return all;
  }

 private:
  std::string file_;
  std::map<std::string, std::string> m_;
};
}  // namespace checkpoint
}  // namespace tensorflow
