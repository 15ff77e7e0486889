#pragma once
#include "tensorflow/core/protobuf/config.pb.h"
namespace tensorflow {
struct SessionOptions {
  ConfigProto config;
};
}  // namespace tensorflow
