// Stand-in for TensorFlow's string type.
#pragma once
#include <string>
namespace tensorflow {
using tstring = std::string;
}
