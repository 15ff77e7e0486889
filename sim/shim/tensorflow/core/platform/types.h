#pragma once
#include <cstdint>
namespace tensorflow {
using int64 = long long;
}
