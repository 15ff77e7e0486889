// See cppbor.h.
#ifndef SIM_SHIM_CPPBOR_PARSE_H_
#define SIM_SHIM_CPPBOR_PARSE_H_
#include "libcppbor/include/cppbor/cppbor.h"

namespace cppbor {
using ParseResult = std::tuple<std::unique_ptr<Item>, const uint8_t*, std::string>;

inline ParseResult ParseAt(const uint8_t* b, const uint8_t* e, int depth) {
  auto fail = [&](const char* m) { return ParseResult(nullptr, b, m); };
  if (depth > 32) return fail("nested too deeply");
  if (b >= e) return fail("premature end");
  const uint8_t* start = b;
  uint8_t t = *b & 0xe0, ai = *b & 0x1f;
  ++b;
  uint64_t v = ai;
  if (ai >= 24) {
    if (ai > 27) return fail("reserved or indefinite length");
    int n = 1 << (ai - 24);
    if (e - b < n) return fail("premature end");
    v = 0;
    for (int i = 0; i < n; ++i) v = v << 8 | *b++;
  }
  switch (t) {
    case UINT:
      if (v > INT64_MAX) return fail("integer too large");
      return {std::make_unique<Int>(static_cast<int64_t>(v)), b, ""};
    case NINT:
      if (v > INT64_MAX) return fail("integer too small");
      return {std::make_unique<Int>(-1 - static_cast<int64_t>(v)), b, ""};
    case BSTR:
      if (static_cast<uint64_t>(e - b) < v) return fail("premature end");
      return {std::make_unique<Bstr>(b, b + v), b + v, ""};
    case TSTR:
      if (static_cast<uint64_t>(e - b) < v) return fail("premature end");
      return {std::make_unique<Tstr>(std::string(b, b + v)), b + v, ""};
    case ARRAY: {
      auto a = std::make_unique<Array>();
      for (uint64_t i = 0; i < v; ++i) {
        auto [item, pos, err] = ParseAt(b, e, depth + 1);
        if (!item) return {nullptr, pos, err};
        a->add(std::move(item));
        b = pos;
      }
      return {std::move(a), b, ""};
    }
    case MAP: {
      auto m = std::make_unique<Map>();
      for (uint64_t i = 0; i < v; ++i) {
        auto [k, pos, err] = ParseAt(b, e, depth + 1);
        if (!k) return {nullptr, pos, err};
        auto [x, pos2, err2] = ParseAt(pos, e, depth + 1);
        if (!x) return {nullptr, pos2, err2};
        m->add(std::move(k), std::move(x));
        b = pos2;
      }
      return {std::move(m), b, ""};
    }
    case SEMANTIC: {
      auto [item, pos, err] = ParseAt(b, e, depth + 1);
      if (!item) return {nullptr, pos, err};
      return {std::make_unique<Simple>(std::vector<uint8_t>(start, pos)), pos, ""};
    }
    default:
      return {std::make_unique<Simple>(std::vector<uint8_t>(start, b)), b, ""};
  }
}
inline ParseResult parse(const uint8_t* b, size_t n) { return ParseAt(b, b + n, 0); }
}  // namespace cppbor
#endif  // SIM_SHIM_CPPBOR_PARSE_H_
