// The installed flatbuffers has GenerateText instead of GenText.
#ifndef SIM_SHIM_FLATBUFFERS_IDL_H_
#define SIM_SHIM_FLATBUFFERS_IDL_H_
#include_next <flatbuffers/idl.h>
namespace flatbuffers {
inline const char* GenText(const Parser& parser, const void* flatbuffer,
                           std::string* text) {
  return GenerateText(parser, flatbuffer, text) ? nullptr : "GenerateText failed";
}
}  // namespace flatbuffers
#endif
