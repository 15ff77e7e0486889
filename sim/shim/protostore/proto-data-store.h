// Stand-in for github.com/google/protodatastore-cpp (not available offline).
// Same contract: a checksummed header in front of one serialized message, an
// atomic replace on write, and a cached copy of the last message read/written.
#ifndef SIM_SHIM_PROTOSTORE_PROTO_DATA_STORE_H_
#define SIM_SHIM_PROTOSTORE_PROTO_DATA_STORE_H_

#include <zlib.h>

#include <memory>
#include <string>
#include <utility>

#include "absl/synchronization/mutex.h"
#include "protostore/file-storage.h"

namespace protostore {

template <typename ProtoT>
class ProtoDataStore {
 public:
  ProtoDataStore(const FileStorage& storage, absl::string_view path)
      : storage_(storage), path_(path) {}
  ProtoDataStore(const ProtoDataStore&) = delete;
  ProtoDataStore& operator=(const ProtoDataStore&) = delete;

  absl::StatusOr<const ProtoT*> Read() const {
    absl::MutexLock lock(&mu_);
    if (cached_ != nullptr) return cached_.get();
    absl::StatusOr<std::string> data = storage_.ReadAll(path_);
    if (!data.ok()) return data.status();
    if (data->size() < 8 || data->compare(0, 4, "SPDS") != 0) {
      return absl::InternalError("Invalid header kMagic");
    }
    uint32_t crc = 0;
    for (int i = 0; i < 4; ++i) {
      crc |= static_cast<uint32_t>(static_cast<unsigned char>((*data)[4 + i]))
             << (8 * i);
    }
    if (crc != Crc(data->data() + 8, data->size() - 8)) {
      return absl::InternalError("Checksum of file does not match");
    }
    auto proto = std::make_unique<ProtoT>();
    if (!proto->ParseFromArray(data->data() + 8, data->size() - 8)) {
      return absl::InternalError("Proto parse failed");
    }
    cached_ = std::move(proto);
    return cached_.get();
  }

  absl::Status Write(std::unique_ptr<ProtoT> proto) {
    absl::MutexLock lock(&mu_);
    std::string body = proto->SerializeAsString();
    uint32_t crc = Crc(body.data(), body.size());
    std::string out = "SPDS";
    for (int i = 0; i < 4; ++i) out.push_back((crc >> (8 * i)) & 0xff);
    out += body;
    absl::Status s = storage_.Replace(path_, out);
    if (!s.ok()) return s;
    cached_ = std::move(proto);
    return absl::OkStatus();
  }

 private:
  static uint32_t Crc(const char* p, size_t n) {
    return crc32(0, reinterpret_cast<const Bytef*>(p), n);
  }

  const FileStorage& storage_;
  const std::string path_;
  mutable absl::Mutex mu_;
  mutable std::unique_ptr<ProtoT> cached_;
};

}  // namespace protostore
#endif
