// Stand-in for github.com/google/protodatastore-cpp (not available offline).
#ifndef SIM_SHIM_PROTOSTORE_FILE_STORAGE_H_
#define SIM_SHIM_PROTOSTORE_FILE_STORAGE_H_

#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"

namespace protostore {

class FileStorage {
 public:
  virtual ~FileStorage() = default;

  virtual absl::StatusOr<int64_t> GetFileSize(const std::string& path) const {
    int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0) {
      return absl::NotFoundError(absl::StrCat("open: ", strerror(errno)));
    }
    struct stat st;
    int r = ::fstat(fd, &st);
    ::close(fd);
    if (r != 0) return absl::InternalError("fstat");
    return static_cast<int64_t>(st.st_size);
  }

  absl::StatusOr<std::string> ReadAll(const std::string& path) const {
    int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0) {
      if (errno == ENOENT) return absl::NotFoundError("no such file");
      return absl::InternalError(absl::StrCat("open: ", strerror(errno)));
    }
    std::string out;
    char buf[4096];
    while (true) {
      ssize_t n = ::read(fd, buf, sizeof(buf));
      if (n < 0) {
        int e = errno;
        ::close(fd);
        return absl::InternalError(absl::StrCat("read: ", strerror(e)));
      }
      if (n == 0) break;
      out.append(buf, n);
    }
    ::close(fd);
    return out;
  }

  // Atomically (and durably) replaces `path`.
  absl::Status Replace(const std::string& path, const std::string& data) const {
    std::string tmp = path + ".tmp";
    int fd = ::open(tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) {
      return absl::InternalError(absl::StrCat("open: ", strerror(errno)));
    }
    size_t done = 0;
    while (done < data.size()) {
      ssize_t n = ::write(fd, data.data() + done, data.size() - done);
      if (n < 0) {
        int e = errno;
        ::close(fd);
        ::unlink(tmp.c_str());
        return absl::InternalError(absl::StrCat("write: ", strerror(e)));
      }
      done += n;
    }
    if (::fsync(fd) != 0) {
      int e = errno;
      ::close(fd);
      ::unlink(tmp.c_str());
      return absl::InternalError(absl::StrCat("fsync: ", strerror(e)));
    }
    ::close(fd);
    if (::rename(tmp.c_str(), path.c_str()) != 0) {
      int e = errno;
      ::unlink(tmp.c_str());
      return absl::InternalError(absl::StrCat("rename: ", strerror(e)));
    }
    return absl::OkStatus();
  }
};

}  // namespace protostore
#endif
