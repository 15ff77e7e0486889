// File system seam: paths below /simfs are mapped to a per-process scratch
// directory and are subject to injected faults. Anything else may be read but
// not modified by the code under test.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <string>
#include <vector>

#include "rt_internal.h"

#ifdef fopen
#undef fopen
#endif

namespace sim {
namespace {

FsFaults g_fs;
uint64_t g_ops = 0;
constexpr int kMaxFd = 1024;
char g_tracked[kMaxFd];  // 1: file below /simfs

template <typename F>
F Real(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) {
    fprintf(stderr, "simfs: no real %s\n", name);
    abort();
  }
  return reinterpret_cast<F>(p);
}

bool IsSim(const char* p) {
  return g_active && p && !strncmp(p, "/simfs", 6) && (p[6] == 0 || p[6] == '/');
}

struct Path {
  char buf[1024];
  const char* p;
  bool sim;
  explicit Path(const char* in) : p(in), sim(false) {
    if (IsSim(in)) {
      snprintf(buf, sizeof(buf), "%s%s", sh->scratch, in + 6);
      p = buf;
      sim = true;
    }
  }
};

// A mutating call on a path outside the simulated disk.
void CheckContained(const char* p, const char* what) {
  if (!g_active || g_in_rt) return;
  if (p && !strcmp(p, "/dev/null")) return;
  if (!IsSim(p) || strstr(p, "/../") ||
      (strlen(p) >= 3 && !strcmp(p + strlen(p) - 3, "/.."))) {
    Violation(nullptr, "file system: %s outside the given directory: %s", what, p);
  }
}

bool Faults() { return g_active && g_fs.enabled && g_in_rt == 0; }

void MaybeCrash(const char* what) {
  if (g_fs.p_crash > 0 && Flip(kFault, g_fs.p_crash)) {
    CountFault("process_crash");
    Event("crash at %s", what);
    CrashHere();
  }
}

bool MetaError(const char* what, const char* path) {
  if (!Faults()) return false;
  ++g_ops;
  YieldInternal(what);
  MaybeCrash(what);
  if (g_fs.p_meta_error > 0 && Flip(kFault, g_fs.p_meta_error)) {
    CountFault("disk_meta_error");
    Event("%s fails with EIO", what);
    errno = EIO;
    return true;
  }
  return false;
}
void AfterMeta(const char* what) {
  if (!Faults()) return;
  int e = errno;
  MaybeCrash(what);
  errno = e;
}

typedef ssize_t (*WriteF)(int, const void*, size_t);
ssize_t RealWrite(int fd, const void* b, size_t n) {
  static WriteF real = Real<WriteF>("write");
  return real(fd, b, n);
}

ssize_t SimWrite(int fd, const void* b, size_t n) {
  ++g_ops;
  YieldInternal("write");
  MaybeCrash("before write");
  if (n > 0 && g_fs.p_torn > 0 && Flip(kFault, g_fs.p_torn)) {
    size_t k = Choose(kFault, n < 1000000 ? n : 1000000);
    if (k) RealWrite(fd, b, k);
    CountFault("torn_write_crash");
    Event("torn write of %zu/%zu bytes, crash", k, n);
    CrashHere();
  }
  if (g_fs.disk_full || (g_fs.p_error > 0 && Flip(kFault, g_fs.p_error))) {
    bool full = g_fs.disk_full || Choose(kFault, 2) == 0;
    CountFault(full ? "disk_full" : "disk_write_error");
    Event("write of %zu bytes fails with %s", n, full ? "ENOSPC" : "EIO");
    errno = full ? ENOSPC : EIO;
    return -1;
  }
  if (n > 1 && g_fs.p_short > 0 && Flip(kFault, g_fs.p_short)) {
    n = 1 + Choose(kFault, n - 1 < 1000000 ? n - 1 : 1000000);
    CountFault("short_write");
  }
  ssize_t r = RealWrite(fd, b, n);
  AfterMeta("after write");
  return r;
}

bool Tracked(int fd) { return g_active && fd >= 0 && fd < kMaxFd && g_tracked[fd]; }
void Track(int fd, bool sim) {
  if (g_active && fd >= 0 && fd < kMaxFd) g_tracked[fd] = sim;
}

std::map<DIR*, std::pair<size_t, std::vector<struct dirent64>>>& Dirs() {
  static auto* m =
      new std::map<DIR*, std::pair<size_t, std::vector<struct dirent64>>>();
  return *m;
}

}  // namespace

FsFaults& fs() { return g_fs; }
void FsSetRoot(const std::string&) {}
uint64_t FsOps() { return g_ops; }

}  // namespace sim

using namespace sim;

extern "C" {

static int DoOpen(const char* name, const char* path, int flags, mode_t mode) {
  typedef int (*F)(const char*, int, ...);
  static F real = Real<F>("open64");
  if (!g_active) return real(path, flags, mode);
  bool mutating = (flags & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) != 0;
  if (mutating) CheckContained(path, "open for writing");
  Path p(path);
  if (p.sim && MetaError(mutating ? "open for writing" : "open", path)) return -1;
  int fd = real(p.p, flags, mode);
  Track(fd, p.sim);
  if (p.sim && mutating) AfterMeta("after open");
  return fd;
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, int);
  va_end(ap);
  return DoOpen("open", path, flags, m);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, int);
  va_end(ap);
  return DoOpen("open64", path, flags, m);
}
int openat(int dir, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, int);
  va_end(ap);
  typedef int (*F)(int, const char*, int, ...);
  static F real = Real<F>("openat64");
  if (!g_active) return real(dir, path, flags, m);
  if (dir == AT_FDCWD || path[0] == '/') return DoOpen("openat", path, flags, m);
  return real(dir, path, flags, m);
}
int openat64(int dir, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, int);
  va_end(ap);
  return openat(dir, path, flags, m);
}
// The fortified variants libraries are built with.
int __openat_2(int dir, const char* path, int flags) { return openat(dir, path, flags, 0); }
int __openat64_2(int dir, const char* path, int flags) { return openat(dir, path, flags, 0); }
int __open_2(const char* path, int flags) { return open(path, flags, 0); }
int __open64_2(const char* path, int flags) { return open(path, flags, 0); }
int creat(const char* path, mode_t m) {
  return DoOpen("creat", path, O_CREAT | O_WRONLY | O_TRUNC, m);
}

static FILE* DoFopen(const char* path, const char* mode) {
  typedef FILE* (*F)(const char*, const char*);
  static F real = Real<F>("fopen64");
  if (!g_active) return real(path, mode);
  bool mutating = strpbrk(mode, "wa+") != nullptr;
  if (mutating) CheckContained(path, "open for writing");
  Path p(path);
  if (p.sim && MetaError(mutating ? "open for writing" : "open", path)) return nullptr;
  FILE* f = real(p.p, mode);
  if (f) Track(fileno(f), p.sim);
  if (p.sim && mutating && f) AfterMeta("after open");
  return f;
}
FILE* fopen(const char* path, const char* mode) { return DoFopen(path, mode); }
FILE* fopen64(const char* path, const char* mode) { return DoFopen(path, mode); }

ssize_t write(int fd, const void* b, size_t n) {
  if (!Tracked(fd) || !Faults()) return RealWrite(fd, b, n);
  return SimWrite(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int cnt) {
  typedef ssize_t (*F)(int, const struct iovec*, int);
  static F real = Real<F>("writev");
  if (!Tracked(fd) || !Faults()) return real(fd, v, cnt);
  std::string all;
  for (int i = 0; i < cnt; ++i)
    all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
  return SimWrite(fd, all.data(), all.size());
}
ssize_t read(int fd, void* b, size_t n) {
  typedef ssize_t (*F)(int, void*, size_t);
  static F real = Real<F>("read");
  if (!Tracked(fd) || !Faults()) return real(fd, b, n);
  ++g_ops;
  YieldInternal("read");
  if (g_fs.p_error > 0 && Flip(kFault, g_fs.p_error)) {
    CountFault("disk_read_error");
    Event("read fails with EIO");
    errno = EIO;
    return -1;
  }
  if (n > 1 && g_fs.p_short > 0 && Flip(kFault, g_fs.p_short)) {
    n = 1 + Choose(kFault, n - 1 < 4096 ? n - 1 : 4096);
    CountFault("short_read");
  }
  return real(fd, b, n);
}
int fsync(int fd) {
  typedef int (*F)(int);
  static F real = Real<F>("fsync");
  if (!Tracked(fd)) return real(fd);
  if (Faults()) {
    ++g_ops;
    MaybeCrash("fsync");
    if (g_fs.p_error > 0 && Flip(kFault, g_fs.p_error)) {
      CountFault("disk_sync_error");
      errno = EIO;
      return -1;
    }
  }
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int close(int fd) {
  typedef int (*F)(int);
  static F real = Real<F>("close");
  if (g_active && fd >= 0 && fd < kMaxFd) g_tracked[fd] = 0;
  return real(fd);
}

int rename(const char* a, const char* b) {
  typedef int (*F)(const char*, const char*);
  static F real = Real<F>("rename");
  if (!g_active) return real(a, b);
  CheckContained(a, "rename");
  CheckContained(b, "rename");
  if (MetaError("rename", a)) return -1;
  Path pa(a), pb(b);
  int r = real(pa.p, pb.p);
  AfterMeta("after rename");
  return r;
}
#define ONEPATH(fn)                             \
  int fn(const char* a) {                       \
    typedef int (*F)(const char*);              \
    static F real = Real<F>(#fn);               \
    if (!g_active) return real(a);              \
    CheckContained(a, #fn);                     \
    if (MetaError(#fn, a)) return -1;           \
    Path p(a);                                  \
    int r = real(p.p);                          \
    AfterMeta("after " #fn);                    \
    return r;                                   \
  }
ONEPATH(unlink)
ONEPATH(rmdir)
ONEPATH(remove)
int unlinkat(int dir, const char* a, int flags) {
  typedef int (*F)(int, const char*, int);
  static F real = Real<F>("unlinkat");
  if (!g_active) return real(dir, a, flags);
  if (a[0] == '/') {
    CheckContained(a, "unlink");
    if (MetaError("unlink", a)) return -1;
    Path p(a);
    return real(dir, p.p, flags);
  }
  return real(dir, a, flags);
}
int mkdir(const char* a, mode_t m) {
  typedef int (*F)(const char*, mode_t);
  static F real = Real<F>("mkdir");
  if (!g_active) return real(a, m);
  CheckContained(a, "mkdir");
  if (MetaError("mkdir", a)) return -1;
  Path p(a);
  int r = real(p.p, m);
  AfterMeta("after mkdir");
  return r;
}
int truncate(const char* a, off_t n) {
  typedef int (*F)(const char*, off_t);
  static F real = Real<F>("truncate");
  if (!g_active) return real(a, n);
  CheckContained(a, "truncate");
  Path p(a);
  return real(p.p, n);
}
int truncate64(const char* a, off_t n) { return truncate(a, n); }
int chmod(const char* a, mode_t m) {
  typedef int (*F)(const char*, mode_t);
  static F real = Real<F>("chmod");
  if (!g_active) return real(a, m);
  CheckContained(a, "chmod");
  Path p(a);
  return real(p.p, m);
}

int flock(int fd, int op) {
  typedef int (*F)(int, int);
  static F real = Real<F>("flock");
  if (Faults() && (op & LOCK_EX)) {
    ++g_ops;
    YieldInternal("flock");
    if (g_fs.p_meta_error > 0 && Flip(kFault, g_fs.p_meta_error)) {
      CountFault("lock_held_elsewhere");
      errno = EWOULDBLOCK;
      return -1;
    }
  }
  return real(fd, op);
}

#define STATFN(fn, T)                            \
  int fn(const char* a, T* st) {                 \
    typedef int (*F)(const char*, T*);           \
    static F real = Real<F>(#fn);                \
    Path p(a);                                   \
    if (p.sim && Faults()) ++g_ops;              \
    return real(p.p, st);                        \
  }
STATFN(stat, struct stat)
STATFN(stat64, struct stat64)
STATFN(lstat, struct stat)
STATFN(lstat64, struct stat64)
STATFN(statvfs, struct statvfs)
STATFN(statvfs64, struct statvfs64)
int fstatat(int dir, const char* a, struct stat* st, int flags) {
  typedef int (*F)(int, const char*, struct stat*, int);
  static F real = Real<F>("fstatat");
  Path p(a);
  return real(dir, p.p, st, flags);
}
int fstatat64(int dir, const char* a, struct stat64* st, int flags) {
  typedef int (*F)(int, const char*, struct stat64*, int);
  static F real = Real<F>("fstatat64");
  Path p(a);
  return real(dir, p.p, st, flags);
}
int access(const char* a, int m) {
  typedef int (*F)(const char*, int);
  static F real = Real<F>("access");
  Path p(a);
  return real(p.p, m);
}
DIR* opendir(const char* a) {
  typedef DIR* (*F)(const char*);
  static F real = Real<F>("opendir");
  Path p(a);
  if (p.sim && MetaError("opendir", a)) return nullptr;
  return real(p.p);
}
// Directory listings in a fixed order.
struct dirent64* readdir64(DIR* d) {
  typedef struct dirent64* (*F)(DIR*);
  static F real = Real<F>("readdir64");
  if (!g_active) return real(d);
  auto& m = Dirs();
  auto it = m.find(d);
  if (it == m.end()) {
    it = m.emplace(d, std::pair<size_t, std::vector<struct dirent64>>()).first;
    while (struct dirent64* e = real(d)) it->second.second.push_back(*e);
    std::sort(it->second.second.begin(), it->second.second.end(),
              [](const struct dirent64& a, const struct dirent64& b) {
                return strcmp(a.d_name, b.d_name) < 0;
              });
    it->second.first = 0;
    if (Faults() && g_fs.p_error > 0 && Flip(kFault, g_fs.p_error)) {
      CountFault("disk_read_error");
      m.erase(it);
      errno = EIO;
      return nullptr;
    }
  }
  if (it->second.first >= it->second.second.size()) return nullptr;
  return &it->second.second[it->second.first++];
}
struct dirent* readdir(DIR* d) {
  return reinterpret_cast<struct dirent*>(readdir64(d));
}
int closedir(DIR* d) {
  typedef int (*F)(DIR*);
  static F real = Real<F>("closedir");
  if (g_active) Dirs().erase(d);
  return real(d);
}

}  // extern "C"
