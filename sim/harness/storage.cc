// On-device storage: resource cache, temporary files, operational statistics
// (database, logger, example store) and the file helpers below them, on a
// simulated disk with errors, torn writes, crashes and restarts.
#include <dirent.h>
#include <fcntl.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/status/status.h"
#include "absl/strings/cord.h"
#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "fcp/base/clock.h"
#include "fcp/base/platform.h"
#include "fcp/client/cache/file_backed_resource_cache.h"
#include "fcp/client/cache/temp_files.h"
#include "fcp/client/flags.h"
#include "fcp/client/log_manager.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"
#include "google/protobuf/util/message_differencer.h"
#include "google/protobuf/util/time_util.h"
#include "sim.h"

const char* kRealComponents[] = {
    "fcp/client/cache/file_backed_resource_cache.cc",
    "fcp/client/cache/temp_files.cc",
    "fcp/client/opstats/pds_backed_opstats_db.cc",
    "fcp/client/opstats/opstats_logger_impl.cc",
    "fcp/base/platform.cc",
    "fcp/base/time_util.cc",
    nullptr};
const char* kStubComponents[] = {
    "protodatastore (checksummed file, atomic replace)",
    "disk (scratch directory behind a fault-injecting seam)", "system clocks",
    "rand()", nullptr};

namespace {
using fcp::client::LogManager;
using fcp::client::NetworkStats;
using fcp::client::cache::FileBackedResourceCache;
using fcp::client::cache::ResourceCache;
using fcp::client::cache::TempFiles;
using fcp::client::opstats::OpStatsDb;
using fcp::client::opstats::OpStatsLoggerImpl;
using fcp::client::opstats::OpStatsSequence;
using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::PdsBackedOpStatsDb;
using google::protobuf::util::MessageDifferencer;
using google::protobuf::util::TimeUtil;
using sim::Choose;
using sim::Flip;
using sim::kData;
using sim::kFault;
using sim::kTime;
using sim::kWork;

const char* Prop() { return sim::Property(); }

class Log : public LogManager {
 public:
  void LogDiag(fcp::client::ProdDiagCode) override {}
  void LogDiag(fcp::client::DebugDiagCode) override {}
  void LogToLongHistogram(fcp::client::HistogramCounters, int, int,
                          fcp::client::engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

std::string Bytes(uint64_t key, size_t n) {
  std::string s(n, 0);
  uint64_t x = key * 0x9e3779b97f4a7c15ull + 1;
  for (size_t i = 0; i < n; ++i) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    s[i] = static_cast<char>(x >> 32);
  }
  return s;
}

// Disk faults of one incarnation (swarm): each kind is on or off, with a rate.
void DiskFaults(bool crashes) {
  auto& f = sim::fs();
  f = sim::FsFaults();
  f.enabled = true;
  auto rate = [] {
    static const double k[] = {0.004, 0.02, 0.08, 0.25};
    return k[sim::ConfigChoose(4)];
  };
  if (sim::ConfigChoose(2)) f.p_error = rate();
  if (sim::ConfigChoose(2)) f.p_meta_error = rate();
  if (sim::ConfigChoose(2)) f.p_short = 0.2;
  if (crashes && sim::ConfigChoose(2)) f.p_crash = rate() / 2;
  if (crashes && sim::ConfigChoose(2)) f.p_torn = rate();
}
void NoFaults() {
  sim::fs() = sim::FsFaults();
  sim::fs().enabled = true;  // still a scheduling point
}

// Directory listing on the simulated disk, without faults.
std::vector<std::pair<std::string, int64_t>> List(const std::string& dir) {
  sim::NoPreempt np;
  sim::FsFaults saved = sim::fs();
  sim::fs() = sim::FsFaults();
  std::vector<std::pair<std::string, int64_t>> out;
  if (DIR* d = opendir(dir.c_str())) {
    while (struct dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      struct stat st;
      int64_t size = -1;
      if (stat((dir + "/" + n).c_str(), &st) == 0) size = st.st_size;
      out.emplace_back(n, size);
    }
    closedir(d);
  }
  sim::fs() = saved;
  return out;
}
bool Slurp(const std::string& path, std::string* out) {
  sim::NoPreempt np;
  sim::FsFaults saved = sim::fs();
  sim::fs() = sim::FsFaults();
  out->clear();
  int fd = open(path.c_str(), O_RDONLY);
  bool ok = fd >= 0;
  if (ok) {
    char b[4096];
    ssize_t n;
    while ((n = read(fd, b, sizeof(b))) > 0) out->append(b, n);
    close(fd);
  }
  sim::fs() = saved;
  return ok;
}
void Spill(const std::string& path, const std::string& data) {
  sim::NoPreempt np;
  sim::FsFaults saved = sim::fs();
  sim::fs() = sim::FsFaults();
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) sim::HarnessError("cannot write %s", path.c_str());
  if (write(fd, data.data(), data.size()) != (ssize_t)data.size())
    sim::HarnessError("short write");
  close(fd);
  sim::fs() = saved;
}

// ================================================================== D01 / D02
constexpr int kIds = 6;
const char* const kId[kIds] = {"alpha", "beta.bin", "gamma-3", "d", "epsilon_e", "alpha2"};

struct Ver {
  int id;
  uint32_t size;
  int64_t start, finish;  // ticks, 0 = not finished
  bool ok;
};
struct CacheModel {
  int nver;
  int64_t tick;
  Ver v[400];
  int64_t expiry[kIds];      // upper bound of the stored expiry (wall ns)
  int inflight[kIds];        // operations that may set it
  int64_t max_size;
  bool clears;
};
CacheModel* cm;

std::string Content(int ver) { return Bytes(ver + 77, cm->v[ver].size); }
absl::Cord ContentCord(int ver) {
  std::string s = Content(ver);
  absl::Cord c;
  size_t at = 0;
  while (at < s.size()) {
    size_t n = std::min<size_t>(s.size() - at, 1 + Bytes(ver + at, 1)[0] % 64 * 97 + 6000);
    c.Append(absl::MakeCordFromExternal(absl::string_view(s.data() + at, 0), [] {}));
    c.Append(s.substr(at, n));
    at += n;
  }
  return c;
}
google::protobuf::Any Meta(int ver) {
  google::protobuf::Any a;
  a.set_type_url("type.googleapis.com/meta");
  a.set_value(absl::StrCat("ver-", ver));
  return a;
}

int NewVersion(int id, uint32_t size) {
  sim::NoPreempt np;
  if (cm->nver >= 400) sim::HarnessError("too many versions");
  int k = cm->nver++;
  cm->v[k] = Ver{id, size, ++cm->tick, 0, false};
  return k;
}

void CheckHit(const char* prop, int id, int64_t start,
              const ResourceCache::ResourceAndMetadata& r) {
  sim::NoPreempt np;
  std::string m = r.metadata.value();
  int k = -1;
  if (absl::StartsWith(m, "ver-")) k = atoi(m.c_str() + 4);
  SIM_CHECK(prop, k >= 0 && k < cm->nver && cm->v[k].id == id && m == absl::StrCat("ver-", k) &&
                      r.metadata.type_url() == "type.googleapis.com/meta",
            "hit for id %d carries metadata that was never stored under it (%s)", id, m.c_str());
  std::string got(r.resource);
  std::string want = Content(k);
  SIM_CHECK(prop, got == want,
            "hit returns %zu bytes that differ from the stored resource (%zu bytes)%s", got.size(),
            want.size(), got.size() < want.size() ? ": incomplete" : "");
  const Ver& v = cm->v[k];
  for (int w = 0; w < cm->nver; ++w) {
    const Ver& o = cm->v[w];
    if (o.id != id || !o.ok || w == k) continue;
    bool overwritten = v.finish && o.start > v.finish && o.finish && o.finish < start;
    SIM_CHECK(prop, !overwritten, "hit returns version %d although version %d replaced it", k, w);
  }
  sim::Count("cache_hit");
}

constexpr char kBase[] = "/simfs/files";
constexpr char kCache[] = "/simfs/cachedir";
const std::string kCacheFiles = std::string(kCache) + "/fcp/cache";

int64_t DirTotal(const std::string& dir) {
  int64_t t = 0;
  for (auto& f : List(dir)) t += f.second;
  return t;
}

// What happens to files behind the application's back: the system clears cache
// files, a stored file decays.
void Overwrite(const std::string& path) {
  sim::NoPreempt np;
  sim::FsFaults saved = sim::fs();
  sim::fs() = sim::FsFaults();
  if (FILE* f = fopen(path.c_str(), "r+")) {
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    if (n > 0) {
      long at = Choose(kFault, n);
      fseek(f, at, SEEK_SET);
      int c = fgetc(f);
      fseek(f, at, SEEK_SET);
      fputc(c ^ (1 << Choose(kFault, 8)), f);
      sim::CountFault("bit_rot");
      sim::Event("bit rot in %s", path.c_str());
    }
    fclose(f);
  }
  sim::fs() = saved;
}
void SystemClears(const std::string& dir, bool all) {
  auto files = List(dir);
  sim::NoPreempt np;
  sim::FsFaults saved = sim::fs();
  sim::fs() = sim::FsFaults();
  size_t only = files.empty() ? 0 : Choose(kFault, files.size());
  for (size_t i = 0; i < files.size(); ++i) {
    if (!all && i != only) continue;
    unlink((dir + "/" + files[i].first).c_str());
    sim::CountFault("file_cleared_by_system");
    sim::Event("system clears %s", files[i].first.c_str());
  }
  sim::fs() = saved;
}

void CacheOps(FileBackedResourceCache* cache, int ops, bool hostile) {
  const char* prop = "D01";
  for (int i = 0; i < ops; ++i) {
    int id = Choose(kWork, kIds);
    switch (Choose(kWork, 8)) {
      case 0:
      case 1:
      case 2: {
        static const uint32_t kSizes[] = {1, 0, 100, 5000, 8191, 8192, 20000, 30000};
        uint32_t size = kSizes[Choose(kWork, 8)];
        if (size > 200) size += Choose(kData, 100);
        int k = NewVersion(id, size);
        int age = 1 + Choose(kWork, 3) * 20;
        {
          sim::NoPreempt np;
          cm->inflight[id]++;
        }
        absl::Status s = cache->Put(kId[id], ContentCord(k), Meta(k), absl::Hours(age));
        sim::NoPreempt np;
        cm->inflight[id]--;
        cm->expiry[id] =
            std::max<int64_t>(cm->expiry[id], sim::RealtimeNs() + 3600ll * 1000000000 * age);
        cm->v[k].finish = ++cm->tick;
        cm->v[k].ok = s.ok();
        sim::Event("put id=%d ver=%d size=%u -> %s", id, k, size, s.ToString().c_str());
        if (size > cm->max_size / 2) {
          SIM_CHECK(prop, s.code() == absl::StatusCode::kResourceExhausted,
                    "oversized resource: %s", s.ToString().c_str());
        } else if (s.ok()) {
          sim::Count("cache_put_ok");
        } else {
          sim::Count("cache_put_failed");
        }
        break;
      }
      case 3:
        if (hostile) {
          static const char* const kBad[] = {"../escape", "/simfs/elsewhere/x", "..", "a/../../b", "."};
          absl::Status s = cache->Put(kBad[Choose(kWork, 5)], absl::Cord("evil"), Meta(0), absl::Hours(1));
          SIM_CHECK(prop, !s.ok(), "resource stored under an id that names a file outside the cache");
          sim::Count("hostile_id");
          break;
        }
        [[fallthrough]];
      case 4:
        if (Choose(kTime, 3) == 1) {
          sim::AdvanceNs(int64_t(Choose(kTime, 40)) * 3600 * 1000000000ll);
          break;
        }
        [[fallthrough]];
      case 5:
        if (cm->clears && Choose(kFault, 4) == 1) {
          SystemClears(kCacheFiles, Choose(kFault, 3) == 1);
          break;
        }
        [[fallthrough]];
      default: {
        std::optional<absl::Duration> age;
        if (Choose(kWork, 4) == 3) {
          age = absl::Hours(30);
          sim::NoPreempt np;
          cm->inflight[id]++;
        }
        int64_t start;
        {
          sim::NoPreempt np;
          start = ++cm->tick;
        }
        auto r = cache->Get(kId[id], age);
        if (age) {
          sim::NoPreempt np;
          cm->inflight[id]--;
          cm->expiry[id] =
              std::max<int64_t>(cm->expiry[id], sim::RealtimeNs() + 3600ll * 1000000000 * 30);
        }
        if (r.ok()) {
          CheckHit(prop, id, start, *r);
        } else {
          sim::Count("cache_miss");
        }
        break;
      }
    }
  }
}

absl::StatusOr<std::unique_ptr<FileBackedResourceCache>> OpenCache(Log* log) {
  return FileBackedResourceCache::Create(kBase, kCache, log, fcp::Clock::RealClock(),
                                         cm->max_size);
}

void EndOfIncarnation() {
  // Whatever was in flight is over now.
  ++cm->tick;
  for (int k = 0; k < cm->nver; ++k)
    if (!cm->v[k].finish) cm->v[k].finish = cm->tick;
  for (int id = 0; id < kIds; ++id) {
    if (cm->inflight[id]) cm->expiry[id] = INT64_MAX;
    cm->inflight[id] = 0;
  }
}

// Faults are over: the cache opens, holds nothing stale, and works.
void CacheAftermath(const char* prop) {
  NoFaults();
  Log log;
  auto c = OpenCache(&log);
  if (!c.ok()) {
    sim::Count("cache_reopen_retry");
    c = OpenCache(&log);
  }
  SIM_CHECK(prop, c.ok(), "cache does not open although the disk works again: %s",
            c.status().ToString().c_str());
  int64_t total = DirTotal(kCacheFiles);
  SIM_CHECK(prop, total <= cm->max_size, "cache directory holds %ld of %ld allowed bytes",
            (long)total, (long)cm->max_size);
  size_t files = List(kCacheFiles).size();
  size_t hits = 0;
  int64_t now = sim::RealtimeNs();
  for (int id = 0; id < kIds; ++id) {
    int64_t start = ++cm->tick;
    auto r = (*c)->Get(kId[id], std::nullopt);
    if (!r.ok()) {
      SIM_CHECK(prop, r.status().code() == absl::StatusCode::kNotFound,
                "lookup fails although the disk works again: %s", r.status().ToString().c_str());
      continue;
    }
    ++hits;
    CheckHit(prop, id, start, *r);
    SIM_CHECK(prop, cm->expiry[id] >= now, "an expired resource survived the restart");
  }
  SIM_CHECK(prop, hits == files, "%zu files in the cache directory, but only %zu resources",
            files, hits);
  int k = NewVersion(0, 1000);
  absl::Status s = (*c)->Put(kId[0], ContentCord(k), Meta(k), absl::Hours(1));
  SIM_CHECK(prop, s.ok(), "cannot store although the disk works again: %s", s.ToString().c_str());
  cm->v[k].finish = ++cm->tick;
  cm->v[k].ok = true;
  int64_t start = ++cm->tick;
  auto r = (*c)->Get(kId[0], std::nullopt);
  SIM_CHECK(prop, r.ok(), "a resource just stored is missing: %s", r.status().ToString().c_str());
  CheckHit(prop, 0, start, *r);
}

void RunCache() {
  sim::SwarmTuning(false);
  cm = static_cast<CacheModel*>(sim::SharedAlloc(sizeof(CacheModel)));
  cm->max_size = 40000 + 10000 * sim::ConfigChoose(4);
  bool hostile = sim::ConfigChoose(4) == 0;
  cm->clears = sim::ConfigChoose(3) == 0;
  bool decays = sim::ConfigChoose(3) == 0;
  int incarnations = 1 + Choose(kWork, 3);
  for (int inc = 0; inc < incarnations; ++inc) {
    bool faulty = sim::ConfigChoose(4) != 0;
    bool ended = sim::RunIncarnation([&] {
      if (faulty) {
        DiskFaults(true);
      } else {
        NoFaults();
      }
      Log log;
      auto c = OpenCache(&log);
      if (!c.ok()) {
        SIM_CHECK("D01", faulty || inc > 0, "cache does not open on a working disk: %s",
                  c.status().ToString().c_str());
        sim::Count("cache_open_failed");
        return;
      }
      int nthreads = 1 + Choose(kWork, 3);
      if (nthreads == 1) {
        CacheOps(c->get(), 3 + Choose(kWork, 12), hostile);
      } else {
        std::vector<std::thread> th;
        for (int t = 0; t < nthreads; ++t)
          th.emplace_back([&] { CacheOps(c->get(), 2 + Choose(kWork, 5), hostile); });
        for (auto& t : th) t.join();
      }
    });
    if (!ended) sim::Count("cache_crashed");
    EndOfIncarnation();
    if (decays && Choose(kFault, 3) == 1)
      Overwrite(std::string(kBase) + "/fcp/cache_manifest.pb");
    if (Choose(kTime, 4) == 1) sim::AdvanceNs(int64_t(Choose(kTime, 60)) * 3600 * 1000000000ll);
  }
  sim::RunIncarnation([&] { CacheAftermath("D01"); });
  sim::Cover(sim::Mix(sim::FsOps(), cm->nver));
}

// D02: capacity, recency and expiry, judged step by step on a working disk.
struct Slot {
  bool present = false;
  uint32_t size = 0;
  int ver = -1;
  int64_t expiry = 0, accessed = 0;
};

void RunCapacity() {
  const char* prop = "D02";
  sim::SwarmTuning(false);
  sim::tuning().p_time = 0;
  cm = static_cast<CacheModel*>(sim::SharedAlloc(sizeof(CacheModel)));
  cm->max_size = 1000 + 500 * sim::ConfigChoose(5);
  NoFaults();
  Log log;
  Slot slot[kIds];
  auto c = OpenCache(&log);
  SIM_CHECK(prop, c.ok(), "cache does not open: %s", c.status().ToString().c_str());
  // Reconciles the model with what survived a clean-up that had to make room
  // for `need` more bytes.
  auto reconcile = [&](int64_t need, int64_t now, const char* when) {
    std::set<std::string> files;
    for (auto& f : List(kCacheFiles)) files.insert(f.first);
    int64_t live = 0;
    for (auto& s : slot)
      if (s.present && s.expiry >= now) live += s.size;
    std::vector<int> evicted;
    int64_t kept = 0;
    for (int i = 0; i < kIds; ++i) {
      Slot& s = slot[i];
      if (!s.present) continue;
      bool there = files.count(kId[i]) > 0;
      if (s.expiry < now) {
        SIM_CHECK(prop, !there, "%s: resource %d expired %ld s ago and is still stored", when, i,
                  (long)((now - s.expiry) / 1000000000));
        s.present = false;
        sim::Count("expired");
      } else if (!there) {
        evicted.push_back(i);
      } else {
        kept += s.size;
      }
    }
    if (!evicted.empty()) {
      SIM_CHECK(prop, live + need > cm->max_size,
                "%s: %zu resources dropped although %ld + %ld bytes fit into %ld", when,
                evicted.size(), (long)live, (long)need, (long)cm->max_size);
      int newest = evicted[0];
      for (int e : evicted) {
        if (slot[e].accessed > slot[newest].accessed) newest = e;
        for (int i = 0; i < kIds; ++i) {
          if (!slot[i].present || !files.count(kId[i])) continue;
          SIM_CHECK(prop, slot[i].accessed >= slot[e].accessed,
                    "%s: resource %d dropped while the less recently used %d stays", when, e, i);
        }
      }
      // The last one dropped was needed.
      SIM_CHECK(prop, kept + (int64_t)slot[newest].size + need >= cm->max_size,
                "%s: resource %d dropped although there was room already", when, newest);
      for (int e : evicted) slot[e].present = false;
      sim::Count("evicted", evicted.size());
    }
    SIM_CHECK(prop, kept + need <= cm->max_size, "%s: %ld bytes stored + %ld needed exceed %ld",
              when, (long)kept, (long)need, (long)cm->max_size);
  };
  int ops = 5 + Choose(kWork, 40);
  for (int i = 0; i < ops; ++i) {
    int id = Choose(kWork, kIds);
    sim::AdvanceNs(1000000ll * (1 + Choose(kTime, 5000)));
    switch (Choose(kWork, 6)) {
      case 0:
      case 1:
      case 2: {
        uint32_t size = Choose(kWork, cm->max_size / 2 + 1);
        if (Choose(kWork, 5) == 4) size = cm->max_size / 2 + Choose(kWork, 3);
        if (Choose(kWork, 5) == 3) {
          // Exactly what is left.
          int64_t live = 0;
          for (int j = 0; j < kIds; ++j)
            if (slot[j].present && slot[j].expiry >= sim::RealtimeNs()) live += slot[j].size;
          int64_t left = cm->max_size - live;
          if (left >= 0 && left <= cm->max_size / 2) size = left;
        }
        int k = NewVersion(id, size);
        int64_t age_s = 1 + Choose(kWork, 100);
        int64_t now = sim::RealtimeNs();
        absl::Status s = (*c)->Put(kId[id], ContentCord(k), Meta(k), absl::Seconds(age_s));
        if (size > cm->max_size / 2) {
          SIM_CHECK(prop, s.code() == absl::StatusCode::kResourceExhausted,
                    "a resource of more than half the cache: %s", s.ToString().c_str());
          break;
        }
        SIM_CHECK(prop, s.ok(), "storing %u bytes failed: %s", size, s.ToString().c_str());
        Slot old = slot[id];
        // The clean-up ran before the new file was written.
        std::string data;
        SIM_CHECK(prop, Slurp(kCacheFiles + "/" + kId[id], &data) && data == Content(k),
                  "the file of a resource just stored does not hold it");
        // Whether the previous resource of this id was dropped first cannot be
        // seen any more; judge the others.
        slot[id].present = false;
        int64_t live = 0, kept = 0;
        for (int j = 0; j < kIds; ++j)
          if (slot[j].present) live += slot[j].size;
        (void)kept;
        (void)live;
        if (!old.present) {
          reconcile(size, now, "store");
        } else {
          std::set<std::string> files;
          for (auto& f : List(kCacheFiles)) files.insert(f.first);
          int64_t total = old.expiry < now ? 0 : old.size;
          int64_t left = size;
          for (int j = 0; j < kIds; ++j) {
            if (j == id || !slot[j].present) continue;
            bool there = files.count(kId[j]) > 0;
            if (slot[j].expiry < now) {
              SIM_CHECK(prop, !there, "overwrite: an expired resource is still stored");
              slot[j].present = false;
            } else {
              total += slot[j].size;
              if (there) left += slot[j].size;
            }
          }
          for (int j = 0; j < kIds; ++j) {
            if (j == id || !slot[j].present || files.count(kId[j])) continue;
            SIM_CHECK(prop, total + size > cm->max_size,
                      "overwrite: resource %d dropped although everything fits", j);
            for (int q = 0; q < kIds; ++q) {
              if (q == id || !slot[q].present || !files.count(kId[q])) continue;
              SIM_CHECK(prop, slot[q].accessed >= slot[j].accessed,
                        "overwrite: resource %d dropped while the less recently used %d stays", j, q);
            }
          }
          for (int j = 0; j < kIds; ++j)
            if (j != id && slot[j].present && !files.count(kId[j])) slot[j].present = false;
          SIM_CHECK(prop, left <= cm->max_size, "overwrite: %ld bytes stored exceed %ld", (long)left,
                    (long)cm->max_size);
        }
        slot[id] = Slot{true, size, k, now + age_s * 1000000000ll, now};
        sim::Count("stored");
        break;
      }
      case 3: {
        // Restart.
        c->reset();
        int64_t now = sim::RealtimeNs();
        c = OpenCache(&log);
        SIM_CHECK(prop, c.ok(), "cache does not reopen: %s", c.status().ToString().c_str());
        reconcile(0, now, "restart");
        sim::Count("reopened");
        break;
      }
      default: {
        std::optional<absl::Duration> age;
        int64_t age_s = 1 + Choose(kWork, 100);
        if (Choose(kWork, 3) == 2) age = absl::Seconds(age_s);
        int64_t now = sim::RealtimeNs();
        auto r = (*c)->Get(kId[id], age);
        Slot& s = slot[id];
        if (!s.present) {
          SIM_CHECK(prop, r.status().code() == absl::StatusCode::kNotFound,
                    "lookup of an absent resource: %s", r.status().ToString().c_str());
          break;
        }
        if (!r.ok()) {
          SIM_CHECK(prop, s.expiry < now && r.status().code() == absl::StatusCode::kNotFound,
                    "a stored resource is missing: %s", r.status().ToString().c_str());
          break;  // expired: may be gone
        }
        SIM_CHECK(prop, std::string(r->resource) == Content(s.ver) &&
                            r->metadata.value() == Meta(s.ver).value(),
                  "lookup returns something else than what was stored last");
        s.accessed = now;
        if (age) s.expiry = now + age_s * 1000000000ll;
        sim::Count("looked_up");
        break;
      }
    }
  }
  sim::Cover(sim::Mix(sim::FsOps(), cm->nver));
}

// ======================================================================== D03
void RunTempFiles() {
  const char* prop = "D03";
  sim::SwarmTuning(false);
  sim::tuning().rand_range = sim::ConfigChoose(2) ? 16 + sim::ConfigChoose(30) : 0;
  const std::string dir = "/simfs/cachedir/fcp/tmp";
  struct Shared {
    int created;
  };
  auto* shared = static_cast<Shared*>(sim::SharedAlloc(sizeof(Shared)));
  int incarnations = 1 + Choose(kWork, 3);
  for (int inc = 0; inc < incarnations; ++inc) {
    bool faulty = sim::ConfigChoose(3) != 0;
    bool hiccup = sim::ConfigChoose(3) == 0;  // faults only while creating files
    sim::RunIncarnation([&] {
      Log log;
      if (faulty && !hiccup) {
        DiskFaults(true);
      } else {
        NoFaults();
      }
      auto t = TempFiles::Create("/simfs/cachedir", &log);
      if (!t.ok()) {
        SIM_CHECK(prop, faulty && !hiccup, "temporary files unavailable on a working disk: %s",
                  t.status().ToString().c_str());
        sim::Count("temp_create_failed");
        return;
      }
      SIM_CHECK(prop, List(dir).empty(), "files of an earlier run are still there");
      if (faulty && hiccup) DiskFaults(true);
      std::map<std::string, std::string> mine;
      auto work = [&](int n) {
        for (int i = 0; i < n; ++i) {
          static const char* const kPre[] = {"init_", "out", "", "a.b"};
          static const char* const kSuf[] = {".ckp", "", ".pb", "_x"};
          std::string pre = kPre[Choose(kWork, 4)], suf = kSuf[Choose(kWork, 4)];
          auto f = (*t)->CreateTempFile(pre, suf);
          if (!f.ok()) {
            SIM_CHECK(prop, faulty, "no temporary file on a working disk: %s",
                      f.status().ToString().c_str());
            sim::Count("temp_file_failed");
            continue;
          }
          sim::NoPreempt np;
          SIM_CHECK(prop, absl::StartsWith(*f, dir + "/" + pre) && absl::EndsWith(*f, suf),
                    "temporary file %s is not named as asked or lies elsewhere", f->c_str());
          SIM_CHECK(prop, f->find('/', dir.size() + 1) == std::string::npos,
                    "temporary file %s lies elsewhere", f->c_str());
          SIM_CHECK(prop, !mine.count(*f), "the same temporary file was handed out twice: %s",
                    f->c_str());
          std::string data;
          SIM_CHECK(prop, Slurp(*f, &data), "temporary file %s does not exist", f->c_str());
          SIM_CHECK(prop, data.empty(), "temporary file %s is not empty", f->c_str());
          data = Bytes(++shared->created, 1 + Choose(kData, 50));
          Spill(*f, data);
          mine[*f] = data;
          sim::Count("temp_file");
        }
      };
      int nthreads = 1 + Choose(kWork, 3);
      if (nthreads == 1) {
        work(Choose(kWork, 8));
      } else {
        std::vector<std::thread> th;
        for (int k = 0; k < nthreads; ++k) th.emplace_back([&] { work(Choose(kWork, 5)); });
        for (auto& x : th) x.join();
      }
      for (auto& m : mine) {
        std::string data;
        SIM_CHECK(prop, Slurp(m.first, &data) && data == m.second,
                  "temporary file %s was changed behind its owner's back", m.first.c_str());
      }
      if (Choose(kFault, 4) == 1) {
        sim::CountFault("process_crash");
        sim::CrashHere();
      }
      NoFaults();
      // Something in the directory that cannot be deleted like a file.
      const std::string sub = dir + "/m" + std::to_string(Choose(kData, 10));
      bool stuck = Choose(kFault, 4) == 1 && mkdir(sub.c_str(), 0700) == 0;
      if (stuck) {
        Spill(sub + "/x", "x");
        sim::CountFault("undeletable_entry");
      }
      t->reset();
      if (stuck) {
        unlink((sub + "/x").c_str());
        rmdir(sub.c_str());
      }
      auto left = List(dir);
      SIM_CHECK(prop, left.empty(), "%zu temporary files left behind", left.size());
    });
  }
  sim::RunIncarnation([&] {
    NoFaults();
    Log log;
    auto t = TempFiles::Create("/simfs/cachedir", &log);
    SIM_CHECK(prop, t.ok(), "temporary files unavailable on a working disk: %s",
              t.status().ToString().c_str());
    SIM_CHECK(prop, List(dir).empty(), "files of an earlier run are still there");
    auto f = (*t)->CreateTempFile("p", "s");
    SIM_CHECK(prop, f.ok(), "no temporary file on a working disk: %s",
              f.status().ToString().c_str());
  });
  sim::Cover(sim::Mix(sim::FsOps(), shared->created));
}

// ======================================================================== D06
void RunFiles() {
  const char* prop = "D06";
  sim::SwarmTuning(false);
  int ops = 1 + Choose(kWork, 8);
  std::map<std::string, std::string> disk;  // contents known to be complete
  for (int i = 0; i < ops; ++i) {
    std::string path = absl::StrCat("/simfs/f", Choose(kWork, 3));
    static const uint32_t kSizes[] = {10, 0, 1, 511, 4096, 8190, 8192, 20000, 70000};
    uint32_t n = kSizes[Choose(kWork, 9)];
    if (n > 1) n += Choose(kData, 3);
    std::string data = Bytes(i + 1000, n);
    bool faulty = sim::ConfigChoose(3) != 0;
    if (faulty) {
      DiskFaults(false);
    } else {
      NoFaults();
    }
    if (Choose(kWork, 2) == 0) {
      disk.erase(path);
      absl::Status s;
      if (Choose(kWork, 2)) {
        s = fcp::WriteStringToFile(path, data);
      } else {
        absl::Cord c;
        for (size_t at = 0; at < data.size();) {
          size_t k = std::min<size_t>(data.size() - at, 1 + Choose(kData, 9000));
          c.Append(data.substr(at, k));
          at += k;
        }
        s = fcp::WriteCordToFile(path, c);
      }
      NoFaults();
      if (s.ok()) {
        std::string got;
        SIM_CHECK(prop, Slurp(path, &got) && got == data,
                  "writing %zu bytes was reported successful, %zu are on disk", data.size(),
                  got.size());
        disk[path] = data;
        sim::Count("written");
      } else {
        SIM_CHECK(prop, faulty, "write fails on a working disk: %s", s.ToString().c_str());
        sim::Count("write_error");
      }
    } else {
      bool known = disk.count(path);
      if (!known && Choose(kWork, 2)) {
        Spill(path, data);
        disk[path] = data;
        known = true;
      }
      bool exists = fcp::FileExists(path);
      SIM_CHECK(prop, !known || exists, "existing file reported missing");
      std::string got;
      absl::Status s;
      if (Choose(kWork, 2)) {
        auto r = fcp::ReadFileToString(path);
        s = r.status();
        if (r.ok()) got = *r;
      } else {
        auto r = fcp::ReadFileToCord(path);
        s = r.status();
        if (r.ok()) got = std::string(*r);
      }
      NoFaults();
      if (s.ok()) {
        SIM_CHECK(prop, exists, "a missing file was read");
        std::string real;
        Slurp(path, &real);
        SIM_CHECK(prop, got == real, "reading a file of %zu bytes was reported successful with %zu",
                  real.size(), got.size());
        sim::Count("read");
      } else {
        SIM_CHECK(prop, faulty || !exists, "read fails on a working disk: %s", s.ToString().c_str());
        sim::Count("read_error");
      }
    }
  }
  sim::Cover(sim::FsOps());
}

}  // namespace

#include "opstats.inc"

void SimRun() {
  std::string p = Prop();
  if (p == "D01") return RunCache();
  if (p == "D02") return RunCapacity();
  if (p == "D03") return RunTempFiles();
  if (p == "D04") return RunOpStatsDb();
  if (p == "D05") return RunOpStatsLogger();
  if (p == "D06") return RunFiles();
  sim::HarnessError("unknown property %s", p.c_str());
}
