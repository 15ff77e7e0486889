// Driver: seeded search over runs, determinism gate, replay, minimisation.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <filesystem>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "rt_internal.h"

using namespace sim;

namespace {

struct Global {  // shared between workers
  std::atomic<uint64_t> next{0};
  std::atomic<int> stop{0};
  std::atomic<int> claimed{0};
};
Global* g;

std::string g_property, g_out, g_replay_out, g_known_file, g_harness = "?";
uint64_t g_seed = 1, g_max_runs = 1000000;
double g_seconds = 20;
int g_workers = 8;
std::vector<std::string> g_known;
std::string g_scratch_root;

double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t RunSeed(uint64_t i) {
  uint64_t z = g_seed * 1000000007ull + i;
  return z;
}

void CleanScratch() {
  std::error_code ec;
  for (auto& e : std::filesystem::directory_iterator(sh->scratch, ec))
    std::filesystem::remove_all(e.path(), ec);
}

// Executes one run with the inputs in *sh.
void RunOnce(uint64_t seed) {
  ResetShared(sh, seed);
  CleanScratch();
  pid_t p = fork();
  if (p < 0) {
    perror("fork");
    exit(3);
  }
  if (p == 0) {
    struct rlimit rl = {25, 30};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    alarm(150);
    setpgid(0, 0);
    ChildMain();
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) kill(-p, SIGKILL);
  if (sh->outcome == kRunning) {
    sh->outcome = kViolation;
    snprintf(sh->prop, sizeof(sh->prop), "*");
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM)) {
      snprintf(sh->msg, sizeof(sh->msg), "run does not terminate");
    } else if (WIFSIGNALED(st)) {
      snprintf(sh->msg, sizeof(sh->msg), "crash: killed by signal %d", WTERMSIG(st));
    } else {
      snprintf(sh->msg, sizeof(sh->msg), "process ended unexpectedly with status %d",
               WEXITSTATUS(st));
    }
  }
}

void LoadReplay(std::vector<Decision> d) {
  std::sort(d.begin(), d.end(), [](const Decision& a, const Decision& b) {
    return a.stream != b.stream ? a.stream < b.stream : a.idx < b.idx;
  });
  sh->replay = 1;
  sh->n_replay = std::min<size_t>(d.size(), kMaxLog);
  memcpy(sh->replay_d, d.data(), sh->n_replay * sizeof(Decision));
}
std::vector<Decision> TakeLog() {
  return std::vector<Decision>(sh->log, sh->log + sh->n_log);
}

bool Relevant() {
  return sh->outcome == kViolation &&
         (!strcmp(sh->prop, "*") || g_property == sh->prop);
}
std::string Key() {
  std::string k = std::string(sh->prop) + "|";
  for (const char* c = sh->msg; *c && k.size() < 110; ++c)
    if (!(*c >= '0' && *c <= '9')) k += *c;
  return k;
}
bool Known() {
  for (auto& k : g_known)
    if (strstr(sh->msg, k.c_str())) return true;
  return false;
}

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

const char* kStreamNames[] = {"work", "sched", "mem", "time", "net", "fault", "data"};

void WriteReplay(const std::vector<Decision>& d, uint64_t seed, size_t orig) {
  FILE* f = fopen(g_replay_out.c_str(), "w");
  if (!f) {
    perror("replay file");
    return;
  }
  fprintf(f, "simreplay 1\nharness %s\nproperty %s\nseed %llu\n", g_harness.c_str(),
          g_property.c_str(), (unsigned long long)seed);
  fprintf(f, "violation %s\nhash %016llx\n", sh->msg, (unsigned long long)sh->hash);
  fprintf(f, "# %zu decisions after minimisation (%zu before)\n", d.size(), orig);
  for (auto& x : d)
    fprintf(f, "d %s %llu %u\n", kStreamNames[x.stream], (unsigned long long)x.idx,
            x.value);
  fprintf(f, "trace\n");
  fwrite(sh->trace, 1, sh->n_trace, f);
  fclose(f);
}

// Returns true if the violation is reproducible; replay file written.
bool HandleViolation(uint64_t seed) {
  std::string msg = sh->msg, key = Key();
  uint64_t hash = sh->hash;
  std::vector<Decision> d = TakeLog();
  bool overflow = sh->log_overflow;
  bool hang = msg == "run does not terminate";
  fprintf(stderr, "seed %llu: %s\n", (unsigned long long)seed, msg.c_str());
  sh->replay = 0;
  RunOnce(seed);
  if (msg != sh->msg || (hash != sh->hash && !hang)) {
    fprintf(stderr, "seed %llu does not reproduce: first '%s' %016llx then '%s' %016llx\n",
            (unsigned long long)seed, msg.c_str(), (unsigned long long)hash, sh->msg,
            (unsigned long long)sh->hash);
    return false;
  }
  size_t orig = d.size();
  if (!overflow) {
    LoadReplay(d);
    RunOnce(seed);
    if (msg != sh->msg) {
      fprintf(stderr, "seed %llu: replay from decisions differs: '%s'\n",
              (unsigned long long)seed, sh->msg);
      return false;
    }
    if (!hang) {
      double t0 = Now();
      int tries = 0;
      for (size_t chunk = std::max<size_t>(1, d.size() / 2); Now() - t0 < 20 && tries < 1500;) {
        bool any = false;
        for (size_t i = 0; i < d.size() && Now() - t0 < 20;) {
          std::vector<Decision> c;
          for (size_t k = 0; k < d.size(); ++k)
            if (k < i || k >= i + chunk) c.push_back(d[k]);
          LoadReplay(c);
          ++tries;
          RunOnce(seed);
          if (sh->outcome == kViolation && Key() == key && sh->n_log < d.size()) {
            d = TakeLog();
            any = true;
          } else {
            i += chunk;
          }
        }
        if (chunk == 1) {
          if (!any) break;
        } else {
          chunk = std::max<size_t>(1, chunk / 2);
        }
      }
    }
  }
  LoadReplay(d);
  sh->tracing = 1;
  RunOnce(seed);
  sh->tracing = 0;
  if (sh->outcome != kViolation || (!overflow && Key() != key)) {
    fprintf(stderr, "minimised replay lost the violation: '%s'\n", sh->msg);
    return false;
  }
  WriteReplay(d, seed, orig);
  return true;
}

struct Stats {
  uint64_t runs = 0, steps = 0, accesses = 0, switches = 0, other = 0, unrepro = 0;
  uint64_t det_checks = 0, det_mismatch = 0, decisions = 0;
  double sim_s = 0;
  std::map<std::string, uint64_t> counters, faults;
  std::unordered_set<uint64_t> cover, scheds, traces;
  std::set<std::string> others, known, errors, mismatches;
  std::vector<std::string> samples;
};

void Accumulate(Stats& s, uint64_t seed) {
  s.runs++;
  s.steps += sh->steps;
  s.accesses += sh->accesses;
  s.switches += sh->switches;
  s.decisions += sh->n_log;
  s.sim_s += (sh->now_ns - 1000000000ll) * 1e-9;
  for (int i = 0; i < sh->n_counters; ++i) {
    auto& c = sh->counters[i];
    (c.fault ? s.faults : s.counters)[c.name] += c.n;
  }
  for (uint32_t i = 0; i < sh->n_cover; ++i) s.cover.insert(sh->cover[i]);
  s.scheds.insert(sh->sched_hash);
  if (sh->n_log > 0) s.traces.insert(sh->hash);
  if (s.samples.size() < 2) {
    std::string f;
    for (int i = 0; i < sh->n_counters; ++i) {
      if (!sh->counters[i].fault) continue;
      if (!f.empty()) f += ",";
      f += std::string(sh->counters[i].name) + "=" + std::to_string(sh->counters[i].n);
    }
    char b[400];
    snprintf(b, sizeof(b), "seed=%llu steps=%llu decisions=%u sim_s=%.3f trace=%016llx faults={%s}",
             (unsigned long long)seed, (unsigned long long)sh->steps, sh->n_log,
             (sh->now_ns - 1000000000ll) * 1e-9, (unsigned long long)sh->hash, f.c_str());
    s.samples.push_back(b);
  }
}

void DumpStats(const Stats& s, const std::string& file, const std::string& verdict) {
  FILE* f = fopen(file.c_str(), "w");
  auto num = [&](const char* k, double v) { fprintf(f, "n %s %.6f\n", k, v); };
  num("runs", s.runs);
  num("steps", s.steps);
  num("accesses", s.accesses);
  num("switches", s.switches);
  num("decisions", s.decisions);
  num("other", s.other);
  num("unrepro", s.unrepro);
  num("det_checks", s.det_checks);
  num("det_mismatch", s.det_mismatch);
  num("sim_s", s.sim_s);
  for (auto& [k, v] : s.counters) fprintf(f, "c %s\t%llu\n", k.c_str(), (unsigned long long)v);
  for (auto& [k, v] : s.faults) fprintf(f, "f %s\t%llu\n", k.c_str(), (unsigned long long)v);
  for (auto& x : s.others) fprintf(f, "o %s\n", x.c_str());
  for (auto& x : s.known) fprintf(f, "k %s\n", x.c_str());
  for (auto& x : s.errors) fprintf(f, "e %s\n", x.c_str());
  for (auto& x : s.mismatches) fprintf(f, "m %s\n", x.c_str());
  for (auto& x : s.samples) fprintf(f, "s %s\n", x.c_str());
  if (!verdict.empty()) fprintf(f, "v %s\n", verdict.c_str());
  fclose(f);
  f = fopen((file + ".bin").c_str(), "w");
  auto put = [&](const std::unordered_set<uint64_t>& st) {
    uint64_t n = st.size();
    fwrite(&n, 8, 1, f);
    for (uint64_t x : st) fwrite(&x, 8, 1, f);
  };
  put(s.cover);
  put(s.scheds);
  put(s.traces);
  fclose(f);
}

void MapShared(int worker) {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  sh = static_cast<Shared*>(p);
  sh->worker = worker;
  snprintf(sh->property, sizeof(sh->property), "%s", g_property.c_str());
  snprintf(sh->scratch, sizeof(sh->scratch), "%s/w%d", g_scratch_root.c_str(), worker);
  mkdir(sh->scratch, 0755);
}

void Worker(int w, double deadline) {
  MapShared(w);
  Stats s;
  std::string verdict;
  while (!g->stop.load() && Now() < deadline) {
    uint64_t i = g->next.fetch_add(1);
    if (i >= g_max_runs) break;
    uint64_t seed = RunSeed(i);
    sh->replay = 0;
    RunOnce(seed);
    Accumulate(s, seed);
    if (sh->outcome == kPass) {
      if (i % 256 == 3) {
        uint64_t h = sh->hash;
        RunOnce(seed);
        s.det_checks++;
        if (h != sh->hash) {
          s.det_mismatch++;
          if (s.mismatches.size() < 5) s.mismatches.insert(std::to_string(seed));
        }
      }
      continue;
    }
    if (sh->outcome == kHarnessError) {
      s.errors.insert(sh->msg);
      break;
    }
    if (!Relevant()) {
      s.other++;
      if (s.others.size() < 8) s.others.insert(std::string(sh->prop) + " seed=" + std::to_string(seed) + " " + sh->msg);
      continue;
    }
    if (Known()) {
      for (auto& k : g_known)
        if (strstr(sh->msg, k.c_str())) s.known.insert(k);
      continue;
    }
    int zero = 0;
    if (!g->claimed.compare_exchange_strong(zero, 1)) {
      // another worker is minimising a violation
      while (g->claimed.load() == 1 && !g->stop.load()) usleep(20000);
      if (g->stop.load()) break;
      continue;
    }
    std::string msg = sh->msg;
    if (HandleViolation(seed)) {
      verdict = std::to_string(seed) + " " + sh->msg;
      g->stop.store(1);
      g->claimed.store(0);
      break;
    }
    s.unrepro++;
    s.errors.insert("unreproducible seed " + std::to_string(seed) + ": " + msg);
    g->claimed.store(0);
    if (s.unrepro >= 3) break;
  }
  std::error_code ec;
  std::filesystem::remove_all(sh->scratch, ec);
  DumpStats(s, g_scratch_root + "/stats" + std::to_string(w), verdict);
  _exit(0);
}

int DoReplay(const char* file, bool trace) {
  FILE* f = fopen(file, "r");
  if (!f) {
    perror(file);
    return 3;
  }
  char line[4096];
  std::vector<Decision> d;
  uint64_t seed = 0;
  std::string want_msg, want_hash;
  while (fgets(line, sizeof(line), f)) {
    size_t n = strlen(line);
    if (n && line[n - 1] == '\n') line[n - 1] = 0;
    if (!strcmp(line, "trace")) break;
    char sname[32];
    unsigned long long a;
    unsigned v;
    if (sscanf(line, "seed %llu", &a) == 1) seed = a;
    if (!strncmp(line, "property ", 9)) g_property = line + 9;
    if (!strncmp(line, "violation ", 10)) want_msg = line + 10;
    if (!strncmp(line, "hash ", 5)) want_hash = line + 5;
    if (sscanf(line, "d %31s %llu %u", sname, &a, &v) == 3) {
      for (int i = 0; i < kNumStreams; ++i)
        if (!strcmp(sname, kStreamNames[i])) d.push_back({(uint32_t)i, v, a});
    }
  }
  fclose(f);
  MapShared(0);
  LoadReplay(d);
  sh->tracing = 1;
  RunOnce(seed);
  if (trace) fwrite(sh->trace, 1, sh->n_trace, stdout);
  char h[32];
  snprintf(h, sizeof(h), "%016llx", (unsigned long long)sh->hash);
  std::filesystem::remove_all(g_scratch_root);
  bool hang = want_msg == "run does not terminate";
  bool same = sh->outcome == kViolation && want_msg == sh->msg && (want_hash == h || hang);
  printf("replay: outcome=%d property=%s message=%s hash=%s\n", sh->outcome, sh->prop,
         sh->msg, h);
  printf(same ? "replay: reproduced exactly\n" : "replay: NOT reproduced\n");
  return same ? 1 : sh->outcome == kViolation ? 4 : 0;
}

}  // namespace

int main(int argc, char** argv) {
  int per = personality(0xffffffff);
  if (!(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    personality(per | ADDR_NO_RANDOMIZE);
    setenv("SIM_REEXEC", "1", 1);
    // Software AES/SHA paths and no RDRAND: the crypto library's entropy then
    // only comes from the (interposed) system call.
    setenv("OPENSSL_ia32cap", "~0x4000000000000000", 0);
    execv("/proc/self/exe", argv);
    perror("exec");
    return 3;
  }
  sim_load_symbols();
  std::string replay;
  bool trace = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") g_property = val();
    else if (a == "--harness") g_harness = val();
    else if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--seconds") g_seconds = atof(val().c_str());
    else if (a == "--max-runs") g_max_runs = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers") g_workers = atoi(val().c_str());
    else if (a == "--out") g_out = val();
    else if (a == "--replay-out") g_replay_out = val();
    else if (a == "--known") g_known.push_back(val());
    else if (a == "--replay") replay = val();
    else if (a == "--trace") trace = true;
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  signal(SIGPIPE, SIG_IGN);
  char tmpl[64] = "/tmp/fcpsim.XXXXXX";
  if (!mkdtemp(tmpl)) {
    perror("mkdtemp");
    return 3;
  }
  g_scratch_root = tmpl;
  if (!replay.empty()) return DoReplay(replay.c_str(), trace);
  g = new (mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE,
                MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Global();
  double t0 = Now();
  std::vector<pid_t> kids;
  for (int w = 0; w < g_workers; ++w) {
    pid_t p = fork();
    if (p == 0) Worker(w, t0 + g_seconds);
    kids.push_back(p);
  }
  for (pid_t p : kids) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
  }
  // merge
  std::map<std::string, double> nums;
  std::map<std::string, unsigned long long> cs, fs_;
  std::set<std::string> others, known, errors, mism;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> sets[3];
  std::string verdict;
  for (int w = 0; w < g_workers; ++w) {
    std::string fn = g_scratch_root + "/stats" + std::to_string(w);
    FILE* f = fopen(fn.c_str(), "r");
    if (!f) {
      errors.insert("worker died");
      continue;
    }
    char line[4096];
    while (fgets(line, sizeof(line), f)) {
      size_t n = strlen(line);
      if (n && line[n - 1] == '\n') line[n - 1] = 0;
      std::string rest = line + 2;
      if (line[0] == 'n') {
        size_t sp = rest.find(' ');
        nums[rest.substr(0, sp)] += atof(rest.c_str() + sp + 1);
      } else if (line[0] == 'c' || line[0] == 'f') {
        size_t sp = rest.find('\t');
        (line[0] == 'c' ? cs : fs_)[rest.substr(0, sp)] += strtoull(rest.c_str() + sp + 1, nullptr, 10);
      } else if (line[0] == 'o') others.insert(rest);
      else if (line[0] == 'k') known.insert(rest);
      else if (line[0] == 'e') errors.insert(rest);
      else if (line[0] == 'm') mism.insert(rest);
      else if (line[0] == 's') { if (samples.size() < 6) samples.push_back(rest); }
      else if (line[0] == 'v') verdict = rest;
    }
    fclose(f);
    f = fopen((fn + ".bin").c_str(), "r");
    for (int k = 0; f && k < 3; ++k) {
      uint64_t n = 0;
      if (fread(&n, 8, 1, f) != 1) break;
      for (uint64_t i = 0; i < n; ++i) {
        uint64_t x;
        if (fread(&x, 8, 1, f) == 1) sets[k].insert(x);
      }
    }
    if (f) fclose(f);
  }
  double wall = Now() - t0;
  std::filesystem::remove_all(g_scratch_root);
  std::string j = "{\n";
  char b[128];
  for (auto& [k, v] : nums) {
    snprintf(b, sizeof(b), " \"%s\": %.3f,\n", k.c_str(), v);
    j += b;
  }
  snprintf(b, sizeof(b), " \"distinct_states\": %zu,\n \"distinct_interleavings\": %zu,\n", sets[0].size(), sets[1].size());
  j += b;
  snprintf(b, sizeof(b), " \"distinct_traces\": %zu,\n \"wall_s\": %.3f,\n", sets[2].size(), wall);
  j += b;
  auto obj = [&](const char* name, const std::map<std::string, unsigned long long>& m) {
    j += std::string(" \"") + name + "\": {";
    bool first = true;
    for (auto& [k, v] : m) {
      j += (first ? "" : ", ") + JsonStr(k) + ": " + std::to_string(v);
      first = false;
    }
    j += "},\n";
  };
  obj("probes", cs);
  obj("faults", fs_);
  auto arr = [&](const char* name, auto& m) {
    j += std::string(" \"") + name + "\": [";
    bool first = true;
    for (auto& k : m) {
      j += (first ? "" : ", ") + JsonStr(k);
      first = false;
    }
    j += "],\n";
  };
  arr("other_violations", others);
  arr("known_seen", known);
  arr("errors", errors);
  arr("nondeterministic_seeds", mism);
  arr("samples", samples);
  std::vector<std::string> real, stub;
  for (int i = 0; kRealComponents[i]; ++i) real.push_back(kRealComponents[i]);
  for (int i = 0; kStubComponents[i]; ++i) stub.push_back(kStubComponents[i]);
  arr("real_components", real);
  arr("stub_components", stub);
  j += " \"violation\": " + (verdict.empty() ? std::string("null") : JsonStr(verdict)) + "\n}\n";
  if (!g_out.empty()) {
    FILE* f = fopen(g_out.c_str(), "w");
    if (f) {
      fputs(j.c_str(), f);
      fclose(f);
    }
  } else {
    fputs(j.c_str(), stdout);
  }
  if (!verdict.empty()) return 1;
  if (!errors.empty()) return 2;
  return 0;
}
