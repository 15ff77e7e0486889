#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unwind.h>
#include <algorithm>
#include <string>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/prctl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <atomic>
#include <new>
#include <unordered_map>
#include <vector>

#include "absl/synchronization/barrier.h"
#include "absl/synchronization/blocking_counter.h"
#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "rt_internal.h"

namespace sim {

Shared* sh = nullptr;
bool g_active = false;
int g_in_rt = 0;

namespace {

template <typename T>
struct MAlloc {
  using value_type = T;
  MAlloc() = default;
  template <typename U>
  MAlloc(const MAlloc<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { free(p); }
  template <typename U>
  bool operator==(const MAlloc<U>&) const {
    return true;
  }
  template <typename U>
  bool operator!=(const MAlloc<U>&) const {
    return false;
  }
};

long RawFutex(std::atomic<int>* a, int op, int v) {
  long r;
  register long r10 __asm__("r10") = 0;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(SYS_futex), "D"(a), "S"((long)op), "d"((long)v),
                     "r"(r10)
                   : "rcx", "r11", "memory");
  return r;
}

enum St { kRun, kMutex, kCv, kJoin, kSleep, kPred, kDone };

struct Thr {
  int id;
  St st;
  std::atomic<int> baton;
  void* obj;
  bool shared;
  const absl::Condition* cond;
  const std::function<bool()>* pred;
  int64_t deadline;  // -1: none
  bool signaled;
  uint64_t prio;
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool joined, detached;
  const char* what;
};

struct Mx {
  int owner = -1;
  int readers = 0;
  int count = 0;
};

constexpr int kMaxThr = 512;
Thr* g_thr[kMaxThr];
int g_nthr = 0;
int g_live = 0;
// Fairness: a thread may not win more than kMaxStreak consecutive decisions
// while others could run.
constexpr int kMaxStreak = 400;
Thr* g_last = nullptr;
int g_streak = 0;
__thread Thr* t_self = nullptr;

using MxMap =
    std::unordered_map<void*, Mx, std::hash<void*>, std::equal_to<void*>,
                       MAlloc<std::pair<void* const, Mx>>>;
MxMap* g_mx = nullptr;

std::function<void()>* g_deadlock = nullptr;
std::function<void(int)>* g_exit = nullptr;
std::function<void(const std::string&)>* g_fatal = nullptr;

struct InRt {
  InRt() { ++g_in_rt; }
  ~InRt() { --g_in_rt; }
};

uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t Next(uint64_t* s) {  // xoroshiro128+
  uint64_t s0 = s[0], s1 = s[1], r = s0 + s1;
  s1 ^= s0;
  s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
  s[1] = (s1 << 37) | (s1 >> 27);
  return r;
}
double Unit(uint64_t* s) { return (Next(s) >> 11) * (1.0 / 9007199254740992.0); }

void MixHash(uint64_t v) { sh->hash = (sh->hash ^ v) * 1099511628211ull; sh->hash ^= sh->hash >> 29; }

void LogDecision(Stream s, uint64_t idx, uint32_t v) {
  if (sh->n_log < kMaxLog) {
    sh->log[sh->n_log++] = {s, v, idx};
  } else {
    sh->log_overflow = 1;
  }
}

template <typename Gen>
uint32_t Decide(Stream s, uint32_t n, Gen gen) {
  uint64_t idx = sh->idx[s]++;
  uint32_t v = 0;
  if (sh->replay) {
    uint32_t& p = sh->rpos[s];
    while (p < sh->rend[s] && sh->replay_d[p].idx < idx) ++p;
    if (p < sh->rend[s] && sh->replay_d[p].idx == idx) {
      v = sh->replay_d[p].value;
      if (v >= n) v = 0;
    }
  } else {
    v = gen();
  }
  if (v != 0) LogDecision(s, idx, v);
  MixHash((uint64_t(s) << 56) ^ (idx << 20) ^ v);
  return v;
}

bool MxAvail(void* obj, bool shared, int self) {
  auto it = g_mx->find(obj);
  if (it == g_mx->end()) return true;
  if (shared) return it->second.owner < 0;
  return it->second.owner < 0 && it->second.readers == 0;
}

bool Enabled(Thr* t) {
  switch (t->st) {
    case kRun:
      return true;
    case kMutex:
      if (!MxAvail(t->obj, t->shared, t->id)) return false;
      if (t->cond == nullptr) return true;
      if (t->deadline >= 0 && sh->now_ns >= t->deadline) return true;
      return t->cond->Eval();
    case kCv:
      return t->signaled || (t->deadline >= 0 && sh->now_ns >= t->deadline);
    case kJoin:
      return static_cast<Thr*>(t->obj)->st == kDone;
    case kSleep:
      return sh->now_ns >= t->deadline;
    case kPred:
      return (t->deadline >= 0 && sh->now_ns >= t->deadline) || (*t->pred)();
    case kDone:
      return false;
  }
  return false;
}

void EndRun(int outcome, const char* prop, const char* msg) {
  if (sh->outcome == kRunning) {
    sh->outcome = outcome;
    snprintf(sh->prop, sizeof(sh->prop), "%s", prop);
    snprintf(sh->msg, sizeof(sh->msg), "%s", msg);
  }
  _exit(outcome == kPass ? 0 : outcome);
}

void AppendTrace(const char* s) {
  if (!sh->tracing) return;
  char head[64];
  snprintf(head, sizeof(head), "[%10.6fs t%d] ", sh->now_ns / 1e9,
           t_self ? t_self->id : -1);
  size_t a = strlen(head), b = strlen(s);
  if (sh->n_trace + a + b + 2 >= kMaxTrace) return;
  memcpy(sh->trace + sh->n_trace, head, a);
  memcpy(sh->trace + sh->n_trace + a, s, b);
  sh->n_trace += a + b;
  sh->trace[sh->n_trace++] = '\n';
}

[[noreturn]] void DeadlockFound() {
  if (g_deadlock) (*g_deadlock)();
  std::string s = "deadlock: no thread can make progress:";
  for (int i = 0; i < g_nthr; ++i) {
    if (g_thr[i]->st == kDone) continue;
    char b[96];
    snprintf(b, sizeof(b), " t%d(%s)", i, g_thr[i]->what ? g_thr[i]->what : "?");
    s += b;
  }
  Violation(nullptr, "%s", s.c_str());
}

void PassBaton(Thr* self, Thr* to) {
  sh->switches++;
  if (self == to) return;
  to->baton.store(1, std::memory_order_release);
  RawFutex(&to->baton, FUTEX_WAKE, 1);
}

void WaitBaton(Thr* self) {
  while (self->baton.load(std::memory_order_acquire) == 0) {
    RawFutex(&self->baton, FUTEX_WAIT, 0);
  }
  self->baton.store(0, std::memory_order_relaxed);
}

// Advances the clock to the earliest deadline. false if there is none.
bool NextTimer(int64_t* out) {
  int64_t best = -1;
  for (int i = 0; i < g_nthr; ++i) {
    Thr* t = g_thr[i];
    if (t->st == kDone || t->st == kRun || t->deadline < 0) continue;
    if (t->deadline <= sh->now_ns || t->deadline >= INT64_MAX / 4) continue;
    if (best < 0 || t->deadline < best) best = t->deadline;
  }
  *out = best;
  return best >= 0;
}

void StepCheck() {
  sh->now_ns += sh->tuning.step_ns;
  if (++sh->steps > sh->tuning.max_steps) {
    std::string s = "no progress: step bound exceeded;";
    for (int i = 0; i < g_nthr; ++i) {
      if (g_thr[i]->st == kDone) continue;
      char b[96];
      snprintf(b, sizeof(b), " t%d(%s)", i,
               g_thr[i]->what ? g_thr[i]->what : "?");
      s += b;
    }
    Violation(nullptr, "%s", s.c_str());
  }
}

// Picks the next thread to run. `mem` < 0: a synchronisation point.
Thr* Pick(Thr* self, bool force_other) {
  Thr* en[kMaxThr];
  int n = 0;
  while (true) {
    n = 0;
    if (self && self->st != kDone && Enabled(self) && !force_other)
      en[n++] = self;
    for (int i = 0; i < g_nthr; ++i) {
      Thr* t = g_thr[i];
      if (t == self) continue;
      if (t->st != kDone && Enabled(t)) en[n++] = t;
    }
    int64_t tm;
    bool timer = NextTimer(&tm);
    if (n > 0) {
      if (timer && sh->tuning.p_time > 0) {
        if (Decide(kTime, 2, [] {
              return Unit(sh->rng_sched) < sh->tuning.p_time ? 1u : 0u;
            })) {
          sh->now_ns = tm;
          continue;
        }
      }
      break;
    }
    if (force_other) return self;
    if (!timer) DeadlockFound();
    sh->now_ns = tm;
  }
  if (n > 1 && en[0] == g_last && ++g_streak > kMaxStreak) {
    g_streak = 0;
    for (int i = 1; i < n; ++i) en[i - 1] = en[i];
    --n;
    self->prio = Next(sh->rng_sched) % 1000;
  }
  if (n == 1) {
    if (en[0] != g_last) g_streak = 0;
    g_last = en[0];
    return en[0];
  }
  bool self_first = en[0] == self;
  uint32_t v = Decide(kSched, n, [&]() -> uint32_t {
    if (sh->tuning.pct_depth > 0) {
      int best = 0;
      for (int i = 1; i < n; ++i)
        if (en[i]->prio > en[best]->prio) best = i;
      return best;
    }
    if (self_first) {
      if (Unit(sh->rng_sched) >= sh->tuning.p_switch) return 0;
      return 1 + Next(sh->rng_sched) % (n - 1);
    }
    return Next(sh->rng_sched) % n;
  });
  sh->sched_hash = (sh->sched_hash ^ (en[v]->id + 1)) * 1099511628211ull;
  if (en[v] != g_last) g_streak = 0;
  g_last = en[v];
  return en[v];
}

uint64_t NewPrio() { return 1000 + Next(sh->rng_sched) % 1000000; }

// Current thread's state is already set; gives up the baton if needed.
void Reschedule(Thr* self) {
  StepCheck();
  if (sh->tuning.pct_depth > 0 &&
      Unit(sh->rng_sched) < sh->tuning.pct_depth / 400.0) {
    self->prio = Next(sh->rng_sched) % 1000;
  }
  Thr* to = Pick(self, false);
  if (to != self) {
    int saved = g_in_rt;
    PassBaton(self, to);
    WaitBaton(self);
    g_in_rt = saved;
  }
  self->st = kRun;
  self->deadline = -1;
  self->cond = nullptr;
  self->pred = nullptr;
}

bool InSim() { return g_active && t_self != nullptr; }

void SetMemGap() {
  if (sh->replay) {
    uint32_t& p = sh->rpos[kMem];
    while (p < sh->rend[kMem] && sh->replay_d[p].idx <= sh->accesses) ++p;
    sh->next_preempt = p < sh->rend[kMem] ? sh->replay_d[p].idx : UINT64_MAX;
  } else if (sh->tuning.mem_gap <= 0) {
    sh->next_preempt = UINT64_MAX;
  } else {
    double u = Unit(sh->rng_sched);
    uint64_t gap = 1 + static_cast<uint64_t>(-__builtin_log(1 - u) *
                                             sh->tuning.mem_gap);
    sh->next_preempt = sh->accesses + gap;
  }
}

}  // namespace

void YieldInternal(const char* what) {
  Thr* self = t_self;
  InRt r;
  self->what = what;
  Reschedule(self);
}

void MemPreempt() {
  if (sh->accesses > sh->tuning.max_accesses)
    Violation(nullptr, "no progress: memory access bound exceeded");
  InRt r;
  Thr* self = t_self;
  uint64_t at = sh->accesses;
  uint32_t v = 0;
  Thr* en[kMaxThr];
  int n = 0;
  for (int i = 0; i < g_nthr; ++i) {
    Thr* t = g_thr[i];
    if (t != self && t->st != kDone && Enabled(t)) en[n++] = t;
  }
  if (sh->replay) {
    v = sh->replay_d[sh->rpos[kMem]].value;
  } else if (n > 0) {
    v = 1 + Next(sh->rng_sched) % n;
  }
  if (v != 0) LogDecision(kMem, at, v);
  MixHash((uint64_t(kMem) << 56) ^ (at << 8) ^ v);
  SetMemGap();
  if (v == 0 || n == 0) return;
  StepCheck();
  Thr* to = en[(v - 1) % n];
  sh->sched_hash = (sh->sched_hash ^ (to->id + 77)) * 1099511628211ull;
  self->what = "preempted";
  int saved = g_in_rt;
  PassBaton(self, to);
  WaitBaton(self);
  g_in_rt = saved;
}

// ---------------------------------------------------------------- decisions
uint32_t Choose(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  return Decide(s, n, [&] { return uint32_t(Next(sh->rng_decide) % n); });
}
uint32_t ChooseRare(Stream s, uint32_t n, double p) {
  if (n <= 1) return 0;
  return Decide(s, n, [&]() -> uint32_t {
    if (Unit(sh->rng_decide) >= p) return 0;
    return 1 + Next(sh->rng_decide) % (n - 1);
  });
}
bool Flip(Stream s, double p) {
  return Decide(s, 2, [&] { return Unit(sh->rng_decide) < p ? 1u : 0u; }) != 0;
}
int64_t Range(Stream s, int64_t lo, int64_t hi) {
  return lo + Choose(s, static_cast<uint32_t>(hi - lo + 1));
}
uint64_t Rand64() { return Next(sh->rng_data); }
void RandBytes(void* p, size_t n) {
  unsigned char* c = static_cast<unsigned char*>(p);
  while (n > 0) {
    uint64_t r = Rand64();
    size_t k = n < 8 ? n : 8;
    memcpy(c, &r, k);
    c += k;
    n -= k;
  }
}
double ConfigUniform() { return Unit(sh->rng_config); }
uint32_t ConfigChoose(uint32_t n) { return Next(sh->rng_config) % n; }

uint64_t Hash64(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

// --------------------------------------------------------------------- time
int64_t NowNs() { return sh->now_ns; }
int64_t RealtimeNs() { return sh->now_ns + sh->rt_offset_ns; }
void AdvanceNs(int64_t d) {
  if (d > 0) sh->now_ns += d;
}
void JumpRealtimeNs(int64_t d) { sh->rt_offset_ns += d; }
void SetRealtimeNs(int64_t t) { sh->rt_offset_ns = t - sh->now_ns; }

// ---------------------------------------------------------------- scheduling
void Yield(const char* what) {
  if (InSim()) YieldInternal(what);
}
void SleepNs(int64_t d) {
  InRt r;
  Thr* self = t_self;
  if (d <= 0) {
    YieldInternal("sleep0");
    return;
  }
  self->st = kSleep;
  self->what = "sleep";
  self->deadline = d > INT64_MAX / 4 ? INT64_MAX / 2 : sh->now_ns + d;
  Reschedule(self);
}
bool BlockUntilDeadline(const std::function<bool()>& pred, int64_t deadline_ns,
                        const char* what) {
  InRt r;
  Thr* self = t_self;
  self->st = kPred;
  self->pred = &pred;
  self->deadline = deadline_ns;
  self->what = what;
  Reschedule(self);
  return pred();
}
void BlockUntil(const std::function<bool()>& pred, const char* what) {
  BlockUntilDeadline(pred, -1, what);
}
int CurrentThread() { return t_self ? t_self->id : -1; }
int LiveThreads() { return g_live; }
uint64_t Steps() { return sh->steps; }
Tuning& tuning() { return sh->tuning; }

void SwarmTuning(bool mem) {
  static const double kSw[] = {0.02, 0.1, 0.3, 0.5, 0.8};
  static const double kGap[] = {0, 30, 100, 400, 2000, 10000};
  static const double kTm[] = {0, 0, 0.01, 0.05};
  Tuning& t = sh->tuning;
  t.p_switch = kSw[ConfigChoose(5)];
  t.mem_gap = mem ? kGap[ConfigChoose(6)] : 0;
  t.p_time = kTm[ConfigChoose(4)];
  t.p_spurious = ConfigChoose(3) == 0 ? 0.1 : 0.0;
  t.pct_depth = ConfigChoose(4) == 0 ? 1 + ConfigChoose(6) : 0;
  SetMemGap();
}

NoPreempt::NoPreempt() { ++g_in_rt; }
NoPreempt::~NoPreempt() { --g_in_rt; }

// -------------------------------------------------------------------- results
void Violation(const char* prop, const char* fmt, ...) {
  ++g_in_rt;
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  for (char* c = buf; *c; ++c)
    if (*c == '\n' || (unsigned char)*c < 32) *c = ' ';
  AppendTrace("VIOLATION");
  AppendTrace(buf);
  EndRun(kViolation, prop && *prop ? prop : "*", buf);
  __builtin_unreachable();
}
void Finish() {
  EndRun(kPass, "", "");
  __builtin_unreachable();
}
void HarnessError(const char* fmt, ...) {
  ++g_in_rt;
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  EndRun(kHarnessError, "", buf);
  __builtin_unreachable();
}
void SetDeadlockHandler(std::function<void()> fn) {
  g_deadlock = new std::function<void()>(std::move(fn));
}
void SetExitHandler(std::function<void(int)> fn) {
  g_exit = new std::function<void(int)>(std::move(fn));
}
void SetFatalHandler(std::function<void(const std::string&)> fn) {
  g_fatal = new std::function<void(const std::string&)>(std::move(fn));
}

static void AddCounter(const char* name, uint64_t n, int fault) {
  for (int i = 0; i < sh->n_counters; ++i) {
    if (sh->counters[i].fault == fault && !strcmp(sh->counters[i].name, name)) {
      sh->counters[i].n += n;
      return;
    }
  }
  if (sh->n_counters == kMaxCounters) return;
  Counter& c = sh->counters[sh->n_counters++];
  snprintf(c.name, sizeof(c.name), "%s", name);
  c.n = n;
  c.fault = fault;
}
void CountFault(const char* kind, uint64_t n) { AddCounter(kind, n, 1); }
void Count(const char* probe, uint64_t n) { AddCounter(probe, n, 0); }
void Cover(uint64_t state) {
  if (sh->n_cover < kMaxCover) sh->cover[sh->n_cover++] = state;
}
void Event(const char* fmt, ...) {
  InRt r;
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  MixHash(Hash64(buf, strlen(buf)));
  AppendTrace(buf);
}
bool Tracing() { return sh->tracing; }
const char* Property() { return sh->property; }
uint64_t Seed() { return sh->seed; }

void* SharedAlloc(size_t n) {
  n = (n + 63) & ~size_t(63);
  if (sh->heap_used + n > kSharedHeap) HarnessError("shared heap exhausted");
  void* p = sh->heap + sh->heap_used;
  memset(p, 0, n);
  sh->heap_used += n;
  return p;
}
const std::string& ScratchDir() {
  static std::string* s = new std::string("/simfs");
  return *s;
}

// ------------------------------------------------------------------- processes
void CrashHere() {
  AppendTrace("-- process crash --");
  _exit(77);
}

bool RunIncarnation(const std::function<void()>& fn) {
  InRt r;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) HarnessError("fork failed");
  if (p == 0) {
    Thr* self = t_self;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i] != self) g_thr[i]->st = kDone;
    g_live = 1;
    int saved = g_in_rt;
    g_in_rt = 0;
    fn();
    g_in_rt = saved;
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) {
    char b[96];
    snprintf(b, sizeof(b), "crash: signal %d", WTERMSIG(st));
    EndRun(kViolation, "*", b);
  }
  int code = WEXITSTATUS(st);
  if (code == 0) return true;
  if (code == 77) return false;
  _exit(code);  // outcome already recorded
}

// -------------------------------------------------------------------- arena
namespace {
constexpr uintptr_t kArena = 0x200000000000ull;
constexpr uintptr_t kArenaSize = 8ull << 30;
constexpr uintptr_t kShadow = 0x300000000000ull;
uintptr_t g_arena_pos = 0;
bool g_arena_on = false;

struct BlockHdr {
  uint64_t size;
  uint64_t magic;
};
constexpr uint64_t kLive = 0x51A110C8DEADBEEFull;
constexpr uint64_t kFreed = 0x51A110C8F4EEF4EEull;

inline bool InArena(const void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  return a - kArena < kArenaSize;
}
inline unsigned char* Shadow(uintptr_t a) {
  return reinterpret_cast<unsigned char*>(kShadow + ((a - kArena) >> 3));
}

void* ArenaAlloc(size_t n, size_t align) {
  if (n == 0) n = 1;
  if (align < 16) align = 16;
  uintptr_t p = g_arena_pos + sizeof(BlockHdr);
  p = (p + align - 1) & ~(uintptr_t(align) - 1);
  uintptr_t end = ((p + n + 7) & ~uintptr_t(7)) + 16;
  if (end > kArena + kArenaSize) HarnessError("arena exhausted");
  g_arena_pos = (end + 15) & ~uintptr_t(15);
  BlockHdr* h = reinterpret_cast<BlockHdr*>(p - sizeof(BlockHdr));
  h->size = n;
  h->magic = kLive;
  memset(Shadow(p), 8, n >> 3);
  if (n & 7) *Shadow(p + (n & ~size_t(7))) = n & 7;
  return reinterpret_cast<void*>(p);
}

// ---- call sites of memory errors --------------------------------------------
struct Sym {
  uintptr_t lo, hi;
  const char* name;
};
std::vector<Sym>* g_syms = nullptr;

struct Frames {
  uintptr_t pc[64];
  int n = 0;
};
_Unwind_Reason_Code OnFrame(_Unwind_Context* c, void* arg) {
  Frames* f = static_cast<Frames*>(arg);
  if (f->n == 64) return _URC_END_OF_STACK;
  f->pc[f->n++] = _Unwind_GetIP(c);
  return _URC_NO_REASON;
}
// The innermost functions of the code under test on the stack.
std::string Where() {
  if (!g_syms) return "";
  Frames f;
  _Unwind_Backtrace(OnFrame, &f);
  std::string out;
  int found = 0;
  for (int i = 0; i < f.n && found < 2; ++i) {
    uintptr_t pc = f.pc[i] - 1;
    auto it = std::upper_bound(g_syms->begin(), g_syms->end(), pc,
                               [](uintptr_t a, const Sym& s) { return a < s.lo; });
    if (it == g_syms->begin()) continue;
    --it;
    if (pc >= it->hi || !strstr(it->name, "3fcp")) continue;
    int st = 0;
    char* d = abi::__cxa_demangle(it->name, nullptr, nullptr, &st);
    std::string n = st == 0 && d ? d : it->name;
    size_t b = n.find("fcp::");
    if (b == std::string::npos) continue;
    n = n.substr(b);
    n = n.substr(0, n.find_first_of("(<{"));
    while (!n.empty() && (n.back() == ':' || n.back() == ' ')) n.pop_back();
    out += (found++ ? " < " : " in ") + n;
  }
  return out;
}

void ArenaFree(void* p) {
  BlockHdr* h =
      reinterpret_cast<BlockHdr*>(reinterpret_cast<uintptr_t>(p) - sizeof(BlockHdr));
  if (h->magic != kLive) {
    if (h->magic == kFreed) Violation(nullptr, "memory: double free%s", Where().c_str());
    Violation(nullptr, "memory: invalid free");
  }
  h->magic = kFreed;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  memset(Shadow(a), 0xFD, (h->size + 7) >> 3);
  memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
}

void ArenaInit() {
  void* a = mmap(reinterpret_cast<void*>(kArena), kArenaSize,
                 PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                 -1, 0);
  void* s = mmap(reinterpret_cast<void*>(kShadow), kArenaSize >> 3,
                 PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (a != reinterpret_cast<void*>(kArena) || s != reinterpret_cast<void*>(kShadow))
    HarnessError("arena mmap failed");
  g_arena_pos = kArena;
  g_arena_on = true;
}
}  // namespace

// Called for every instrumented access.
extern "C" void sim_bad_access(uintptr_t a, int size, int write) {
  unsigned char s = *Shadow(a);
  ++g_in_rt;
  Violation(nullptr, "memory: %s %s%s", write ? "write" : "read",
            s == 0xFD ? "after free" : "out of bounds", Where().c_str());
}

void sim_load_symbols() {
  int fd = open("/proc/self/exe", O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) return;
  char* base = static_cast<char*>(mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
  close(fd);
  if (base == MAP_FAILED) return;
  auto* eh = reinterpret_cast<Elf64_Ehdr*>(base);
  auto* sh = reinterpret_cast<Elf64_Shdr*>(base + eh->e_shoff);
  auto* v = new std::vector<Sym>;
  for (int i = 0; i < eh->e_shnum; ++i) {
    if (sh[i].sh_type != SHT_SYMTAB) continue;
    auto* sy = reinterpret_cast<Elf64_Sym*>(base + sh[i].sh_offset);
    const char* str = base + sh[sh[i].sh_link].sh_offset;
    for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
      if (ELF64_ST_TYPE(sy[k].st_info) == STT_FUNC && sy[k].st_size)
        v->push_back({sy[k].st_value, sy[k].st_value + sy[k].st_size, str + sy[k].st_name});
  }
  std::sort(v->begin(), v->end(), [](const Sym& a, const Sym& b) { return a.lo < b.lo; });
  g_syms = v;
}

inline void CheckAccess(const void* p, size_t size, bool write) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a - kArena >= kArenaSize || !g_arena_on) return;
  unsigned char s = *Shadow(a);
  if (__builtin_expect(s == 8 && ((a & 7) + size) <= 8, 1)) return;
  uintptr_t last = a + size - 1;
  for (uintptr_t g = a & ~uintptr_t(7); g <= last; g += 8) {
    unsigned char v = *Shadow(g);
    if (v == 8) continue;
    uintptr_t upto = last < g + 7 ? last : g + 7;
    if (v == 0 || v == 0xFD || (upto & 7) >= v) {
      sim_bad_access(v == 0xFD ? g : a, size, write);
    }
  }
}

inline void OnAccess(const void* p, size_t size, bool write) {
  if (!g_active) return;
  CheckAccess(p, size, write);
  if (g_in_rt) return;
  if (__builtin_expect(++sh->accesses >= sh->next_preempt ||
                           sh->accesses > sh->tuning.max_accesses,
                       0)) {
    if (t_self) MemPreempt();
  }
}

inline void OnAtomic(const void* p, size_t size) {
  if (!g_active) return;
  CheckAccess(p, size, true);
  if (g_in_rt || !t_self) return;
  ++sh->accesses;
  if (sh->tuning.mem_gap > 0 && g_live > 1) YieldInternal("atomic");
}

// ------------------------------------------------------------------ threads
namespace {

typedef int (*PCreate)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*PJoin)(pthread_t, void**);

template <typename F>
F Real(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) {
    fprintf(stderr, "sim: no real %s\n", name);
    abort();
  }
  return reinterpret_cast<F>(p);
}

void (*g_call_tls_dtors)() = nullptr;

Thr* NewThr() {
  if (g_nthr == kMaxThr) HarnessError("too many threads");
  Thr* t = static_cast<Thr*>(calloc(1, sizeof(Thr)));
  new (&t->baton) std::atomic<int>(0);
  t->id = g_nthr;
  t->st = kRun;
  t->deadline = -1;
  t->prio = NewPrio();
  g_thr[g_nthr++] = t;
  ++g_live;
  return t;
}

void ExitThread(Thr* self) {
  // Still holding the baton.
  ++g_in_rt;
  self->st = kDone;
  --g_live;
  MixHash(0xE0D + self->id);
  Thr* to = Pick(self, false);
  g_in_rt = 0;  // restored by the resumed thread
  PassBaton(self, to);
}

void* ThreadMain(void* p) {
  Thr* self = static_cast<Thr*>(p);
  t_self = self;
  WaitBaton(self);
  g_in_rt = 0;
  self->ret = self->fn(self->arg);
  if (g_call_tls_dtors) g_call_tls_dtors();
  ExitThread(self);
  t_self = nullptr;
  return self->ret;
}

Thr* FindThr(pthread_t p) {
  for (int i = g_nthr - 1; i >= 0; --i)
    if (g_thr[i]->real == p && !g_thr[i]->joined) return g_thr[i];
  return nullptr;
}

int64_t TsNs(const struct timespec* ts) {
  if (ts->tv_sec > 4000000000ll) return INT64_MAX / 2;
  return int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
}

// ---- mutex primitives (absl and pthread)
bool LockImpl(void* obj, bool shared, const absl::Condition* cond,
              int64_t deadline, const char* what) {
  Thr* self = t_self;
  InRt r;
  self->st = kMutex;
  self->obj = obj;
  self->shared = shared;
  self->cond = cond;
  self->deadline = cond ? deadline : -1;
  self->what = what;
  Reschedule(self);
  Mx& m = (*g_mx)[obj];
  if (shared) {
    m.readers++;
  } else {
    m.owner = self->id;
    m.count = 1;
  }
  return true;
}

void UnlockImpl(void* obj, bool shared, const char* what) {
  InRt r;
  auto it = g_mx->find(obj);
  if (it == g_mx->end() ||
      (shared ? it->second.readers <= 0 : it->second.owner != t_self->id)) {
    Violation(nullptr, "%s of a mutex that is not held", what);
  }
  if (shared) {
    it->second.readers--;
  } else {
    it->second.owner = -1;
  }
  if (it->second.owner < 0 && it->second.readers == 0) g_mx->erase(it);
  YieldInternal(what);
}

// Blocks on condition variable `cv`; mutex handling by the caller.
bool CvBlock(void* cv, int64_t deadline) {
  Thr* self = t_self;
  InRt r;
  self->st = kCv;
  self->obj = cv;
  self->signaled = false;
  self->deadline = deadline;
  self->what = "condvar";
  if (sh->tuning.p_spurious > 0 && Flip(kFault, sh->tuning.p_spurious)) {
    self->signaled = true;
    CountFault("spurious_wakeup");
  }
  bool timed_out = false;
  StepCheck();
  Thr* to = Pick(self, false);
  if (to != self) {
    int saved = g_in_rt;
    PassBaton(self, to);
    WaitBaton(self);
    g_in_rt = saved;
  }
  timed_out = !self->signaled;
  self->st = kRun;
  self->deadline = -1;
  self->signaled = false;
  return timed_out;
}

void CvSignal(void* cv, bool all) {
  InRt r;
  Thr* w[kMaxThr];
  int n = 0;
  for (int i = 0; i < g_nthr; ++i) {
    Thr* t = g_thr[i];
    if (t->st == kCv && t->obj == cv && !t->signaled) w[n++] = t;
  }
  if (n > 0) {
    if (all) {
      for (int i = 0; i < n; ++i) w[i]->signaled = true;
    } else {
      w[Choose(kSched, n)]->signaled = true;
    }
  }
  YieldInternal("signal");
}

int64_t DeadlineFor(absl::Time t) {
  if (t == absl::InfiniteFuture()) return -1;
  int64_t ns = absl::ToUnixNanos(t);
  if (absl::FromUnixNanos(ns) < t) ++ns;
  ns -= sh->rt_offset_ns;
  return ns < 0 ? 0 : ns;
}
int64_t DeadlineFor(absl::Duration d) {
  if (d == absl::InfiniteDuration()) return -1;
  int64_t ns = absl::ToInt64Nanoseconds(d);
  if (ns > INT64_MAX / 4) return -1;
  return sh->now_ns + (ns < 0 ? 0 : ns);
}

void OnSignal(int sig, siginfo_t* si, void* uc) {
  if (sig == SIGSEGV) {
    // The time stamp counter is disabled (PR_SET_TSC) and emulated here.
    greg_t* r = static_cast<ucontext_t*>(uc)->uc_mcontext.gregs;
    const unsigned char* pc = reinterpret_cast<const unsigned char*>(r[REG_RIP]);
    int len = si->si_code == SI_KERNEL && pc && pc[0] == 0x0f
                  ? (pc[1] == 0x31 ? 2 : pc[1] == 0x01 && pc[2] == 0xf9 ? 3 : 0)
                  : 0;
    if (len) {
      static uint64_t tsc = 1000000;
      tsc += 1000;
      r[REG_RAX] = tsc & 0xffffffff;
      r[REG_RDX] = tsc >> 32;
      if (len == 3) r[REG_RCX] = 0;
      r[REG_RIP] += len;
      return;
    }
  }
  static bool again = false;
  if (again) _exit(kViolation);
  again = true;
  if (sh && sh->outcome == kRunning) {
    sh->outcome = kViolation;
    snprintf(sh->prop, sizeof(sh->prop), "*");
    uintptr_t pc = static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_RIP];
    Dl_info di;
    const char* name = "?";
    if (dladdr(reinterpret_cast<void*>(pc), &di) && di.dli_sname)
      name = di.dli_sname;
    snprintf(sh->msg, sizeof(sh->msg), "crash: signal %d (%s) in %s", sig,
             sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segmentation fault"
             : sig == SIGFPE ? "arithmetic fault" : "fatal", name);
    if (sh->tracing) {
      void* bt[40];
      int n = backtrace(bt, 40);
      for (int i = 0; i < n; ++i) {
        char b[64];
        snprintf(b, sizeof(b), "  bt %p", bt[i]);
        AppendTrace(b);
      }
    }
  }
  _exit(kViolation);
}

}  // namespace

void ResetShared(Shared* s, uint64_t seed) {
  s->seed = seed;
  memset(s->idx, 0, sizeof(s->idx));
  uint32_t p = 0;
  for (int i = 0; i < kNumStreams; ++i) {
    s->rpos[i] = p;
    while (p < s->n_replay && s->replay && s->replay_d[p].stream == uint32_t(i)) ++p;
    s->rend[i] = p;
  }
  uint64_t x = seed * 0x2545F4914F6CDD1Dull + 0x1234567;
  for (int i = 0; i < 2; ++i) {
    s->rng_decide[i] = SplitMix(x);
    s->rng_data[i] = SplitMix(x);
    s->rng_config[i] = SplitMix(x);
    s->rng_sched[i] = SplitMix(x);
  }
  s->hash = 1469598103934665603ull;
  s->sched_hash = 1469598103934665603ull;
  s->steps = s->accesses = 0;
  s->switches = 0;
  s->next_preempt = UINT64_MAX;
  s->now_ns = 1000000000ll;
  s->rt_offset_ns = 1700000000ll * 1000000000ll;
  s->tuning = Tuning();
  s->outcome = kRunning;
  s->prop[0] = s->msg[0] = 0;
  s->n_counters = 0;
  s->n_cover = 0;
  s->n_log = 0;
  s->log_overflow = 0;
  s->n_trace = 0;
  s->heap_used = 0;
}

void ChildMain() {
  g_call_tls_dtors =
      reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, "__call_tls_dtors"));
  void* warm[2];
  backtrace(warm, 2);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = OnSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  static char alt[65536];
  stack_t ss = {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof(alt);
  sigaltstack(&ss, nullptr);
  prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
  g_mx = new MxMap();
  Thr* self = NewThr();
  self->real = pthread_self();
  t_self = self;
  SetMemGap();
  ArenaInit();
  g_active = true;
  ::SimRun();
  ++g_in_rt;
  Finish();
}

}  // namespace sim

using sim::InSim;

// ============================================================ interposition
extern "C" {

void sim_fatal(const char* file, int line, const char* msg) {
  if (sim::g_active) {
    ++sim::g_in_rt;
    const char* b = strrchr(file, '/');
    std::string m = std::string(b ? b + 1 : file) + ": " + msg;
    if (sim::g_fatal) (*sim::g_fatal)(m);
    sim::Violation(nullptr, "fatal check failed in %s", m.c_str());
  }
  fprintf(stderr, "FATAL %s:%d %s\n", file, line, msg);
  abort();
}

int pthread_create(pthread_t* th, const pthread_attr_t* attr,
                   void* (*fn)(void*), void* arg) {
  static sim::PCreate real = sim::Real<sim::PCreate>("pthread_create");
  if (!InSim()) return real(th, attr, fn, arg);
  sim::Thr* t;
  {
    sim::InRt r;
    t = sim::NewThr();
    t->fn = fn;
    t->arg = arg;
    t->what = "start";
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    int rc = real(th, &a, sim::ThreadMain, t);
    pthread_attr_destroy(&a);
    if (rc != 0) sim::HarnessError("pthread_create failed: %d", rc);
    t->real = *th;
  }
  sim::YieldInternal("thread create");
  return 0;
}

int pthread_join(pthread_t th, void** ret) {
  static sim::PJoin real = sim::Real<sim::PJoin>("pthread_join");
  if (!InSim()) return real(th, ret);
  sim::InRt r;
  sim::Thr* t = sim::FindThr(th);
  if (!t) sim::HarnessError("join of unknown thread");
  sim::Thr* self = sim::t_self;
  if (t == self) sim::Violation(nullptr, "deadlock: thread joins itself");
  self->st = sim::kJoin;
  self->obj = t;
  self->what = "join";
  sim::Reschedule(self);
  t->joined = true;
  return real(th, ret);
}

int pthread_detach(pthread_t th) {
  typedef int (*F)(pthread_t);
  static F real = sim::Real<F>("pthread_detach");
  if (InSim()) {
    sim::Thr* t = sim::FindThr(th);
    if (t) t->joined = t->detached = true;
  }
  return real(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  typedef int (*F)(pthread_mutex_t*);
  static F real = sim::Real<F>("pthread_mutex_lock");
  if (!InSim() || sim::g_in_rt) return real(m);
  if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
    auto it = sim::g_mx->find(m);
    if (it != sim::g_mx->end() && it->second.owner == sim::t_self->id) {
      it->second.count++;
      return 0;
    }
  }
  sim::LockImpl(m, false, nullptr, -1, "pthread mutex");
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  typedef int (*F)(pthread_mutex_t*);
  static F real = sim::Real<F>("pthread_mutex_trylock");
  if (!InSim() || sim::g_in_rt) return real(m);
  sim::YieldInternal("trylock");
  if (!sim::MxAvail(m, false, sim::t_self->id)) return EBUSY;
  sim::Mx& x = (*sim::g_mx)[m];
  x.owner = sim::t_self->id;
  x.count = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  typedef int (*F)(pthread_mutex_t*);
  static F real = sim::Real<F>("pthread_mutex_unlock");
  if (!InSim()) return real(m);
  auto it = sim::g_mx->find(m);
  if (it == sim::g_mx->end()) return real(m);
  if (it->second.owner == sim::t_self->id && it->second.count > 1) {
    it->second.count--;
    return 0;
  }
  sim::UnlockImpl(m, false, "pthread unlock");
  return 0;
}

static int SimCondWait(void* c, pthread_mutex_t* m, int64_t deadline) {
  sim::InRt r;
  auto it = sim::g_mx->find(m);
  if (it != sim::g_mx->end()) sim::g_mx->erase(it);
  bool to = sim::CvBlock(c, deadline);
  sim::LockImpl(m, false, nullptr, -1, "cond relock");
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*);
  static F real = sim::Real<F>("pthread_cond_wait");
  if (!InSim()) return real(c, m);
  return SimCondWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec* ts) {
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  static F real = sim::Real<F>("pthread_cond_timedwait");
  if (!InSim()) return real(c, m, ts);
  int64_t d = sim::TsNs(ts) - sim::sh->rt_offset_ns;
  return SimCondWait(c, m, d < 0 ? 0 : d);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk,
                           const struct timespec* ts) {
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                   const struct timespec*);
  static F real = sim::Real<F>("pthread_cond_clockwait");
  if (!InSim()) return real(c, m, clk, ts);
  int64_t d = sim::TsNs(ts);
  if (clk == CLOCK_REALTIME) d -= sim::sh->rt_offset_ns;
  return SimCondWait(c, m, d < 0 ? 0 : d);
}
int pthread_cond_signal(pthread_cond_t* c) {
  typedef int (*F)(pthread_cond_t*);
  static F real = sim::Real<F>("pthread_cond_signal");
  if (!InSim()) return real(c);
  sim::CvSignal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  typedef int (*F)(pthread_cond_t*);
  static F real = sim::Real<F>("pthread_cond_broadcast");
  if (!InSim()) return real(c);
  sim::CvSignal(c, true);
  return 0;
}
int pthread_once(pthread_once_t* ctl, void (*fn)(void)) {
  if (*ctl & 2) return 0;
  if (InSim()) {
    while (*ctl & 1) {
      sim::BlockUntil([ctl] { return !(*ctl & 1); }, "once");
    }
    if (*ctl & 2) return 0;
  }
  *ctl = 1;
  fn();
  *ctl = 2;
  return 0;
}

int __cxa_guard_acquire(long long* g) {
  volatile char* c = reinterpret_cast<volatile char*>(g);
  if (c[0]) return 0;
  if (InSim()) {
    while (c[1]) {
      sim::BlockUntil([c] { return c[1] == 0; }, "static init");
    }
    if (c[0]) return 0;
  }
  c[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) {
  volatile char* c = reinterpret_cast<volatile char*>(g);
  c[0] = 1;
  c[1] = 0;
}
void __cxa_guard_abort(long long* g) {
  volatile char* c = reinterpret_cast<volatile char*>(g);
  c[1] = 0;
}

int sched_yield() {
  if (InSim()) sim::YieldInternal("sched_yield");
  return 0;
}

// ---- clocks
int clock_gettime(clockid_t clk, struct timespec* ts) {
  typedef int (*F)(clockid_t, struct timespec*);
  static F real = sim::Real<F>("clock_gettime");
  if (!InSim()) return real(clk, ts);
  int64_t t = (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE ||
               clk == CLOCK_TAI)
                  ? sim::RealtimeNs()
                  : sim::sh->now_ns;
  ts->tv_sec = t / 1000000000ll;
  ts->tv_nsec = t % 1000000000ll;
  if (ts->tv_nsec < 0) {
    ts->tv_nsec += 1000000000ll;
    ts->tv_sec -= 1;
  }
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  typedef int (*F)(struct timeval*, void*);
  static F real = sim::Real<F>("gettimeofday");
  if (!InSim()) return real(tv, tz);
  int64_t t = sim::RealtimeNs();
  tv->tv_sec = t / 1000000000ll;
  tv->tv_usec = t % 1000000000ll / 1000;
  return 0;
}
time_t time(time_t* out) {
  typedef time_t (*F)(time_t*);
  static F real = sim::Real<F>("time");
  if (!InSim()) return real(out);
  time_t t = sim::RealtimeNs() / 1000000000ll;
  if (out) *out = t;
  return t;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
  typedef int (*F)(const struct timespec*, struct timespec*);
  static F real = sim::Real<F>("nanosleep");
  if (!InSim()) return real(req, rem);
  sim::SleepNs(sim::TsNs(req));
  return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec* req,
                    struct timespec* rem) {
  typedef int (*F)(clockid_t, int, const struct timespec*, struct timespec*);
  static F real = sim::Real<F>("clock_nanosleep");
  if (!InSim()) return real(clk, flags, req, rem);
  int64_t t = sim::TsNs(req);
  if (flags & TIMER_ABSTIME) {
    if (clk == CLOCK_REALTIME) t -= sim::sh->rt_offset_ns;
    t -= sim::sh->now_ns;
  }
  sim::SleepNs(t);
  return 0;
}
int usleep(useconds_t us) {
  struct timespec ts = {us / 1000000, long(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec ts = {s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}

// ---- randomness
ssize_t getrandom(void* buf, size_t n, unsigned flags) {
  typedef ssize_t (*F)(void*, size_t, unsigned);
  static F real = sim::Real<F>("getrandom");
  if (!sim::g_active) return real(buf, n, flags);
  sim::RandBytes(buf, n);
  return n;
}
int getentropy(void* buf, size_t n) {
  typedef int (*F)(void*, size_t);
  static F real = sim::Real<F>("getentropy");
  if (!sim::g_active) return real(buf, n);
  sim::RandBytes(buf, n);
  return 0;
}
int RAND_bytes(uint8_t* buf, size_t n) {
  if (!sim::g_active) {
    getentropy(buf, n < 256 ? n : 256);
    return 1;
  }
  sim::RandBytes(buf, n);
  return 1;
}
int rand() {
  if (!sim::g_active) return 4;
  uint64_t r = sim::Rand64() & 0x7fffffff;
  uint32_t range = sim::tuning().rand_range;
  return range ? r % range : r;
}
pid_t getpid() {
  typedef pid_t (*F)();
  static F real = sim::Real<F>("getpid");
  if (!sim::g_active) return real();
  return 4242;
}

long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (sim::g_active) {
    if (nr == SYS_getrandom) {
      sim::RandBytes(reinterpret_cast<void*>(a[0]), a[1]);
      return a[1];
    }
    if (nr == SYS_futex && InSim()) {
      int op = a[1] & 127;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        volatile int* p = reinterpret_cast<volatile int*>(a[0]);
        int val = a[2];
        int64_t dl = -1;
        const struct timespec* ts = reinterpret_cast<const struct timespec*>(a[3]);
        if (ts) {
          dl = sim::TsNs(ts);
          if (op == FUTEX_WAIT) dl += sim::sh->now_ns;
          else if (a[1] & FUTEX_CLOCK_REALTIME) dl -= sim::sh->rt_offset_ns;
          if (dl < 0) dl = 0;
        }
        bool ok = sim::BlockUntilDeadline([p, val] { return *p != val; }, dl,
                                          "futex");
        if (ok) return 0;
        errno = ETIMEDOUT;
        return -1;
      }
      if (op == FUTEX_WAKE) {
        sim::YieldInternal("futex wake");
        return 0;
      }
    }
  }
  long r;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10),
                     "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}

void exit(int code) {
  if (sim::g_active) {
    ++sim::g_in_rt;
    if (sim::g_exit) (*sim::g_exit)(code);
    for (int i = 0; i < sim::g_nthr; ++i)
      if (sim::g_thr[i]->st != sim::kDone)
        sim::Event("t%d (state %d) waits for %s", i, (int)sim::g_thr[i]->st, sim::g_thr[i]->what ? sim::g_thr[i]->what : "its turn");
    sim::Violation(nullptr, "process exited with code %d", code);
  }
  typedef void (*F)(int);
  static F real = sim::Real<F>("exit");
  real(code);
  __builtin_unreachable();
}

}  // extern "C"

// ------------------------------------------------------------------- new/delete
static void* SimNew(size_t n, size_t align) {
  if (sim::g_arena_on && !(sim::g_in_rt && false)) return sim::ArenaAlloc(n, align);
  void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1))
                       : malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
static void SimDelete(void* p) {
  if (!p) return;
  if (sim::InArena(p)) {
    sim::ArenaFree(p);
  } else {
    free(p);
  }
}
void* operator new(size_t n) { return SimNew(n, 16); }
void* operator new[](size_t n) { return SimNew(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return SimNew(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return SimNew(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return SimNew(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return SimNew(n, size_t(a)); }
void operator delete(void* p) noexcept { SimDelete(p); }
void operator delete[](void* p) noexcept { SimDelete(p); }
void operator delete(void* p, size_t) noexcept { SimDelete(p); }
void operator delete[](void* p, size_t) noexcept { SimDelete(p); }
void operator delete(void* p, std::align_val_t) noexcept { SimDelete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { SimDelete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { SimDelete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { SimDelete(p); }

// ------------------------------------------------------------------ absl sync
namespace absl {
ABSL_NAMESPACE_BEGIN

// The library derives the time from the cycle counter.
int64_t GetCurrentTimeNanos() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return int64_t(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}
Time Now() { return FromUnixNanos(GetCurrentTimeNanos()); }

// Outside the simulation (driver process) everything is single threaded.
Mutex::~Mutex() {
  if (sim::g_active && sim::g_mx) {
    sim::InRt r;
    sim::g_mx->erase(this);
  }
}
void Mutex::Lock() {
  if (InSim()) sim::LockImpl(this, false, nullptr, -1, "Mutex::Lock");
}
void Mutex::Unlock() {
  if (InSim()) sim::UnlockImpl(this, false, "Mutex::Unlock");
}
bool Mutex::TryLock() {
  if (!InSim()) return true;
  sim::YieldInternal("TryLock");
  if (!sim::MxAvail(this, false, sim::t_self->id)) return false;
  sim::Mx& m = (*sim::g_mx)[this];
  m.owner = sim::t_self->id;
  m.count = 1;
  return true;
}
void Mutex::ReaderLock() {
  if (InSim()) sim::LockImpl(this, true, nullptr, -1, "Mutex::ReaderLock");
}
void Mutex::ReaderUnlock() {
  if (InSim()) sim::UnlockImpl(this, true, "Mutex::ReaderUnlock");
}
bool Mutex::ReaderTryLock() {
  if (!InSim()) return true;
  sim::YieldInternal("ReaderTryLock");
  if (!sim::MxAvail(this, true, sim::t_self->id)) return false;
  (*sim::g_mx)[this].readers++;
  return true;
}
void Mutex::AssertHeld() const {
  if (!InSim()) return;
  auto it = sim::g_mx->find(const_cast<Mutex*>(this));
  if (it == sim::g_mx->end() || it->second.owner != sim::t_self->id)
    sim::Violation(nullptr, "AssertHeld: mutex not held");
}
void Mutex::AssertReaderHeld() const {
  if (!InSim()) return;
  auto it = sim::g_mx->find(const_cast<Mutex*>(this));
  if (it == sim::g_mx->end() ||
      (it->second.owner != sim::t_self->id && it->second.readers == 0))
    sim::Violation(nullptr, "AssertReaderHeld: mutex not held");
}
void Mutex::AssertNotHeld() const {}
void Mutex::LockWhen(const Condition& c) {
  if (InSim()) sim::LockImpl(this, false, &c, -1, "Mutex::LockWhen");
}
void Mutex::ReaderLockWhen(const Condition& c) {
  if (InSim()) sim::LockImpl(this, true, &c, -1, "Mutex::ReaderLockWhen");
}
static bool EvalQuiet(const Condition& c) {
  sim::InRt r;
  return c.Eval();
}
bool Mutex::LockWhenWithDeadline(const Condition& c, absl::Time t) {
  if (InSim())
    sim::LockImpl(this, false, &c, sim::DeadlineFor(t), "Mutex::LockWhenWithDeadline");
  return EvalQuiet(c);
}
bool Mutex::LockWhenWithTimeout(const Condition& c, absl::Duration d) {
  if (InSim())
    sim::LockImpl(this, false, &c, sim::DeadlineFor(d), "Mutex::LockWhenWithTimeout");
  return EvalQuiet(c);
}
bool Mutex::ReaderLockWhenWithDeadline(const Condition& c, absl::Time t) {
  if (InSim())
    sim::LockImpl(this, true, &c, sim::DeadlineFor(t), "Mutex::ReaderLockWhen");
  return EvalQuiet(c);
}
bool Mutex::ReaderLockWhenWithTimeout(const Condition& c, absl::Duration d) {
  if (InSim())
    sim::LockImpl(this, true, &c, sim::DeadlineFor(d), "Mutex::ReaderLockWhen");
  return EvalQuiet(c);
}
static void SimAwait(Mutex* mu, const Condition& c, int64_t deadline) {
  sim::InRt r;
  bool shared = false;
  auto it = sim::g_mx->find(mu);
  if (it == sim::g_mx->end()) sim::Violation(nullptr, "Await: mutex not held");
  shared = it->second.owner != sim::t_self->id;
  if (c.Eval()) return;
  if (shared) {
    it->second.readers--;
  } else {
    it->second.owner = -1;
  }
  if (it->second.owner < 0 && it->second.readers == 0) sim::g_mx->erase(it);
  sim::LockImpl(mu, shared, &c, deadline, "Mutex::Await");
}
void Mutex::Await(const Condition& c) {
  if (InSim()) SimAwait(this, c, -1);
}
bool Mutex::AwaitWithTimeout(const Condition& c, absl::Duration d) {
  if (InSim()) SimAwait(this, c, sim::DeadlineFor(d));
  return EvalQuiet(c);
}
bool Mutex::AwaitWithDeadline(const Condition& c, absl::Time t) {
  if (InSim()) SimAwait(this, c, sim::DeadlineFor(t));
  return EvalQuiet(c);
}

CondVar::~CondVar() {}
void CondVar::Signal() {
  if (InSim()) sim::CvSignal(this, false);
}
void CondVar::SignalAll() {
  if (InSim()) sim::CvSignal(this, true);
}
static bool SimCvWait(CondVar* cv, Mutex* mu, int64_t deadline) {
  sim::InRt r;
  auto it = sim::g_mx->find(mu);
  if (it == sim::g_mx->end()) sim::Violation(nullptr, "CondVar::Wait: mutex not held");
  bool shared = it->second.owner != sim::t_self->id;
  if (shared) {
    it->second.readers--;
  } else {
    it->second.owner = -1;
  }
  if (it->second.owner < 0 && it->second.readers == 0) sim::g_mx->erase(it);
  bool to = sim::CvBlock(cv, deadline);
  sim::LockImpl(mu, shared, nullptr, -1, "CondVar relock");
  return to;
}
void CondVar::Wait(Mutex* mu) {
  if (InSim()) SimCvWait(this, mu, -1);
}
bool CondVar::WaitWithTimeout(Mutex* mu, absl::Duration d) {
  if (!InSim()) return true;
  return SimCvWait(this, mu, sim::DeadlineFor(d));
}
bool CondVar::WaitWithDeadline(Mutex* mu, absl::Time t) {
  if (!InSim()) return true;
  return SimCvWait(this, mu, sim::DeadlineFor(t));
}

void Notification::Notify() {
  MutexLock l(&mutex_);
  if (notified_yet_.load(std::memory_order_relaxed))
    sim_fatal("notification.h", 0, "Notify() called more than once");
  notified_yet_.store(true, std::memory_order_release);
}
Notification::~Notification() { MutexLock l(&mutex_); }
void Notification::WaitForNotification() const {
  if (!HasBeenNotifiedInternal(&notified_yet_)) {
    mutex_.LockWhen(Condition(&HasBeenNotifiedInternal, &notified_yet_));
    mutex_.Unlock();
  } else if (InSim()) {
    sim::YieldInternal("notification");
  }
}
bool Notification::WaitForNotificationWithTimeout(absl::Duration d) const {
  bool n = HasBeenNotifiedInternal(&notified_yet_);
  if (!n) {
    n = mutex_.LockWhenWithTimeout(
        Condition(&HasBeenNotifiedInternal, &notified_yet_), d);
    mutex_.Unlock();
  }
  return n;
}
bool Notification::WaitForNotificationWithDeadline(absl::Time t) const {
  bool n = HasBeenNotifiedInternal(&notified_yet_);
  if (!n) {
    n = mutex_.LockWhenWithDeadline(
        Condition(&HasBeenNotifiedInternal, &notified_yet_), t);
    mutex_.Unlock();
  }
  return n;
}

BlockingCounter::BlockingCounter(int n)
    : count_(n), num_waiting_(0), done_{n == 0} {}
bool BlockingCounter::DecrementCount() {
  MutexLock l(&lock_);
  int c = count_.fetch_sub(1) - 1;
  if (c < 0) sim_fatal("blocking_counter", 0, "DecrementCount called too often");
  if (c == 0) done_ = true;
  return c == 0;
}
static bool SimIsDone(bool* d) { return *d; }
void BlockingCounter::Wait() {
  MutexLock l(&lock_);
  num_waiting_++;
  lock_.Await(Condition(SimIsDone, &done_));
}
static bool SimIsZero(int* n) { return *n == 0; }
bool Barrier::Block() {
  MutexLock l(&lock_);
  num_to_block_--;
  if (num_to_block_ < 0) sim_fatal("barrier", 0, "too many threads");
  lock_.Await(Condition(SimIsZero, &num_to_block_));
  num_to_exit_--;
  return num_to_exit_ == 0;
}

ABSL_NAMESPACE_END
}  // namespace absl

// ------------------------------------------------------- instrumentation runtime
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { sim::OnAccess(p, 8, true); }
void __tsan_vptr_read(void** p) { sim::OnAccess(p, 8, false); }
#define RW(n)                                                        \
  void __tsan_read##n(void* p) { sim::OnAccess(p, n, false); }       \
  void __tsan_write##n(void* p) { sim::OnAccess(p, n, true); }       \
  void __tsan_unaligned_read##n(void* p) { sim::OnAccess(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { sim::OnAccess(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { sim::OnAccess(p, n, false); }  \
  void __tsan_volatile_write##n(void* p) { sim::OnAccess(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) {
  if (n) sim::OnAccess(p, n, false);
}
void __tsan_write_range(void* p, size_t n) {
  if (n) sim::OnAccess(p, n, true);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

#define ATOMIC(bits, T)                                                     \
  T __tsan_atomic##bits##_load(const volatile T* p, int) {                  \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                            \
  }                                                                         \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) {               \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                               \
  }                                                                         \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) {               \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                     \
  }                                                                         \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) {              \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                      \
  }                                                                         \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) {              \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                      \
  }                                                                         \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) {              \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                      \
  }                                                                         \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) {               \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                       \
  }                                                                         \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) {              \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                      \
  }                                                                         \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) {             \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                     \
  }                                                                         \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, \
                                                    int, int) {             \
    sim::OnAtomic((const void*)p, sizeof(T));                               \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST,    \
                                       __ATOMIC_SEQ_CST);                   \
  }                                                                         \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, \
                                                  int a, int b) {           \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b);    \
  }                                                                         \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v,     \
                                               int a, int b) {              \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, a, b);          \
    return e;                                                               \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
}  // extern "C"
