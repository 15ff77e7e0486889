// Deterministic simulation runtime.
//
// One run = one forked child. Inside it, every thread of the code under test is
// a real thread that only runs while it holds the (single) baton; a seeded
// scheduler decides at every synchronisation operation - and, in code compiled
// with -fsanitize=thread, at seeded memory accesses - who gets it next. Clocks,
// sleeps, timed waits, randomness, file I/O and process exit are interposed.
// Every decision is recorded; a run can be replayed from its decisions alone.
#ifndef SIM_SIM_H_
#define SIM_SIM_H_

#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>

#include <functional>
#include <string>

namespace sim {

// Independent decision streams: dropping a decision of one stream in the
// minimiser does not shift the others.
enum Stream : uint8_t {
  kWork = 0,   // workload shape and operation arguments
  kSched = 1,  // which runnable thread continues
  kMem = 2,    // preemptions at memory accesses
  kTime = 3,   // clock advances, skew
  kNet = 4,    // message delivery order, loss, duplication, delay
  kFault = 5,  // crashes, disk errors, failing calls
  kData = 6,   // payload contents chosen per operation
  kNumStreams = 7,
};

// Uniform in [0, n). 0 is the "simplest" outcome, used when minimising.
uint32_t Choose(Stream s, uint32_t n);
// 0 with probability 1-p, otherwise uniform in [1, n).
uint32_t ChooseRare(Stream s, uint32_t n, double p);
// false with probability 1-p.
bool Flip(Stream s, double p);
// lo + Choose(hi - lo + 1)
int64_t Range(Stream s, int64_t lo, int64_t hi);

// Data randomness: a pure function of the seed, not a recorded decision.
uint64_t Rand64();
void RandBytes(void* p, size_t n);
// Per-run tuning randomness (swarm configuration): function of the seed only.
double ConfigUniform();
uint32_t ConfigChoose(uint32_t n);

// ---- time (nanoseconds) ---------------------------------------------------
int64_t NowNs();                    // virtual monotonic clock
int64_t RealtimeNs();               // virtual wall clock
void AdvanceNs(int64_t d);          // e.g. a slow call; runs due timers later
void JumpRealtimeNs(int64_t d);     // wall clock step
void SetRealtimeNs(int64_t t);

// ---- scheduling -------------------------------------------------------------
void Yield(const char* what = "yield");
void SleepNs(int64_t d);
// Blocks the calling thread until pred() holds. pred must not yield.
void BlockUntil(const std::function<bool()>& pred, const char* what);
// Same with an absolute virtual deadline; returns pred().
bool BlockUntilDeadline(const std::function<bool()>& pred, int64_t deadline_ns,
                        const char* what);
int CurrentThread();
int LiveThreads();
uint64_t Steps();

struct Tuning {
  double p_switch = 0.2;      // probability of switching at a sync point
  double mem_gap = 0;         // mean accesses between preemptions, 0 = off
  double p_time = 0.0;        // probability of letting a due timer overtake
  double p_spurious = 0.0;    // spurious condition variable wake-ups
  int pct_depth = 0;          // >0: priority based (PCT) scheduling
  int64_t step_ns = 0;         // virtual time consumed by every scheduling step
  uint32_t rand_range = 0;     // >0: rand() yields values below this
  uint64_t max_steps = 200000;
  uint64_t max_accesses = 400000000ull;
};
Tuning& tuning();
// Seed-derived default tuning (swarm).
void SwarmTuning(bool memory_preemption);

// ---- results ----------------------------------------------------------------
// Reports a violation of the property being checked (or of `prop`) and ends
// the run.
[[noreturn]] void Violation(const char* prop, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
// Ends the run as passed (from any thread).
[[noreturn]] void Finish();
// Ends the run as "machinery error": never reported as a violation.
[[noreturn]] void HarnessError(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
// Called when no thread can run any more. Default: violation.
void SetDeadlockHandler(std::function<void()> fn);
// Called when the code under test calls exit(). Default: violation.
void SetExitHandler(std::function<void(int)> fn);
// What to do when a FATAL log / failed check fires. Default: violation.
void SetFatalHandler(std::function<void(const std::string&)> fn);

void CountFault(const char* kind, uint64_t n = 1);
void Count(const char* probe, uint64_t n = 1);  // reach probes
void Cover(uint64_t state);                     // distinct states measure
void Event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool Tracing();
const char* Property();  // property id being checked
uint64_t Seed();

// Marks the sections in which the harness itself runs (no preemption).
struct NoPreempt {
  NoPreempt();
  ~NoPreempt();
};

// ---- processes ----------------------------------------------------------------
// Runs `fn` as a fresh process incarnation (forked; only files and the memory
// obtained from SharedAlloc survive). Returns true if it ended by itself, false
// if it crashed at an injected crash point.
bool RunIncarnation(const std::function<void()>& fn);
void* SharedAlloc(size_t n);
[[noreturn]] void CrashHere();  // injected process crash

uint64_t Hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t HashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  return Hash64(s.data(), s.size(), h);
}
inline uint64_t Mix(uint64_t h, uint64_t v) { return Hash64(&v, 8, h); }

// ---- disk faults (simfs.cc) -----------------------------------------------------
struct FsFaults {
  bool enabled = false;
  double p_error = 0;        // EIO / ENOSPC on data calls
  double p_short = 0;        // short writes/reads
  double p_crash = 0;        // process crash around a mutating call
  double p_torn = 0;         // crash in the middle of a write
  double p_meta_error = 0;   // failures of open/rename/unlink/mkdir
  bool disk_full = false;    // every growing write fails
};
FsFaults& fs();
// Only paths below this directory are subject to faults.
void FsSetRoot(const std::string& dir);
uint64_t FsOps();

// A private scratch directory for this run (created empty, removed afterwards).
const std::string& ScratchDir();

}  // namespace sim

// Provided by the harness: executes one simulated run.
void SimRun();
// Names of the components for the evidence ("real" / "stub").
extern const char* kRealComponents[];
extern const char* kStubComponents[];

#define SIM_CHECK(prop, cond, ...)                 \
  do {                                             \
    if (!(cond)) ::sim::Violation(prop, __VA_ARGS__); \
  } while (0)

#endif  // SIM_SIM_H_
