#ifndef SIM_RT_INTERNAL_H_
#define SIM_RT_INTERNAL_H_
#include <stdint.h>
#include <sys/types.h>

#include "sim.h"

namespace sim {

struct Decision {
  uint32_t stream;
  uint32_t value;
  uint64_t idx;
};

enum Outcome { kRunning = 0, kPass = 1, kViolation = 2, kHarnessError = 3 };

constexpr int kMaxCounters = 160;
constexpr uint32_t kMaxLog = 1u << 19;
constexpr uint32_t kMaxCover = 1u << 14;
constexpr uint32_t kMaxTrace = 1u << 21;
constexpr size_t kSharedHeap = 1u << 22;

struct Counter {
  char name[56];
  uint64_t n;
  int fault;
};

// Lives in a MAP_SHARED mapping: survives (simulated) process crashes.
struct Shared {
  // inputs
  uint64_t seed;
  int replay;
  uint32_t n_replay;
  Decision replay_d[kMaxLog];  // sorted by (stream, idx)
  int tracing;
  char property[16];
  char scratch[256];
  int worker;
  // decision state
  uint64_t idx[kNumStreams];
  uint32_t rpos[kNumStreams];
  uint32_t rend[kNumStreams];
  uint64_t rng_decide[2];
  uint64_t rng_data[2];
  uint64_t rng_config[2];
  uint64_t rng_sched[2];
  uint64_t hash;
  uint64_t sched_hash;
  uint64_t steps;
  uint64_t accesses;
  uint64_t next_preempt;
  int64_t now_ns;
  int64_t sim_span_ns;
  int64_t rt_offset_ns;
  uint64_t switches;
  Tuning tuning;
  // outputs
  int outcome;
  char prop[16];
  char msg[2048];
  int n_counters;
  Counter counters[kMaxCounters];
  uint32_t n_cover;
  uint64_t cover[kMaxCover];
  uint32_t n_log;
  Decision log[kMaxLog];
  int log_overflow;
  uint32_t n_trace;
  char trace[kMaxTrace];
  size_t heap_used;
  alignas(64) char heap[kSharedHeap];
};

extern Shared* sh;
extern bool g_active;
extern int g_in_rt;  // >0: runtime/harness code, no preemption

// Resets everything but inputs.
void ResetShared(Shared* s, uint64_t seed);
// Runs SimRun() in this (child) process; never returns.
[[noreturn]] void ChildMain();

void YieldInternal(const char* what);
// Symbol table of the executable, for naming the site of a memory error.
void sim_load_symbols();

}  // namespace sim
#endif
