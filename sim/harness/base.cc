// fcp/base concurrency primitives: thread pool, workers, futures, clocks,
// unique identifiers, stopwatch, reentrancy guard.
#include <algorithm>
#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/synchronization/mutex.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "fcp/base/clock.h"
#include "fcp/base/future.h"
#include "fcp/base/process_unique_id.h"
#include "fcp/base/random_token.h"
#include "fcp/base/reentrancy_guard.h"
#include "fcp/base/scheduler.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "fcp/tracing/tracing_span_id.h"
#include "sim.h"

const char* kRealComponents[] = {
    "fcp/base/scheduler.cc", "fcp/base/future.h", "fcp/base/clock.cc",
    "fcp/base/simulated_clock.cc", "fcp/base/process_unique_id.cc",
    "fcp/base/random_token.cc", "fcp/base/wall_clock_stopwatch.cc",
    "fcp/base/reentrancy_guard.h", "fcp/tracing/tracing_span_id.cc", nullptr};
const char* kStubComponents[] = {
    "absl synchronisation (scheduler seam)", "pthread create/join (scheduler seam)",
    "system clocks", "entropy source", nullptr};

namespace {
using sim::Choose;
using sim::Flip;
using sim::kData;
using sim::kFault;
using sim::kSched;
using sim::kTime;
using sim::kWork;

std::string P() { return sim::Property(); }

// ---------------------------------------------------------------- thread pool
struct PoolOracle {
  struct Task {
    int id;
    int strand;  // -1: plain pool task
    int seq;     // order within strand
    int runs = 0;
    bool submitted = false;  // the Schedule call has returned
    bool finished = false;
  };
  std::vector<Task> tasks;
  std::map<int, int> strand_next;      // next seq expected to start
  std::map<int, bool> strand_running;  // currently inside a task
  std::map<int, int> strand_submitted;
  int running = 0;
  int max_threads = 0;
};

struct PoolRun {
  PoolOracle o;
  std::unique_ptr<fcp::Scheduler> pool;
  std::vector<std::unique_ptr<fcp::Worker>> workers;
  int budget = 0;
  const char* prop = "B01";

  void Body(int id, int depth) {
    int strand;
    {
      sim::NoPreempt np;
      auto& t = o.tasks[id];
      strand = t.strand;
      SIM_CHECK(prop, t.runs == 0, "task %d executed more than once", id);
      t.runs++;
      o.running++;
      SIM_CHECK(prop, o.running <= o.max_threads,
                "%d tasks run at once on a pool of %d threads", o.running, o.max_threads);
      if (strand >= 0) {
        SIM_CHECK(prop, !o.strand_running[strand],
                  "two tasks of one worker run concurrently");
        SIM_CHECK(prop, t.seq == o.strand_next[strand],
                  "worker tasks run out of submission order");
        o.strand_running[strand] = true;
      }
      sim::Cover(sim::Mix(sim::Mix(id, strand), sim::Mix(o.running, sim::CurrentThread())));
    }
    int what = Choose(kWork, 4);
    if (what == 1) sim::Yield("task body");
    if (what == 2) absl::SleepFor(absl::Milliseconds(1 + Choose(kWork, 5)));
    if (depth < 3 && what == 3) {
      int k = 1 + Choose(kWork, 2);
      for (int i = 0; i < k; ++i) Submit(depth + 1);
    }
    {
      sim::NoPreempt np;
      auto& t = o.tasks[id];
      t.finished = true;
      o.running--;
      if (strand >= 0) {
        o.strand_running[strand] = false;
        o.strand_next[strand] = t.seq + 1;
      }
    }
  }

  void Submit(int depth) {
    int id, strand;
    fcp::Worker* w = nullptr;
    {
      sim::NoPreempt np;
      if (budget-- <= 0) return;
      id = o.tasks.size();
      uint32_t pick = Choose(kWork, 1 + workers.size());
      strand = static_cast<int>(pick) - 1;
      PoolOracle::Task t;
      t.id = id;
      t.strand = strand;
      o.tasks.push_back(t);
    }
    auto fn = [this, id, depth] { Body(id, depth); };
    auto submitted = [this, id] {
      sim::NoPreempt np;
      o.tasks[id].submitted = true;
    };
    if (strand < 0) {
      pool->Schedule(fn);
      submitted();
    } else {
      // Sequence numbers are only meaningful if the submission itself is
      // ordered, so each worker has one submission lock held around Schedule.
      w = workers[strand].get();
      absl::MutexLock l(&submit_mu[strand]);
      {
        sim::NoPreempt np;
        o.tasks[id].seq = o.strand_submitted[strand]++;
      }
      w->Schedule(fn);
      submitted();
    }
  }

  // A group of tasks each of which waits for all others of the group: they
  // can only finish if every thread of the pool is put to work.
  void SubmitMeeting() {
    int k;
    auto arrived = std::make_shared<int>(0);
    {
      sim::NoPreempt np;
      if (meeting || o.max_threads < 2) return;
      meeting = true;
    }
    k = 2 + Choose(kWork, o.max_threads - 1);
    for (int i = 0; i < k; ++i) {
      int id;
      {
        sim::NoPreempt np;
        id = o.tasks.size();
        PoolOracle::Task t;
        t.id = id;
        t.strand = -1;
        o.tasks.push_back(t);
      }
      pool->Schedule([this, id, k, arrived] {
        {
          sim::NoPreempt np;
          SIM_CHECK(prop, o.tasks[id].runs == 0, "task %d executed more than once", id);
          o.tasks[id].runs++;
          o.running++;
          SIM_CHECK(prop, o.running <= o.max_threads,
                    "%d tasks run at once on a pool of %d threads", o.running, o.max_threads);
          ++*arrived;
        }
        sim::BlockUntil([arrived, k] { return *arrived == k; }, "meeting task");
        sim::NoPreempt np;
        o.running--;
        o.tasks[id].finished = true;
      });
      sim::NoPreempt np;
      o.tasks[id].submitted = true;
    }
    sim::Count("meetings");
  }
  bool meeting = false;
  absl::Mutex submit_mu[8];
};

void RunPool() {
  sim::SwarmTuning(true);
  PoolRun r;
  r.o.max_threads = 1 + Choose(kWork, 4);
  r.pool = fcp::CreateThreadPoolScheduler(r.o.max_threads);
  int nw = Choose(kWork, 4);
  for (int i = 0; i < nw; ++i) r.workers.push_back(r.pool->CreateWorker());
  int rounds = 1 + Choose(kWork, 3);
  for (int rd = 0; rd < rounds; ++rd) {
    r.budget = 4 + Choose(kWork, 24);
    r.meeting = false;
    int clients = 1 + Choose(kWork, 3);
    std::vector<std::thread> th;
    for (int c = 0; c < clients; ++c) {
      th.emplace_back([&r] {
        int n = 1 + Choose(kWork, 6);
        for (int i = 0; i < n; ++i) {
          if (Choose(kWork, 6) == 5) {
            r.SubmitMeeting();
          } else {
            r.Submit(0);
          }
          if (Choose(kWork, 4) == 1) sim::SleepNs(1000000 * Choose(kTime, 8));
        }
      });
    }
    if (Flip(kWork, 0.3)) {
      // An early waiter: idle means no task is pending or running at some
      // moment between the call and the return.
      std::vector<int> before;
      {
        sim::NoPreempt np;
        for (auto& t : r.o.tasks)
          if (t.submitted) before.push_back(t.id);
      }
      r.pool->WaitUntilIdle();
      sim::NoPreempt np;
      for (int id : before)
        SIM_CHECK("B01", r.o.tasks[id].finished,
                  "WaitUntilIdle returned before a submitted task had finished");
      sim::Count("early idle waits");
    }
    for (auto& t : th) t.join();
    r.pool->WaitUntilIdle();
    sim::NoPreempt np;
    for (auto& t : r.o.tasks) {
      SIM_CHECK("B01", t.runs == 1 && t.finished,
                "WaitUntilIdle returned before a submitted task had finished");
    }
    sim::Count("tasks", r.o.tasks.size());
  }
  r.workers.clear();
  r.pool.reset();
}

// ------------------------------------------------------------------- futures
struct Tracked {
  static int live;
  int v;
  explicit Tracked(int x) : v(x) {
    sim::NoPreempt np;
    ++live;
  }
  Tracked(Tracked&& o) noexcept : v(o.v) {
    o.v = -1;
    sim::NoPreempt np;
    ++live;
  }
  Tracked& operator=(Tracked&& o) noexcept {
    v = o.v;
    o.v = -1;
    return *this;
  }
  ~Tracked() {
    sim::NoPreempt np;
    --live;
  }
};
int Tracked::live = 0;

void RunFuture() {
  sim::SwarmTuning(true);
  int n = 1 + Choose(kWork, 4);
  auto pool = fcp::CreateThreadPoolScheduler(1 + Choose(kWork, 3));
  std::vector<std::thread> th;
  // Explicit pairs.
  for (int i = 0; i < n; ++i) {
    auto pair = std::make_shared<fcp::thread::FuturePair<std::unique_ptr<Tracked>>>(
        fcp::thread::MakeFuture<std::unique_ptr<Tracked>>());
    int mode = Choose(kWork, 4);  // 0 set, 1 abandon, 2 set late, 3 future dropped
    int64_t delay = 1000000ll * Choose(kTime, 20);
    auto prom = std::make_shared<fcp::thread::Promise<std::unique_ptr<Tracked>>>(
        std::move(pair->promise));
    auto state = std::make_shared<int>(0);  // 1 = about to be set/abandoned
    th.emplace_back([prom, mode, delay, i, state]() mutable {
      if (mode == 2 || delay > 0) sim::SleepNs(delay);
      *state = 1;
      if (mode == 1) {
        prom.reset();
      } else {
        std::move(*prom).Set(std::make_unique<Tracked>(100 + i));
        prom.reset();
      }
    });
    prom.reset();
    th.emplace_back([pair, mode, i, state]() mutable {
      fcp::thread::Future<std::unique_ptr<Tracked>> f = std::move(pair->future);
      if (mode == 3 && Choose(kWork, 2) == 1) return;  // drop the future
      int64_t waits = Choose(kWork, 3);
      bool ready = false;
      for (int k = 0; k < waits; ++k) {
        int64_t t0 = sim::NowNs();
        int64_t to = 1000000ll * Choose(kTime, 12);
        bool r = f.Wait(absl::Nanoseconds(to));
        SIM_CHECK("B05", !ready || r, "a ready future became unready");
        if (r) {
          SIM_CHECK("B05", *state == 1, "future ready before a value was provided");
          ready = true;
        } else {
          SIM_CHECK("B05", sim::NowNs() - t0 >= to, "future wait timed out early");
        }
      }
      std::optional<std::unique_ptr<Tracked>> v = std::move(f).Take();
      SIM_CHECK("B05", *state == 1, "future delivered before a value was provided");
      if (mode == 1) {
        SIM_CHECK("B05", !v.has_value(), "abandoned promise delivered a value");
        sim::Count("abandoned");
      } else {
        SIM_CHECK("B05", v.has_value() && *v && (*v)->v == 100 + i,
                  "future delivered a wrong value");
        sim::Count("delivered");
      }
    });
  }
  // Futures of scheduled computations.
  int m = Choose(kWork, 4);
  std::vector<fcp::thread::Future<int>> fs;
  auto runs = std::make_shared<std::vector<int>>(m, 0);
  for (int i = 0; i < m; ++i) {
    fs.push_back(fcp::thread::ScheduleFuture<int>(
        pool.get(), std::function<int()>([i, runs] {
          if (Choose(kWork, 2)) sim::SleepNs(1000000 * Choose(kTime, 10));
          (*runs)[i]++;
          return i * 7;
        })));
  }
  for (int i = 0; i < m; ++i) {
    std::optional<int> v = std::move(fs[i]).Take();
    SIM_CHECK("B05", v.has_value() && *v == i * 7 && (*runs)[i] == 1,
              "scheduled future delivered a wrong value");
  }
  for (auto& t : th) t.join();
  pool->WaitUntilIdle();
  pool.reset();
  SIM_CHECK("B05", Tracked::live == 0, "future values leaked or destroyed twice: %d", Tracked::live);
  sim::Cover(sim::Mix(n, m));
}

// -------------------------------------------------------------------- clocks
struct Alarm : public fcp::Clock::Waiter {
  int id;
  absl::Time deadline;
  fcp::Clock* clock;
  std::vector<int>* log;
  int wakes = 0;
  bool simulated;
  int64_t latest_allowed_ns = -1;
  std::function<void()> extra;
  void WakeUp() override {
    {
      sim::NoPreempt np;
      ++wakes;
      SIM_CHECK("B02", wakes == 1, "a waiter was woken more than once");
      log->push_back(id);
    }
    absl::Time now = clock->Now();
    if (!allow_early)
      SIM_CHECK("B02", now >= deadline, "a waiter was woken before its deadline");
    if (extra) extra();
  }
  bool allow_early = false;
  int parent = -1;
};

void RunSimClock() {
  sim::SwarmTuning(true);
  absl::Time base = absl::FromUnixSeconds(1000);
  // The same scenario on scales from single nanoseconds to hours.
  static const int64_t kUnits[] = {1000000, 1, 1000, 3600000000000ll};
  const absl::Duration unit = absl::Nanoseconds(kUnits[sim::ConfigChoose(4)]);
  fcp::SimulatedClock clock(base);
  std::vector<int> log;
  std::vector<std::shared_ptr<Alarm>> alarms;
  int n_threads = 1 + Choose(kWork, 3);
  bool concurrent = n_threads > 1;
  // highest time ever set, for the final check
  absl::Mutex mu;
  // With a single user everything is predictable: each dispatch wakes what is
  // due in deadline order (ties in registration order), then what was
  // registered meanwhile.
  size_t seen = 0;
  std::set<int> woken;
  auto check_order = [&] {
    if (concurrent) return;
    absl::Time now = clock.Now();
    std::set<int> parents_done = woken;
    while (true) {
      std::vector<int> due;
      for (auto& a : alarms)
        if (!woken.count(a->id) && a->deadline <= now &&
            (a->parent < 0 || parents_done.count(a->parent)))
          due.push_back(a->id);
      if (due.empty()) break;
      std::stable_sort(due.begin(), due.end(),
                       [&](int x, int y) { return alarms[x]->deadline < alarms[y]->deadline; });
      for (int d : due) {
        SIM_CHECK("B02", seen < log.size(), "a due waiter was not woken");
        SIM_CHECK("B02", log[seen] == d, "waiters woken out of deadline order");
        ++seen;
        woken.insert(d);
      }
      parents_done = woken;
    }
    SIM_CHECK("B02", seen == log.size(), "a waiter was woken before its deadline or twice");
  };
  std::vector<std::thread> th;
  for (int t = 0; t < n_threads; ++t) {
    th.emplace_back([&, t] {
      int ops = 2 + Choose(kWork, 8);
      for (int k = 0; k < ops; ++k) {
        switch (Choose(kWork, 4)) {
          case 0:
          case 1: {
            auto a = std::make_shared<Alarm>();
            a->clock = &clock;
            a->log = &log;
            a->deadline = base + unit * Choose(kTime, 40);
            bool nested = Choose(kWork, 5) == 1;
            {
              sim::NoPreempt np;
              a->id = alarms.size();
              alarms.push_back(a);
            }
            if (nested) {
              a->extra = [&, a] {
                auto b = std::make_shared<Alarm>();
                b->clock = &clock;
                b->log = &log;
                b->parent = a->id;
                b->deadline = a->deadline + unit * Choose(kTime, 10);
                {
                  sim::NoPreempt np;
                  b->id = alarms.size();
                  alarms.push_back(b);
                }
                clock.WakeupWithDeadline(b->deadline, b);
                sim::Count("nested_alarm");
              };
            }
            clock.WakeupWithDeadline(a->deadline, a);
            check_order();
            break;
          }
          case 2: {
            absl::Time before = clock.Now();
            clock.AdvanceTime(unit * (1 + Choose(kTime, 8)));
            SIM_CHECK("B02", clock.Now() > before, "clock did not advance");
            check_order();
            break;
          }
          case 3:
            sim::Yield("clock user");
            break;
        }
      }
    });
  }
  for (auto& t : th) t.join();
  // Quiescent now: everything due must have fired, nothing else.
  absl::Time now = clock.Now();
  size_t nalarms = alarms.size();
  for (size_t i = 0; i < nalarms; ++i) {
    auto& a = alarms[i];
    if (a->deadline <= now) {
      SIM_CHECK("B02", a->wakes == 1, "a due waiter was not woken (quiescent)");
    } else {
      SIM_CHECK("B02", a->wakes == 0, "a waiter was woken before its deadline");
    }
  }
  // Single threaded tail: jump far ahead; the remaining ones fire in deadline
  // order, ties in registration order.
  std::vector<std::pair<absl::Time, int>> expect;
  size_t at = log.size();
  for (auto& a : alarms)
    if (!a->wakes && !a->extra) expect.push_back({a->deadline, a->id});
  bool plain = true;
  for (auto& a : alarms)
    if (!a->wakes && a->extra) plain = false;
  if (Choose(kTime, 2)) {
    clock.SetTime(now + unit * 10000);
  } else {
    clock.AdvanceTime(unit * 10000);
  }
  if (plain && !concurrent) {
    std::stable_sort(expect.begin(), expect.end(),
                     [](auto& x, auto& y) { return x.first < y.first; });
    SIM_CHECK("B02", log.size() == at + expect.size(), "wrong number of waiters woken");
    for (size_t i = 0; i < expect.size(); ++i)
      SIM_CHECK("B02", log[at + i] == expect[i].second,
                "waiters woken out of deadline order");
    sim::Count("order_checked");
  }
  for (auto& a : alarms)
    SIM_CHECK("B02", a->wakes == 1, "a due waiter was never woken");
  sim::Cover(sim::Mix(alarms.size(), log.empty() ? 0 : sim::Hash64(log.data(), log.size() * 4)));
  // A sleeper only returns once the simulated time has passed.
  if (Flip(kWork, 0.3)) {
    bool awake = false;
    std::thread s([&] {
      absl::Time start = clock.Now();
      clock.Sleep(unit * 5);
      SIM_CHECK("B02", clock.Now() >= start + unit * 5,
                "Sleep returned before the duration had elapsed");
      awake = true;
    });
    for (int i = 0; i < 5000 && !awake; ++i) {
      sim::Yield("advance");
      clock.AdvanceTime(unit);
    }
    SIM_CHECK("B02", awake, "Sleep did not return after its duration had elapsed");
    s.join();
    SIM_CHECK("B02", awake, "Sleep never returned");
  }
}

void RunRealClock() {
  sim::SwarmTuning(true);
  sim::tuning().step_ns = 20;
  fcp::Clock* clock = fcp::Clock::RealClock();
  std::vector<int> log;
  std::vector<std::shared_ptr<Alarm>> alarms;
  bool jumps = sim::ConfigChoose(4) == 0;
  int n_threads = 1 + Choose(kWork, 3);
  std::vector<std::thread> th;
  absl::Time latest = absl::Now();
  for (int t = 0; t < n_threads; ++t) {
    th.emplace_back([&] {
      int ops = 1 + Choose(kWork, 6);
      for (int k = 0; k < ops; ++k) {
        if (Choose(kWork, 3) == 2) {
          sim::SleepNs(500000ll * (1 + Choose(kTime, 20)));
          continue;
        }
        auto a = std::make_shared<Alarm>();
        a->clock = clock;
        a->log = &log;
        a->deadline = absl::Now() + absl::Microseconds(100 * int64_t(Choose(kTime, 300))) -
                      absl::Milliseconds(2);
        a->allow_early = jumps;
        {
          sim::NoPreempt np;
          a->id = alarms.size();
          alarms.push_back(a);
          if (a->deadline > latest) latest = a->deadline;
        }
        if (Choose(kWork, 5) == 1) {
          a->extra = [&, a] {
            auto b = std::make_shared<Alarm>();
            b->clock = clock;
            b->log = &log;
            b->allow_early = jumps;
            b->deadline = absl::Now() + absl::Milliseconds(Choose(kTime, 10));
            {
              sim::NoPreempt np;
              b->id = alarms.size();
              alarms.push_back(b);
              if (b->deadline > latest) latest = b->deadline;
            }
            clock->WakeupWithDeadline(b->deadline, b);
          };
        }
        clock->WakeupWithDeadline(a->deadline, a);
        if (jumps && Choose(kTime, 4) == 1) {
          sim::JumpRealtimeNs(1000000ll * Choose(kTime, 30));
          sim::CountFault("wall_clock_jump");
        }
      }
    });
  }
  for (auto& t : th) t.join();
  // Bounded liveness: once nobody interferes and every thread gets to run,
  // everything fires within 3 ms of its deadline (the implementation rounds up
  // to whole milliseconds; wall clock jumps add their size).
  sim::tuning().p_time = 0;
  auto all = [&] {
    sim::NoPreempt np;
    for (auto& a : alarms)
      if (!a->wakes) return false;
    return true;
  };
  for (int i = 0; i < 200 && !all(); ++i) {
    int64_t last = std::max<int64_t>(absl::ToUnixNanos(latest), absl::ToUnixNanos(absl::Now())) -
                   (sim::RealtimeNs() - sim::NowNs());
    int64_t until = last + 3000000 + (jumps ? 2000000000ll : 0);
    size_t n = alarms.size();
    if (!sim::BlockUntilDeadline(all, until, "alarms") && alarms.size() == n) break;
  }
  {
    sim::NoPreempt np;
    for (auto& a : alarms)
      SIM_CHECK("B02", a->wakes == 1, "a waiter of the real-time clock was never woken");
  }
  sim::NoPreempt np;
  sim::Cover(sim::Mix(alarms.size(), log.empty() ? 0 : sim::Hash64(log.data(), log.size() * 4)));
  sim::Count("real_clock_alarms", alarms.size());
  absl::Time s0 = clock->Now();
  int64_t m0 = sim::NowNs();
  clock->Sleep(absl::Milliseconds(3));
  SIM_CHECK("B02", sim::NowNs() - m0 >= 3000000, "Sleep returned early");
  (void)s0;
  sim::Finish();
}

// ------------------------------------------------------------------------ ids
void RunIds() {
  sim::SwarmTuning(true);
  int n_threads = 2 + Choose(kWork, 3);
  int kind = Choose(kWork, 3);
  std::vector<std::vector<uint64_t>> got(n_threads);
  std::vector<std::vector<fcp::RandomToken>> tok(n_threads);
  std::vector<std::thread> th;
  for (int t = 0; t < n_threads; ++t) {
    th.emplace_back([&, t] {
      int k = 1 + Choose(kWork, 12);
      for (int i = 0; i < k; ++i) {
        uint64_t v = 0;
        if (kind == 0) v = fcp::ProcessUniqueId::Next().value();
        if (kind == 1) v = fcp::TracingSpanId::NextUniqueId().value;
        if (kind == 2) {
          fcp::RandomToken r = fcp::RandomToken::Generate();
          auto bytes = r.ToBytes();
          fcp::RandomToken back = fcp::RandomToken::FromBytes(
              absl::Span<char const>(bytes.data(), bytes.size()));
          SIM_CHECK("B03", back == r, "a token does not survive its byte form");
          SIM_CHECK("B03", r.ToString() == std::string(bytes.data(), bytes.size()),
                    "token string form differs from its bytes");
          tok[t].push_back(r);
          continue;
        }
        if (!got[t].empty())
          SIM_CHECK("B03", v > got[t].back(), "identifiers of one thread do not increase");
        got[t].push_back(v);
      }
    });
  }
  for (auto& t : th) t.join();
  std::set<uint64_t> all;
  size_t n = 0;
  for (auto& v : got)
    for (uint64_t x : v) {
      ++n;
      SIM_CHECK("B03", all.insert(x).second, "two callers obtained the same identifier");
      SIM_CHECK("B03", kind != 1 || x != 0, "a new span got the reserved empty identifier");
    }
  std::set<std::string> tokens;
  for (auto& v : tok)
    for (auto& x : v) {
      ++n;
      SIM_CHECK("B03", tokens.insert(x.ToPrintableString()).second,
                "two callers obtained the same random token");
      SIM_CHECK("B03", x.ToPrintableString().size() == 32, "token text form has a wrong length");
    }
  sim::Count("ids", n);
  sim::Cover(sim::Mix(n, kind));
}

// ------------------------------------------------------------------- stopwatch
void RunStopwatch() {
  sim::SwarmTuning(true);
  if (sim::ConfigChoose(8) == 0) {
    auto noop = fcp::WallClockStopwatch::CreateNoop();
    {
      auto h = noop->Start();
      sim::SleepNs(1000000);
    }
    SIM_CHECK("B04", noop->GetTotalDuration() == absl::ZeroDuration(), "noop stopwatch measured time");
  }
  auto w = fcp::WallClockStopwatch::Create();
  // Reference: union of the intervals during which at least one handle is
  // definitely / possibly alive. Virtual time only passes in sleeps, so a
  // lower and an upper bound are maintained.
  int definitely = 0, possibly = 0;
  int64_t lo = 0, hi = 0, last = sim::NowNs();
  auto tick = [&] {
    int64_t now = sim::NowNs();
    if (definitely > 0) lo += now - last;
    if (possibly > 0) hi += now - last;
    last = now;
  };
  int n_threads = 1 + Choose(kWork, 4);
  std::vector<std::thread> th;
  for (int t = 0; t < n_threads; ++t) {
    th.emplace_back([&] {
      int k = 1 + Choose(kWork, 3);
      for (int i = 0; i < k; ++i) {
        sim::SleepNs(1000000ll * Choose(kTime, 6));
        {
          sim::NoPreempt np;
          tick();
          possibly++;
        }
        {
          auto h = w->Start();
          {
            sim::NoPreempt np;
            tick();
            definitely++;
          }
          if (Choose(kWork, 4)) sim::SleepNs(1000000ll * Choose(kTime, 6));
          if (Choose(kWork, 3) == 1) {
            int64_t l, l2;
            {
              sim::NoPreempt np;
              tick();
              l = lo;
            }
            absl::Duration d = w->GetTotalDuration();
            {
              sim::NoPreempt np;
              tick();
              l2 = hi;
            }
            SIM_CHECK("B04", absl::ToInt64Nanoseconds(d) >= l, "stopwatch shows less than the time it ran");
            SIM_CHECK("B04", absl::ToInt64Nanoseconds(d) <= l2, "stopwatch shows more than the time it ran");
            sim::Count("mid_reads");
          }
          {
            sim::NoPreempt np;
            tick();
            definitely--;
          }
        }
        {
          sim::NoPreempt np;
          tick();
          possibly--;
        }
      }
    });
  }
  for (auto& t : th) t.join();
  tick();
  int64_t d = absl::ToInt64Nanoseconds(w->GetTotalDuration());
  SIM_CHECK("B04", d >= lo, "stopwatch total is less than the time it ran");
  SIM_CHECK("B04", d <= hi, "stopwatch total is more than the time it ran");
  sim::SleepNs(10000000);
  SIM_CHECK("B04", absl::ToInt64Nanoseconds(w->GetTotalDuration()) == d,
            "a stopped stopwatch keeps accumulating");
  sim::Cover(d);
}

// ----------------------------------------------------------- reentrancy guard
void RunGuard() {
  sim::SwarmTuning(true);
  std::atomic<bool> in_use{false};
  int inside = 0;
  int n_threads = 2 + Choose(kWork, 3);
  std::vector<std::thread> th;
  for (int t = 0; t < n_threads; ++t) {
    th.emplace_back([&] {
      int k = 1 + Choose(kWork, 4);
      for (int i = 0; i < k; ++i) {
        fcp::ReentrancyGuard g;
        fcp::Status s = g.Check(&in_use);
        if (s.ok()) {
          {
            sim::NoPreempt np;
            SIM_CHECK("B06", ++inside == 1, "two callers inside a guarded section");
          }
          sim::Yield("guarded");
          if (Choose(kWork, 3) == 1) {
            fcp::ReentrancyGuard inner;
            SIM_CHECK("B06", !inner.Check(&in_use).ok(), "reentrant call was admitted");
          }
          SIM_CHECK("B06", in_use.load(), "a rejected caller released the guard");
          sim::NoPreempt np;
          --inside;
          sim::Count("guard_admitted");
        } else {
          SIM_CHECK("B06", s.code() == fcp::FAILED_PRECONDITION, "wrong error for a concurrent call");
          sim::Count("guard_rejected");
        }
      }
    });
  }
  for (auto& t : th) t.join();
  fcp::ReentrancyGuard g;
  SIM_CHECK("B06", g.Check(&in_use).ok(), "an idle guard rejects a caller");
  sim::Cover(sim::Steps());
}

}  // namespace

void SimRun() {
  std::string p = P();
  if (p == "B01") return RunPool();
  if (p == "B02") return sim::ConfigChoose(2) ? RunSimClock() : RunRealClock();
  if (p == "B03") return RunIds();
  if (p == "B04") return RunStopwatch();
  if (p == "B05") return RunFuture();
  if (p == "B06") return RunGuard();
  sim::HarnessError("unknown property %s", p.c_str());
}
