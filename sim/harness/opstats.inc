// Part of storage.cc: operational statistics.
namespace {

constexpr int64_t kSec = 1000000000ll;
constexpr int kMaxEntries = 48;
constexpr int kMaxCand = 1024;

// Wall clock to the next instant = 5 s modulo 10 s, so that no comparison in
// the code under test depends on how long the surrounding steps took.
void Align() {
  int64_t now = sim::RealtimeNs();
  int64_t next = (now / (10 * kSec)) * 10 * kSec + 5 * kSec;
  if (next <= now) next += 10 * kSec;
  sim::AdvanceNs(next - now);
}

struct Entry {
  int64_t last;  // newest event, s
  int pad;
  bool phase;
};
struct Seq {
  int n;
  int e[kMaxEntries];
};
struct DbModel {
  int nentries;
  Entry entry[kMaxEntries];
  int ncand;
  Seq cand[kMaxCand];
  bool unopened;  // the file may not exist yet
};
DbModel* dm;

OperationalStats MakeEntry(int k) {
  const Entry& e = dm->entry[k];
  OperationalStats s;
  s.set_session_name(absl::StrCat("s", k));
  s.set_population_name(std::string(e.pad, 'p'));
  OperationalStats::Event* a;
  OperationalStats::Event* b;
  if (e.phase) {
    auto* ps = s.add_phase_stats();
    ps->set_phase(OperationalStats::PhaseStats::CHECKIN);
    a = ps->add_events();
    ps = s.add_phase_stats();
    ps->set_phase(OperationalStats::PhaseStats::COMPUTATION);
    b = ps->add_events();
    s.add_phase_stats()->set_phase(OperationalStats::PhaseStats::UPLOAD);
  } else {
    a = s.add_events();
    b = s.add_events();
  }
  a->set_event_type(OperationalStats::Event::EVENT_KIND_CHECKIN_STARTED);
  a->mutable_timestamp()->set_seconds(e.last - 2);
  b->set_event_type(OperationalStats::Event::EVENT_KIND_COMPUTATION_STARTED);
  b->mutable_timestamp()->set_seconds(e.last);
  return s;
}

void AddCand(const Seq& s) {
  for (int i = 0; i < dm->ncand; ++i)
    if (dm->cand[i].n == s.n && !memcmp(dm->cand[i].e, s.e, s.n * sizeof(int))) return;
  if (dm->ncand >= kMaxCand) sim::HarnessError("too many candidate states");
  dm->cand[dm->ncand++] = s;
}

Seq Parse(const char* prop, const OpStatsSequence& d) {
  Seq s{};
  SIM_CHECK(prop, d.opstats_size() <= kMaxEntries, "%d entries stored", d.opstats_size());
  std::set<int> seen;
  for (const auto& o : d.opstats()) {
    int k = absl::StartsWith(o.session_name(), "s") ? atoi(o.session_name().c_str() + 1) : -1;
    SIM_CHECK(prop, k >= 0 && k < dm->nentries && MessageDifferencer::Equals(o, MakeEntry(k)),
              "a stored entry differs from every entry written");
    SIM_CHECK(prop, seen.insert(k).second, "entry %d is stored twice", k);
    s.e[s.n++] = k;
  }
  return s;
}

// Whether `got` is `before` with outdated entries removed, `add` (if >= 0)
// appended, and the oldest ones pruned to respect the size limit.
bool Explains(const Seq& before, int add, const Seq& got, const OpStatsSequence& data, int64_t now,
              int64_t ttl, int64_t max_size) {
  std::vector<int> want;
  int64_t newest_dropped = -1;
  for (int i = 0; i < before.n; ++i) {
    int64_t last = dm->entry[before.e[i]].last;
    if (last * kSec >= now - ttl) {
      want.push_back(before.e[i]);
    } else {
      newest_dropped = std::max(newest_dropped, last);
    }
  }
  if (add >= 0) want.push_back(add);
  if (got.n > (int)want.size()) return false;
  int pruned = want.size() - got.n;
  for (int i = 0; i < got.n; ++i)
    if (want[pruned + i] != got.e[i]) return false;
  int64_t size = data.ByteSizeLong();
  if (size > max_size) return false;
  if (pruned > 0) {
    // Even without the newest pruned entry the limit would be exceeded.
    int64_t with = size + MakeEntry(want[pruned - 1]).ByteSizeLong() + 4 * pruned + 40;
    if (with <= max_size) return false;
    newest_dropped = std::max(newest_dropped, dm->entry[want[pruned - 1]].last);
    sim::Count("db_pruned", pruned);
  }
  int64_t ett = TimeUtil::TimestampToNanoseconds(data.earliest_trustworthy_time());
  if (!data.has_earliest_trustworthy_time() || ett > now + kSec) return false;
  if (newest_dropped >= 0 && ett < newest_dropped * kSec) return false;
  return true;
}

std::string SeqStr(const Seq& s) {
  std::string r = "[";
  for (int i = 0; i < s.n; ++i) absl::StrAppend(&r, i ? " " : "", s.e[i]);
  return r + "]";
}

void RunDbHistory() {
  const char* prop = "D04";
  sim::SwarmTuning(false);
  sim::tuning().p_time = 0;
  sim::tuning().step_ns = 0;
  dm = static_cast<DbModel*>(sim::SharedAlloc(sizeof(DbModel)));
  dm->ncand = 1;
  const int64_t ttl_s = 10 * (1 + sim::ConfigChoose(40));
  const int64_t max_size = sim::ConfigChoose(2) ? 300 + 100 * sim::ConfigChoose(8) : 1000000;
  int incarnations = 1 + Choose(kWork, 3);
  for (int inc = 0; inc <= incarnations; ++inc) {
    bool last = inc == incarnations;
    bool faulty = !last && sim::ConfigChoose(3) != 0;
    struct Pending {
      int add;
      int64_t now;
    };
    auto* pending = static_cast<Pending*>(sim::SharedAlloc(sizeof(Pending)));
    pending->add = -2;  // -2 nothing, -1 an operation that adds nothing, else entry
    bool ended = sim::RunIncarnation([&] {
      if (faulty) {
        DiskFaults(true);
      } else {
        NoFaults();
      }
      Log log;
      pending->add = -1;
      auto db = PdsBackedOpStatsDb::Create("/simfs/files", absl::Seconds(ttl_s), log, max_size);
      if (!db.ok()) {
        SIM_CHECK(prop, faulty, "database does not open on a working disk: %s",
                  db.status().ToString().c_str());
        // A failed attempt must not block later ones.
        pending->add = -2;
        sim::Count("db_open_failed");
        NoFaults();
        db = PdsBackedOpStatsDb::Create("/simfs/files", absl::Seconds(ttl_s), log, max_size);
        SIM_CHECK(prop, db.ok(), "database does not open after a failed attempt: %s",
                  db.status().ToString().c_str());
        if (faulty) DiskFaults(true);
      }
      pending->add = -2;
      int ops = last ? 1 : 1 + Choose(kWork, 10);
      for (int i = 0; i < ops; ++i) {
        if (!last && dm->nentries < kMaxEntries - 2 && Choose(kWork, 3) != 1) {
          Align();
          if (Choose(kTime, 3) == 2)
            sim::AdvanceNs(10 * kSec * Choose(kTime, 2 * ttl_s / 10 + 1));
          int64_t now = sim::RealtimeNs();
          int k = dm->nentries++;
          int64_t t = now / (10 * kSec) * 10;
          dm->entry[k] = Entry{t, (int)Choose(kData, 60), Choose(kWork, 2) == 1};
          if (max_size < 1000 && Choose(kWork, 12) == 5) dm->entry[k].pad = 1500;
          OperationalStats e = MakeEntry(k);
          pending->now = now;
          pending->add = k;
          absl::Status s = (*db)->Transform([&](OpStatsSequence& d) { *d.add_opstats() = e; });
          pending->add = -2;
          sim::Event("transform %d -> %s", k, s.ToString().c_str());
          if (!s.ok()) {
            SIM_CHECK(prop, faulty, "commit fails on a working disk: %s", s.ToString().c_str());
            AddCand(Seq{});  // reset after a failed read
            sim::Count("db_commit_failed");
            continue;
          }
          auto r = (*db)->Read();
          SIM_CHECK(prop, r.ok() || faulty, "read fails: %s", r.status().ToString().c_str());
          if (!r.ok()) {
            AddCand(Seq{});
            continue;
          }
          Seq got = Parse(prop, *r);
          bool ok = false;
          if (faulty) AddCand(Seq{});
          for (int c = 0; c < dm->ncand && !ok; ++c)
            ok = Explains(dm->cand[c], k, got, *r, now, ttl_s * kSec, max_size);
          SIM_CHECK(prop, ok, "after adding entry %d the database holds %s instead of %s + it (ttl "
                    "%ld s, %zu of %ld bytes, ett %ld)", k, SeqStr(got).c_str(),
                    SeqStr(dm->cand[0]).c_str(), (long)ttl_s, r->ByteSizeLong(), (long)max_size,
                    (long)r->earliest_trustworthy_time().seconds());
          dm->ncand = 0;
          AddCand(got);
          sim::Count("db_commit");
        } else {
          pending->add = -1;
          auto r = (*db)->Read();
          pending->add = -2;
          if (!r.ok()) {
            SIM_CHECK(prop, faulty, "read fails on a working disk: %s", r.status().ToString().c_str());
            AddCand(Seq{});
            continue;
          }
          Seq got = Parse(prop, *r);
          bool ok = false;
          for (int c = 0; c < dm->ncand && !ok; ++c)
            ok = dm->cand[c].n == got.n && !memcmp(dm->cand[c].e, got.e, got.n * sizeof(int));
          SIM_CHECK(prop, ok, "the database holds %s, committed was %s", SeqStr(got).c_str(),
                    SeqStr(dm->cand[0]).c_str());
          dm->ncand = 0;
          AddCand(got);
          sim::Count("db_read");
        }
      }
    });
    if (!ended) {
      // Crashed: the interrupted operation took effect completely or not at all.
      sim::Count("db_crash");
      if (pending->add >= 0) {
        int k = pending->add;
        if (faulty) AddCand(Seq{});  // reset after a failed read, then completed
        int n = dm->ncand;
        std::vector<Seq> before(dm->cand, dm->cand + n);
        for (int c = 0; c < n; ++c) {
          // Recompute what a completed commit may have left.
          Seq s{};
          for (int i = 0; i < before[c].n; ++i)
            if (dm->entry[before[c].e[i]].last * kSec >= pending->now - ttl_s * kSec)
              s.e[s.n++] = before[c].e[i];
          s.e[s.n++] = k;
          OpStatsSequence d;
          d.mutable_earliest_trustworthy_time()->set_seconds(pending->now / kSec);
          for (int i = 0; i < s.n; ++i) *d.add_opstats() = MakeEntry(s.e[i]);
          if ((int64_t)d.ByteSizeLong() + 60 > max_size) {
            // Pruning decides: accept any suffix.
            for (int drop = 1; drop <= s.n; ++drop) {
              Seq q{};
              for (int i = drop; i < s.n; ++i) q.e[q.n++] = s.e[i];
              AddCand(q);
            }
          }
          AddCand(s);
        }
      }
      AddCand(Seq{});
    }
  }
  sim::Cover(sim::Mix(sim::FsOps(), dm->nentries));
}

// Many threads, one database; and rivals that try to open it as well.
void RunDbThreads() {
  const char* prop = "D04";
  sim::SwarmTuning(true);
  NoFaults();
  Log log;
  struct State {
    int open[2] = {0, 0};
    int next = 0;
    std::set<int> done[2];
  } st;
  dm = static_cast<DbModel*>(sim::SharedAlloc(sizeof(DbModel)));
  auto body = [&](int ops) {
    for (int i = 0; i < ops; ++i) {
      int which = Choose(kWork, 3) == 2;
      auto db = PdsBackedOpStatsDb::Create(which ? "/simfs/b" : "/simfs/a", absl::Hours(1000), log,
                                           1000000);
      if (!db.ok()) {
        sim::Count("db_busy");
        continue;
      }
      int k;
      {
        sim::NoPreempt np;
        SIM_CHECK(prop, st.open[which] == 0, "two instances have the same database open");
        st.open[which]++;
        k = dm->nentries++;
        dm->entry[k] = Entry{sim::RealtimeNs() / kSec, 10, Choose(kWork, 2) == 1};
      }
      std::vector<std::thread> th;
      bool two = Choose(kWork, 2) == 1;
      auto commit = [&](int e) {
        OperationalStats x = MakeEntry(e);
        absl::Status s = (*db)->Transform([&](OpStatsSequence& d) { *d.add_opstats() = x; });
        SIM_CHECK(prop, s.ok(), "commit fails on a working disk: %s", s.ToString().c_str());
        sim::NoPreempt np;
        st.done[which].insert(e);
      };
      if (two) {
        int k2;
        {
          sim::NoPreempt np;
          k2 = dm->nentries++;
          dm->entry[k2] = Entry{sim::RealtimeNs() / kSec, 20, false};
        }
        std::thread t([&] { commit(k2); });
        commit(k);
        t.join();
      } else {
        commit(k);
      }
      auto r = (*db)->Read();
      SIM_CHECK(prop, r.ok(), "read fails: %s", r.status().ToString().c_str());
      {
        sim::NoPreempt np;
        Seq got = Parse(prop, *r);
        std::set<int> have(got.e, got.e + got.n);
        SIM_CHECK(prop, have == st.done[which],
                  "%zu entries committed by concurrent callers, %zu stored", st.done[which].size(),
                  have.size());
        st.open[which]--;
      }
      db->reset();
      sim::Count("db_session");
    }
  };
  std::vector<std::thread> th;
  int n = 2 + Choose(kWork, 2);
  for (int t = 0; t < n; ++t) th.emplace_back([&] { body(1 + Choose(kWork, 3)); });
  for (auto& t : th) t.join();
  for (int w = 0; w < 2; ++w) {
    auto db = PdsBackedOpStatsDb::Create(w ? "/simfs/b" : "/simfs/a", absl::Hours(1000), log, 1000000);
    SIM_CHECK(prop, db.ok(), "database cannot be opened although nobody has it open: %s",
              db.status().ToString().c_str());
  }
  sim::Cover(sim::Steps());
}

void RunOpStatsDb() {
  if (sim::ConfigChoose(3) == 0) return RunDbThreads();
  RunDbHistory();
}

// ======================================================================== D05
class LogFlags : public fcp::client::Flags {
 public:
  explicit LogFlags(bool p) : p_(p) {}
  int64_t condition_polling_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; }
  bool log_tensorflow_error_messages() const override { return false; }
  bool enable_phase_stats_logging() const override { return p_; }

 private:
  bool p_;
};

struct RefPhase {
  OperationalStats::PhaseStats s;   // without event timestamps
  absl::Duration net = absl::ZeroDuration();
};
struct RefLog {
  OperationalStats top;  // without event timestamps
  std::vector<RefPhase> phases;
  bool in_phase = false;
  RefPhase cur;
  std::vector<std::pair<int64_t, int64_t>> when;  // per event: [before, after], call order
  NetworkStats acc;
  std::map<std::string, absl::Time> first;

  OperationalStats Expected() const {
    OperationalStats e = top;
    auto add = [&](const RefPhase& p) {
      auto* q = e.add_phase_stats();
      *q = p.s;
    };
    for (auto& p : phases) add(p);
    if (in_phase) add(cur);
    return e;
  }
};

// Takes the event timestamps out (checked separately) and normalises
// durations that are absent or zero.
void Strip(OperationalStats* s, std::vector<int64_t>* times, std::vector<int64_t>* net_ns) {
  auto take = [&](OperationalStats::Event& e) {
    times->push_back(TimeUtil::TimestampToNanoseconds(e.timestamp()));
    e.clear_timestamp();
  };
  for (auto& e : *s->mutable_events()) take(e);
  for (auto& p : *s->mutable_phase_stats()) {
    for (auto& e : *p.mutable_events()) take(e);
    net_ns->push_back(TimeUtil::DurationToNanoseconds(p.network_duration()));
    p.clear_network_duration();
  }
}

void CheckEntry(const char* prop, OperationalStats got, const RefLog& ref) {
  std::vector<int64_t> times, net;
  Strip(&got, &times, &net);
  OperationalStats want = ref.Expected();
  std::string diff;
  MessageDifferencer d;
  d.ReportDifferencesToString(&diff);
  bool same = d.Compare(want, got);
  SIM_CHECK(prop, same, "committed statistics differ from what was logged: %s",
            diff.substr(0, 300).c_str());
  SIM_CHECK(prop, times.size() == ref.when.size(), "%zu events committed, %zu logged", times.size(),
            ref.when.size());
  for (size_t i = 0; i < times.size(); ++i) {
    SIM_CHECK(prop, times[i] >= ref.when[i].first / kSec * kSec && times[i] <= ref.when[i].second,
              "event %zu is stamped %ld, but was logged between %ld and %ld", i, (long)times[i],
              (long)ref.when[i].first, (long)ref.when[i].second);
  }
  size_t n = 0;
  auto dur = [&](const RefPhase& p) {
    SIM_CHECK(prop, net[n] == absl::ToInt64Nanoseconds(p.net),
              "phase %zu: network time %ld ns, expected %ld ns", n, (long)net[n],
              (long)absl::ToInt64Nanoseconds(p.net));
    ++n;
  };
  for (auto& p : ref.phases) dur(p);
  if (ref.in_phase) dur(ref.cur);
}

struct LogShared {
  int sessions;
  int64_t hash[40];  // complete entries of earlier sessions, oldest first
  bool sure[40];     // the last commit of that session was reported successful
  bool may_reset;    // a disk error may have caused a reset since
};

uint64_t EntryHash(const OperationalStats& s) {
  std::string out;
  {
    google::protobuf::io::StringOutputStream os(&out);
    google::protobuf::io::CodedOutputStream cs(&os);
    cs.SetSerializationDeterministic(true);
    s.SerializeToCodedStream(&cs);
  }
  return sim::HashStr(out);
}

void LogSession(int session, bool faulty, LogShared* ls) {
  const char* prop = "D05";
  Log log;
  bool phases = Choose(kWork, 4) != 0;
  LogFlags flags(phases);
  auto db = PdsBackedOpStatsDb::Create("/simfs/files", absl::Hours(24 * 30), log, 10000000);
  if (!db.ok()) {
    sim::Count("log_db_unavailable");
    return;
  }
  std::vector<uint64_t> prior;
  {
    auto r = (*db)->Read();
    if (!r.ok()) {
      ls->may_reset = true;
      r = (*db)->Read();
      if (!r.ok()) return;
    }
    for (auto& o : r->opstats()) prior.push_back(EntryHash(o));
  }
  RefLog ref;
  std::string name = absl::StrCat("session/", session);
  ref.top.set_session_name(name);
  ref.top.set_population_name("pop");
  auto logger =
      std::make_unique<OpStatsLoggerImpl>(std::move(*db), &log, &flags, name, "pop");
  auto check_db = [&](bool committed_ok) {
    auto r = logger->GetOpStatsDb()->Read();
    if (!r.ok()) {
      SIM_CHECK(prop, faulty, "read fails on a working disk");
      ls->may_reset = true;
      prior.clear();
      return;
    }
    size_t n = r->opstats_size();
    // Entries of earlier sessions stay as they are (all gone after a reset).
    size_t keep = 0;
    while (keep < n && keep < prior.size() && EntryHash(r->opstats(keep)) == prior[keep]) ++keep;
    if (keep < prior.size()) {
      SIM_CHECK(prop, keep == 0 && faulty && (n == 0 || r->opstats(0).session_name() == name),
                "committing session %d changed the entry of an earlier session (%zu of %zu intact)",
                session, keep, prior.size());
      ls->may_reset = true;
      prior.clear();
      keep = 0;
    }
    SIM_CHECK(prop, n <= keep + 1, "session %d is stored %zu times", session, n - keep);
    if (committed_ok) {
      SIM_CHECK(prop, n == keep + 1, "the committed session is missing");
      CheckEntry(prop, r->opstats(n - 1), ref);
      sim::Count("log_commit_checked");
    }
  };
  using Ev = OperationalStats::Event;
  static const Ev::EventKind kKinds[] = {
      Ev::EVENT_KIND_CHECKIN_STARTED, Ev::EVENT_KIND_CHECKIN_ACCEPTED,
      Ev::EVENT_KIND_COMPUTATION_STARTED, Ev::EVENT_KIND_COMPUTATION_FINISHED,
      Ev::EVENT_KIND_TRAIN_NOT_STARTED};
  static const char* const kUris[] = {"app:/a", "app:/b", "internal:/opstats"};
  int ops = 1 + Choose(kWork, 25);
  bool any_event = false;
  auto target_events = [&]() -> google::protobuf::RepeatedPtrField<Ev>* {
    return ref.in_phase ? ref.cur.s.mutable_events() : ref.top.mutable_events();
  };
  // Events of the top level come first in the entry, whenever they were logged.
  std::vector<std::pair<int64_t, int64_t>> top_when, phase_when;
  auto log_event = [&](Ev::EventKind k, int64_t before) {
    target_events()->Add()->set_event_type(k);
    (ref.in_phase ? phase_when : top_when).emplace_back(before, sim::RealtimeNs());
    ref.when = top_when;
    ref.when.insert(ref.when.end(), phase_when.begin(), phase_when.end());
    any_event = true;
  };
  for (int i = 0; i < ops; ++i) {
    sim::AdvanceNs(int64_t(Choose(kTime, 1000)) * 1000000);
    int op = i == 0 ? 0 : Choose(kWork, 11);
    int64_t before = sim::RealtimeNs();
    switch (op) {
      case 0: {
        auto k = kKinds[Choose(kWork, 5)];
        logger->AddEvent(k);
        log_event(k, before);
        break;
      }
      case 1: {
        auto k = kKinds[Choose(kWork, 5)];
        std::string task = absl::StrCat("task", Choose(kData, 4));
        logger->AddEventAndSetTaskName(task, k);
        log_event(k, before);
        if (ref.in_phase) {
          ref.cur.s.set_task_name(task);
        } else {
          ref.top.set_task_name(task);
        }
        break;
      }
      case 2: {
        auto k = kKinds[Choose(kWork, 5)];
        std::string err = absl::StrCat("error", Choose(kData, 4));
        logger->AddEventWithErrorMessage(k, err);
        log_event(k, before);
        if (ref.in_phase) {
          if (ref.cur.s.error_message().empty()) ref.cur.s.set_error_message(err);
        } else if (ref.top.error_message().empty()) {
          ref.top.set_error_message(err);
        }
        break;
      }
      case 3: {
        std::string uri = kUris[Choose(kWork, 3)];
        int n = Choose(kData, 100);
        int64_t b = int64_t(Choose(kData, 1000)) << (Choose(kData, 2) * 28);
        logger->UpdateDatasetStats(uri, n, b);
        auto& d = ref.in_phase ? (*ref.cur.s.mutable_dataset_stats())[uri]
                               : (*ref.top.mutable_dataset_stats())[uri];
        d.set_num_examples_read(d.num_examples_read() + n);
        d.set_num_bytes_read(d.num_bytes_read() + b);
        if (ref.first.count(uri)) {
          int64_t ns = absl::ToUnixNanos(ref.first[uri]);
          d.mutable_first_access_timestamp()->set_seconds(ns / kSec);
          d.mutable_first_access_timestamp()->set_nanos(ns % kSec);
        }
        break;
      }
      case 4: {
        std::string uri = kUris[Choose(kWork, 3)];
        absl::Time t = absl::FromUnixNanos(before - int64_t(Choose(kData, 1000)) * 1000003);
        logger->RecordCollectionFirstAccessTime(uri, t);
        ref.first.emplace(uri, t);
        break;
      }
      case 5: {
        NetworkStats ns = ref.acc;
        static NetworkStats total;
        if (i == 1) total = NetworkStats();
        total = ref.acc;
        ns.bytes_downloaded += Choose(kData, 5000);
        ns.bytes_uploaded += Choose(kData, 5000);
        ns.network_duration += absl::Milliseconds(Choose(kData, 5000));
        logger->SetNetworkStats(ns);
        if (ref.in_phase) {
          ref.cur.s.set_bytes_downloaded(ref.cur.s.bytes_downloaded() + ns.bytes_downloaded -
                                         ref.acc.bytes_downloaded);
          ref.cur.s.set_bytes_uploaded(ref.cur.s.bytes_uploaded() + ns.bytes_uploaded -
                                       ref.acc.bytes_uploaded);
          ref.cur.net += ns.network_duration - ref.acc.network_duration;
          ref.acc = ns;
        } else {
          ref.top.set_chunking_layer_bytes_downloaded(ns.bytes_downloaded);
          ref.top.set_chunking_layer_bytes_uploaded(ns.bytes_uploaded);
          int64_t d = absl::ToInt64Nanoseconds(ns.network_duration);
          ref.top.mutable_network_duration()->set_seconds(d / kSec);
          ref.top.mutable_network_duration()->set_nanos(d % kSec);
        }
        break;
      }
      case 6: {
        int64_t v = Choose(kData, 100);
        logger->SetMinSepPolicyIndex(v);
        ref.top.set_min_sep_policy_index(v);
        break;
      }
      case 7: {
        google::internal::federatedml::v2::RetryWindow w;
        w.mutable_delay_min()->set_seconds(Choose(kData, 1000));
        w.mutable_delay_max()->set_seconds(1000 + Choose(kData, 1000));
        w.set_retry_token("secret");
        logger->SetRetryWindow(w);
        w.clear_retry_token();
        *ref.top.mutable_retry_window() = w;
        break;
      }
      case 8: {
        auto p = static_cast<OperationalStats::PhaseStats::Phase>(1 + Choose(kWork, 6));
        logger->StartLoggingForPhase(p);
        if (!phases) break;
        if (ref.in_phase) ref.phases.push_back(ref.cur);
        ref.cur = RefPhase();
        ref.cur.s.set_phase(p);
        ref.in_phase = true;
        break;
      }
      case 9:
        logger->StopLoggingForTheCurrentPhase();
        if (!phases) break;
        if (ref.in_phase) ref.phases.push_back(ref.cur);
        ref.cur = RefPhase();
        ref.in_phase = false;
        break;
      case 10: {
        absl::Status s = logger->CommitToStorage();
        SIM_CHECK(prop, s.ok() || faulty, "commit fails on a working disk: %s",
                  s.ToString().c_str());
        sim::Event("commit -> %s", s.ToString().c_str());
        sim::Count(s.ok() ? "log_commit" : "log_commit_failed");
        if (s.ok() || faulty) check_db(s.ok());
        break;
      }
    }
    if (phases) {
      std::string want = ref.in_phase ? ref.cur.s.task_name() : "";
      for (auto it = ref.phases.rbegin(); want.empty() && it != ref.phases.rend(); ++it)
        want = it->s.task_name();
      SIM_CHECK(prop, logger->GetCurrentTaskName() == want, "current task is reported as '%s', not '%s'",
                logger->GetCurrentTaskName().c_str(), want.c_str());
    } else {
      SIM_CHECK(prop, logger->GetCurrentTaskName() == ref.top.task_name(), "wrong current task");
    }
  }
  logger.reset();  // commits
  NoFaults();
  auto db2 = PdsBackedOpStatsDb::Create("/simfs/files", absl::Hours(24 * 30), log, 10000000);
  SIM_CHECK(prop, db2.ok(), "database does not reopen: %s", db2.status().ToString().c_str());
  auto r = (*db2)->Read();
  SIM_CHECK(prop, r.ok(), "read fails on a working disk: %s", r.status().ToString().c_str());
  size_t n = r->opstats_size();
  if (!faulty) {
    SIM_CHECK(prop, n == prior.size() + 1, "%zu entries stored after %zu sessions", n,
              prior.size() + 1);
    CheckEntry(prop, r->opstats(n - 1), ref);
  }
  size_t keep = 0;
  while (keep < n && keep < prior.size() && EntryHash(r->opstats(keep)) == prior[keep]) ++keep;
  if (keep < prior.size()) {
    SIM_CHECK(prop, keep == 0 && faulty && (n == 0 || r->opstats(0).session_name() == name),
              "ending session %d changed the entry of an earlier session (%zu of %zu intact)",
              session, keep, prior.size());
  }
}

void RunLogThreads() {
  const char* prop = "D05";
  sim::SwarmTuning(true);
  NoFaults();
  Log log;
  bool phases = Choose(kWork, 2);
  LogFlags flags(phases);
  auto db = PdsBackedOpStatsDb::Create("/simfs/files", absl::Hours(1000), log, 10000000);
  SIM_CHECK(prop, db.ok(), "database does not open");
  auto logger = std::make_unique<OpStatsLoggerImpl>(std::move(*db), &log, &flags, "s", "p");
  int n = 2 + Choose(kWork, 2);
  if (phases) logger->StartLoggingForPhase(OperationalStats::PhaseStats::COMPUTATION);
  int per[4];
  int64_t examples = 0, bytes = 0;
  std::vector<std::thread> th;
  for (int t = 0; t < n; ++t) {
    per[t] = 1 + Choose(kWork, 5);
    th.emplace_back([&, t] {
      for (int i = 0; i < per[t]; ++i) {
        logger->AddEvent(static_cast<OperationalStats::Event::EventKind>(1 + t));
        int e = 1 + Choose(kData, 9);
        logger->UpdateDatasetStats("u", e, e * 10);
        {
          sim::NoPreempt np;
          examples += e;
          bytes += e * 10;
        }
        if (Choose(kWork, 4) == 3) {
          absl::Status s = logger->CommitToStorage();
          SIM_CHECK(prop, s.ok(), "commit fails: %s", s.ToString().c_str());
        }
      }
    });
  }
  for (auto& t : th) t.join();
  logger.reset();
  auto db2 = PdsBackedOpStatsDb::Create("/simfs/files", absl::Hours(1000), log, 10000000);
  SIM_CHECK(prop, db2.ok(), "database does not reopen");
  auto r = (*db2)->Read();
  SIM_CHECK(prop, r.ok() && r->opstats_size() == 1, "one session, %d entries",
            r.ok() ? r->opstats_size() : -1);
  const auto& o = r->opstats(0);
  SIM_CHECK(prop, o.phase_stats_size() == (phases ? 1 : 0), "%d phases", o.phase_stats_size());
  const auto& ev = phases ? o.phase_stats(0).events() : o.events();
  int got[4] = {0, 0, 0, 0};
  int64_t last = 0;
  for (auto& e : ev) {
    SIM_CHECK(prop, e.event_type() >= 1 && e.event_type() <= n, "an event nobody logged");
    got[e.event_type() - 1]++;
    int64_t ts = TimeUtil::TimestampToNanoseconds(e.timestamp());
    SIM_CHECK(prop, ts >= last, "events are not in the order they were logged");
    last = ts;
  }
  for (int t = 0; t < n; ++t)
    SIM_CHECK(prop, got[t] == per[t], "%d of %d events of thread %d stored", got[t], per[t], t);
  const auto& ds = phases ? o.phase_stats(0).dataset_stats() : o.dataset_stats();
  SIM_CHECK(prop, ds.count("u") && ds.at("u").num_examples_read() == examples &&
                      ds.at("u").num_bytes_read() == bytes,
            "dataset statistics lost updates");
  sim::Cover(sim::Steps());
}

void RunOpStatsLogger() {
  if (sim::ConfigChoose(4) == 0) return RunLogThreads();
  sim::SwarmTuning(false);
  auto* ls = static_cast<LogShared*>(sim::SharedAlloc(sizeof(LogShared)));
  int sessions = 1 + Choose(kWork, 4);
  for (int s = 0; s < sessions; ++s) {
    bool faulty = sim::ConfigChoose(3) == 0;
    sim::RunIncarnation([&] {
      if (faulty) {
        DiskFaults(true);
      } else {
        NoFaults();
      }
      LogSession(s, faulty, ls);
    });
  }
  sim::Cover(sim::FsOps());
}

}  // namespace
