// Part of runner.cc.
namespace run {
using absl::Cord;
using absl::Status;
using absl::StatusCode;
using absl::StatusOr;
using fcp::client::ComputationResults;
using fcp::client::ExampleStats;
using fcp::client::FederatedProtocol;
using fcp::client::NetworkStats;
using fcp::client::QuantizedTensor;
using fcp::client::SelectorContext;
using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::OpStatsSequence;
using google::internal::federated::plan::ClientOnlyPlan;
using google::internal::federated::plan::ExampleQuerySpec;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federated::plan::SlicesSelector;
using google::internal::federatedml::v2::RetryWindow;
using google::internal::federatedml::v2::TaskEligibilityInfo;
using google::protobuf::util::TimeUtil;
using Ev = OperationalStats::Event;
constexpr int64_t kSec = 1000000000ll, kDay = 86400 * kSec, kSlack = 600 * kSec;
constexpr int kMaxTasks = 4, kMaxSess = 6, kMaxPol = 4;
const char kBase[] = "/simfs/base";
const char kCache[] = "/simfs/cache";
const char kPop[] = "pop/simulated";

uint64_t H(std::initializer_list<uint64_t> v) {
  uint64_t h = 77;
  for (uint64_t x : v) h = sim::Mix(h, x);
  return h;
}
std::string Bytes(uint64_t h, size_t n) {
  std::string s;
  while (s.size() < n) {
    h = sim::Mix(h, s.size());
    s.append(reinterpret_cast<const char*>(&h), 8);
  }
  s.resize(n);
  return s;
}

// ---- the world: fixed before any process starts ----------------------------
struct Sel {
  int src;  // 0 example store, 1 slices, 2 history
  std::string uri;
  int n;                  // examples, slices
  int crit;
  bool last = false;      // history: last contribution only
};
struct Out {
  int type;
  int n;
};
enum Kind { kTf, kLite, kEq, kBadPlan, kBadGraph, kBadSpec };
struct Task {
  std::string name;
  Kind kind = kTf;
  bool multi = false, outfile = true, secagg = false, conf = false, readers2 = false;
  bool cord = false;
  std::vector<int> pol;
  std::vector<Sel> sel;
  std::vector<Out> out;  // tensors, or the vectors of each query
  int ckpt = 0;
};
struct Pol {
  int type = 0;  // 0 swor, 1 data, 2 tf, 3 min-sep, 4 none of these
  bool newer = false;
  int64_t period = 0;
  std::string regex;
  int min = 0, have = 0;
  bool eqr = false;
  int64_t sep = 0, trust = 0;
};
struct World : fcp::client::Flags {
  std::vector<Task> t;
  std::vector<Pol> p;
  bool phase, lw, untie, record, cid, lcid, fsel, eqr_flag, trust_flag, conf_ctx, tflite, big_ttl;
  int poll_ms = 1000;
  bool faulty_disk = false;
  double p_net = 0, p_prog = 0, p_crash = 0, p_abort = 0;
  int64_t condition_polling_period_millis() const override { return poll_ms; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 60000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 120000; }
  bool log_tensorflow_error_messages() const override { return true; }
  int64_t opstats_ttl_days() const override { return big_ttl ? 3650 : 5; }
  int64_t opstats_db_size_limit_bytes() const override { return 1 << 20; }
  bool use_tflite_training() const override { return tflite; }
  bool enable_computation_id() const override { return cid; }
  bool enable_lightweight_computation_id() const override { return lcid; }
  bool enable_federated_select() const override { return fsel; }
  bool enable_lightweight_client_report_wire_format() const override { return lw; }
  bool untie_lw_client_report_format_support_from_requiring_lw_report() const override { return untie; }
  bool enable_phase_stats_logging() const override { return phase; }
  bool enable_native_example_query_recording() const override { return record; }
  bool check_trustworthiness_for_min_sep_policy() const override { return trust_flag; }
  bool use_example_query_result_for_data_avail() const override { return eqr_flag; }
  bool confidential_agg_in_selector_context() const override { return conf_ctx; }
};
World* w;

// ---- what survives every process: the truth about the past -----------------
struct Attempt {
  int task, sess;
  int64_t t, idx;
  bool received, aborted, crashed, recorded;
  int nacc;           // collections read by the computation
  char acc[4][24];
};
struct Sess {
  int64_t t0;
  bool db_ok, ended, eet;
  int n;
  int kind[160];
  int64_t down, up, retry_no;
  int64_t ds_n[kMaxTasks][4], ds_b[kMaxTasks][4];  // per task and collection
  bool ran[kMaxTasks];
  char retry[32];
};
struct Truth {
  int nat;
  Attempt at[64];
  Sess s[kMaxSess];
  int64_t trust;    // when the history began
  bool lost;        // the stored history was damaged since
  bool exact;       // no disk fault so far
};
Truth* tr;

// ---- one session ------------------------------------------------------------
struct Run {
  int task = -1;
  bool multi = false, assigned = false, ok_status = false, reported = false, accepted = false,
       completed = false;
  std::string sid, plan;
  // computation
  int started = 0;
  bool finished = false, tf_error = false, interrupted = false, out_of_range = false,
       bad_result = false, odd_slices = false;
  int iter_err = 0;  // 1 failure, 2 cancelled
  uint64_t hash = 0;
  std::vector<std::pair<std::string, int>> queries;
};
struct S {
  int no = 0;
  std::vector<std::set<int>> exp;
  std::vector<int> pub;
  std::vector<std::string> odd;
  int64_t t_abort = INT64_MAX;
  bool disk = false;
  std::map<int, Run> runs;  // by task
  int requested = 0;
  bool no_spec = false, eet_enabled = false, eet_disabled = false, spec_known = false;
  std::vector<std::string> multi_declared;
  std::vector<bool> results;           // told to the environment
  std::vector<std::string> contributed;
  int retry_no = 0;
  NetworkStats ns;
  std::map<int, float> declared;
  int running = -1;  // task whose computation is under way
  int64_t running_since = 0;
  net::Client* http = nullptr;
  fcp::client::FederatedSelectManager* fs = nullptr;
};
S* s;
void Expect(std::set<int> k) {
  sim::NoPreempt np;
  s->exp.push_back(std::move(k));
}
#define RCHECK(prop, cond, ...) SIM_CHECK(prop, cond, __VA_ARGS__)

std::string CollUri(int task, int i) { return absl::StrCat("app:/t", task, "/c", i); }
std::string Crit(int task, int i) { return absl::StrCat("crit-", task, "-", i); }
google::protobuf::Any AnyOf(const google::protobuf::Message& m) {
  google::protobuf::Any a;
  a.PackFrom(m);
  return a;
}
google::protobuf::Any TextAny(const std::string& x) {
  tensorflow::TensorProto p;
  p.set_dtype(tensorflow::DT_STRING);
  p.add_string_val(x);
  return AnyOf(p);
}
ExampleSelector Selector(int task, int i) {
  const Sel& x = w->t[task].sel[i];
  ExampleSelector e;
  e.set_collection_uri(x.uri);
  if (x.src == 0) {
    *e.mutable_criteria() = TextAny(Crit(task, i));
  } else if (x.src == 1) {
    SlicesSelector q;
    q.set_served_at_id(absl::StrCat("served", x.crit));
    for (int k = 0; k < x.n; ++k) q.add_keys(H({uint64_t(task), uint64_t(i), uint64_t(k)}) % 7 - 1);
    *e.mutable_criteria() = AnyOf(q);
  } else if (x.last) {
    fcp::client::opstats::OpStatsSelectionCriteria c;
    c.set_last_successful_contribution(true);
    *e.mutable_criteria() = AnyOf(c);
  }
  return e;
}
std::string Example(int task, int i, int k, int sess) {
  uint64_t h = H({1, uint64_t(task), uint64_t(i), uint64_t(k), uint64_t(sess)});
  return Bytes(h, 1 + h % 90);
}
std::string Slice(const std::string& path, int sess) {
  uint64_t h = sim::HashStr(path, 5 + sess);
  static const int kLen[] = {0, 1, 60, 900, 4095, 8191, 8192, 9000, 20000};
  return Bytes(h, kLen[h % 9]);
}
std::string Checkpoint(int task, int sess) {
  static const int kLen[] = {0, 1, 500, 3000, 8190, 8192, 8200, 30000};
  uint64_t h = H({2, uint64_t(task), uint64_t(sess)});
  return Bytes(h, kLen[(w->t[task].ckpt + h) % 8]);
}
std::string Graph(int task, int sess) {
  return absl::StrCat("P|", task, "|", sess, "|", Bytes(H({3, uint64_t(task), uint64_t(sess)}), 9));
}
std::string Const(int task, int sess) { return absl::StrCat("const", task, ".", sess); }
std::string OutBytes(uint64_t h) {
  static const int kLen[] = {1, 700, 4096, 8191, 8193, 25000};
  return Bytes(sim::Mix(h, 9), kLen[h % 6]);
}
int64_t MinSepIndex(int sess) { return 100 + sess; }
const tensorflow::DataType kTypes[] = {tensorflow::DT_INT8,   tensorflow::DT_UINT8, tensorflow::DT_INT16,
                                       tensorflow::DT_UINT16, tensorflow::DT_INT32, tensorflow::DT_INT64,
                                       tensorflow::DT_FLOAT};
const int kBits[] = {7, 8, 15, 16, 31, 62, 0};
uint64_t Value(uint64_t h, int o, int i, int bits) {
  return sim::Mix(sim::Mix(h, o), i) & ((1ull << bits) - 1);
}

// The vectors an example query over collection i of a task yields.
int VecType(int task, int i, int o) { return w->t[task].out[(i + o) % w->t[task].out.size()].type; }
int NumVec(int task) { return std::min<int>(3, w->t[task].out.size()); }
std::string VecName(int i, int o) { return absl::StrCat("q", i, "v", o); }
int VecLen(int task, int i, int o, int sess) { return H({4, uint64_t(task), uint64_t(i), uint64_t(o), uint64_t(sess)}) % 4; }
fcp::client::ExampleQueryResult QueryResult(int task, int i, int sess, std::map<std::string, std::string>* slices) {
  fcp::client::ExampleQueryResult r;
  for (int o = 0; o < NumVec(task); ++o) {
    fcp::client::ExampleQueryResult::VectorData::Values v;
    std::string text;
    int type = VecType(task, i, o);
    using namespace tensorflow::checkpoint;
    switch (type) {
      case 1: v.mutable_int32_values(); break;
      case 2: v.mutable_int64_values(); break;
      case 3: v.mutable_bool_values(); break;
      case 4: v.mutable_float_values(); break;
      case 5: v.mutable_double_values(); break;
      case 6: v.mutable_bytes_values(); break;
      default: v.mutable_string_values();
    }
    for (int k = 0; k < VecLen(task, i, o, sess); ++k) {
      uint64_t x = H({5, uint64_t(task), uint64_t(i), uint64_t(o), uint64_t(k), uint64_t(sess)});
      std::string one;
      switch (type) {
        case 1: v.mutable_int32_values()->add_value((int32_t)x); one = RenderOne((int32_t)x); break;
        case 2: v.mutable_int64_values()->add_value((int64_t)x); one = RenderOne((int64_t)x); break;
        case 3: v.mutable_bool_values()->add_value(x & 1); one = RenderOne(bool(x & 1)); break;
        case 4: v.mutable_float_values()->add_value(x % 1000); one = RenderOne(float(x % 1000)); break;
        case 5: v.mutable_double_values()->add_value(x % 1000); one = RenderOne(double(x % 1000)); break;
        case 6: v.mutable_bytes_values()->add_value(Bytes(x, x % 30)); one = RenderOne(Bytes(x, x % 30)); break;
        default:
          v.mutable_string_values()->add_value(absl::StrCat("s", x % 100000));
          one = RenderOne(absl::StrCat("s", x % 100000));
      }
      text += "[" + one + "]";
    }
    (*r.mutable_vector_data()->mutable_vectors())[absl::StrCat("v", o)] = v;
    if (slices) (*slices)[VecName(i, o)] = text;
  }
  r.mutable_stats()->set_example_count_for_logs(3 + i);
  return r;
}

ClientOnlyPlan Plan(int task, int sess) {
  const Task& t = w->t[task];
  ClientOnlyPlan plan;
  auto* ph = plan.mutable_phase();
  plan.mutable_client_persisted_data()->set_min_sep_policy_index(MinSepIndex(sess));
  if (t.kind == kEq) {
    for (size_t i = 0; i < t.sel.size(); ++i) {
      auto* q = ph->mutable_example_query_spec()->add_example_queries();
      *q->mutable_example_selector() = Selector(task, i);
      for (int o = 0; o < NumVec(task); ++o) {
        auto& spec = (*q->mutable_output_vector_specs())[VecName(i, o)];
        spec.set_vector_name(absl::StrCat("v", o));
        spec.set_data_type((ExampleQuerySpec::OutputVectorSpec::DataType)VecType(task, i, o));
        (*ph->mutable_federated_example_query()->mutable_aggregations())[VecName(i, o)]
            .mutable_tf_v1_checkpoint_aggregation();
      }
    }
    ph->mutable_example_query_spec();
    ph->mutable_federated_example_query();
    return plan;
  }
  std::string g = Graph(task, sess);
  if (t.kind == kBadGraph) g = "bad" + g;
  plan.set_graph(g);
  if (t.kind == kLite) plan.set_tflite_graph(g);
  auto* spec = ph->mutable_tensorflow_spec();
  auto* io = ph->mutable_federated_compute();
  spec->set_dataset_token_tensor_name("tok");
  io->set_input_filepath_tensor_name("in");
  spec->add_input_tensor_specs()->set_name("in");
  if (t.outfile) {
    io->set_output_filepath_tensor_name("out");
    spec->add_input_tensor_specs()->set_name("out");
  }
  for (size_t o = 0; o < t.out.size(); ++o) {
    auto* x = spec->add_output_tensor_specs();
    x->set_name(absl::StrCat("o", o));
    x->set_dtype(kTypes[t.out[o].type]);
    x->mutable_shape()->add_dim()->set_size(t.out[o].n);
    if (!(t.kind == kBadSpec && o == 0)) (*io->mutable_aggregations())[x->name()].mutable_secure_aggregation();
  }
  if (t.kind == kBadSpec && t.out.empty()) spec->add_input_tensor_specs()->set_name("extra");
  auto& c = (*spec->mutable_constant_inputs())["c"];
  c.set_dtype(tensorflow::DT_STRING);
  c.add_string_val(Const(task, sess));
  return plan;
}

// ---- computations -----------------------------------------------------------
// What a computation does with its inputs, given its graph.
struct Closed {
  bool closed = false, running = false;
};
std::string ReadAll(const std::string& f, bool* ok) {
  std::ifstream in(f, std::ios::binary);
  std::string d;
  char buf[1024];
  while (in.read(buf, sizeof buf) || in.gcount() > 0) d.append(buf, in.gcount());
  *ok = in.eof() && !in.bad();
  return d;
}

Status Program(const std::string& graph, const std::map<std::string, std::string>& in, Closed* c,
               const std::function<bool()>& closed, const std::vector<std::string>& names,
               std::vector<tensorflow::Tensor>* outputs) {
  auto die = [&](const char* m) { return absl::InternalError(m); };
  auto token = in.find("tok");
  RCHECK("R01", token != in.end(), "a computation got no data source");
  auto provider = fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token->second));
  RCHECK("R01", provider.has_value(), "a computation's data source was gone");
  if (graph[0] == 'E') {  // eligibility
    ExampleSelector e;
    e.set_collection_uri("internal:/eligibility_context");
    auto ds = (*provider)->MakeDataset(e.SerializeAsString());
    if (!ds.ok()) return ds.status();
    auto it = (*ds)->MakeIterator();
    auto x = it->GetNext();
    if (!x.ok()) return x.status();
    tensorflow::Example ex;
    RCHECK("R03", ex.ParseFromString(*x) && !it->GetNext().ok(), "the eligibility context is malformed");
    std::string pn = ex.features().feature().at("policy_name").bytes_list().value(0);
    int p = atoi(pn.c_str() + 1);
    TaskEligibilityInfo info;
    for (const auto& n : ex.features().feature().at("task_names").bytes_list().value()) {
      auto* tw = info.add_task_weights();
      tw->set_task_name(n);
      tw->set_weight(H({6, uint64_t(p), sim::HashStr(n), uint64_t(s->no)}) % 3 ? 1 : 0);
    }
    sim::Count("tf_policy_runs");
    if (sim::Flip(kFault, w->p_prog)) {
      sim::CountFault("eligibility_program_error");
      Expect({1000});
      return die("simulated");
    }
    outputs->push_back(tensorflow::Tensor(info.SerializeAsString()));
    return absl::OkStatus();
  }
  std::vector<std::string> part = absl::StrSplit(graph, '|');
  int task = atoi(part[1].c_str());
  const Task& t = w->t[task];
  Run* r;
  {
    sim::NoPreempt np;
    RCHECK("R01", s->runs.count(task) && s->runs[task].assigned && graph == Graph(task, s->no),
           "a computation was run that this session was not assigned (%s)", t.name.c_str());
    r = &s->runs[task];
    r->started++;
    RCHECK("R01", r->started == 1, "the computation of %s was started %d times", t.name.c_str(), r->started);
    RCHECK("R01", !r->reported, "the computation of %s was started after its report", t.name.c_str());
    s->running = task;
    s->running_since = sim::NowNs();
  }
  uint64_t h = sim::HashStr(graph);
  bool ok;
  RCHECK("R01", in.count("in") && in.count("c") && in.at("c") == Const(task, s->no),
         "the computation of %s did not get its inputs", t.name.c_str());
  std::string ckpt = ReadAll(in.at("in"), &ok);
  if (!ok) {
    r->tf_error = true;
    return die("checkpoint unreadable");
  }
  h = sim::Mix(h, sim::HashStr(ckpt));
  RCHECK("R01", ckpt == Checkpoint(task, s->no),
         "the computation of %s got an input checkpoint of %zu bytes that is not the one served (%zu bytes)",
         t.name.c_str(), ckpt.size(), Checkpoint(task, s->no).size());
  auto stall = [&](int p) -> bool {  // false: closed meanwhile
    if (sim::Flip(kTime, 0.15)) {
      int64_t until = sim::NowNs() + (int64_t)sim::Range(kTime, 1, p) * 1000000;
      sim::BlockUntilDeadline([&] { return c->closed; }, until, "computation");
    } else {
      sim::Yield("computation");
    }
    return !closed();
  };
  for (size_t i = 0; i < t.sel.size(); ++i) {
    auto ds = (*provider)->MakeDataset(Selector(task, i).SerializeAsString());
    if (!ds.ok()) {
      sim::NoPreempt np;
      if (!r->iter_err) r->iter_err = 1;
      RCHECK("R04", t.sel[i].src != 0 || r->odd_slices || s->disk || r->bad_result,
             "the examples of %s could not be queried though the store works", t.name.c_str());
      return ds.status();
    }
    auto it = (*ds)->MakeIterator();
    int got = 0;
    uint64_t sum = 0;
    Status err;
    bool gone = false;
    auto reader = [&] {
      for (;;) {
        if (!stall(1500)) {
          sim::NoPreempt np;
          gone = true;
          return;
        }
        auto x = it->GetNext();
        sim::NoPreempt np;
        sim::Event("element %d of query %zu: %d", got, i, (int)x.status().code());
        if (!x.ok()) {
          if (x.status().code() != StatusCode::kOutOfRange) err = x.status();
          return;
        }
        std::string data = *x;
        if (t.sel[i].src == 1) {
          bool rd;
          data = ReadAll(*x, &rd);
          if (!rd) {
            r->tf_error = true;
            gone = true;
            return;
          }
          std::string path = absl::StrCat("/slices/served", t.sel[i].crit, "/",
                                          int(H({uint64_t(task), uint64_t(i), uint64_t(got)}) % 7) - 1);
          if (!t.readers2)
            RCHECK("R05", got < t.sel[i].n && data == Slice(path, s->no),
                   "slice %d of %s has %zu bytes that are not the slice served (%zu bytes)", got,
                   t.name.c_str(), data.size(), Slice(path, s->no).size());
          sim::Count("slices_read");
        }
        if (t.sel[i].src == 2) {
          r->hash = sim::Mix(r->hash, sim::HashStr(data));
          sim::Count("history_read");
        }
        sum += sim::HashStr(data, t.readers2 ? 11 : 11 + got);
        got++;
      }
    };
    if (t.readers2 && t.sel[i].src == 0) {
      std::thread a(reader), b(reader);
      a.join();
      b.join();
    } else {
      reader();
    }
    if (!err.ok()) {
      sim::NoPreempt np;
      if (t.sel[i].src == 1 || s->disk) {
        if (!r->iter_err) r->iter_err = 1;
      }
      RCHECK("R04", r->iter_err, "a query of %s failed though the store works", t.name.c_str());
      return err;
    }
    if (gone || closed()) return absl::CancelledError("closed");
    if (t.sel[i].src != 2) {
      RCHECK(t.sel[i].src == 1 ? "R05" : "R01", got == t.sel[i].n,
             "a query of %s yielded %d elements, %d exist", t.name.c_str(), got, t.sel[i].n);
      h = sim::Mix(h, sum);
    }
  }
  if (sim::Flip(kFault, w->p_prog)) {
    sim::CountFault("computation_error");
    r->tf_error = true;
    static const StatusCode kC[] = {StatusCode::kInternal, StatusCode::kUnavailable, StatusCode::kResourceExhausted,
                                    StatusCode::kCancelled};
    return Status(kC[Choose(kFault, 4)], "simulated");
  }
  if (!names.empty() && sim::Flip(kFault, w->p_prog / 2)) {
    sim::CountFault("computation_out_of_range");
    r->out_of_range = true;
    return absl::OutOfRangeError("simulated");
  }
  if (!stall(4000) || (sim::Flip(kTime, 0.1) && !stall(30000))) return absl::CancelledError("closed");
  if (t.outfile) {
    RCHECK("R01", in.count("out"), "the computation of %s got no output file", t.name.c_str());
    std::ofstream o(in.at("out"), std::ios::binary | std::ios::trunc);
    o << OutBytes(h);
    o.close();
    if (!o.good()) {
      r->tf_error = true;
      return die("output not written");
    }
  }
  for (const std::string& n : names) {
    int o = atoi(n.c_str() + 1);
    std::vector<int64_t> v;
    for (int i = 0; i < t.out[o].n; ++i)
      v.push_back(kBits[t.out[o].type] ? Value(h, o, i, kBits[t.out[o].type]) : 1);
    outputs->push_back(tensorflow::Tensor::Ints(kTypes[t.out[o].type], v));
  }
  sim::NoPreempt np;
  r->finished = true;
  return absl::OkStatus();
}

class SimSession : public tensorflow::Session {
 public:
  Status Create(const tensorflow::GraphDef& g) override {
    graph_ = g.bytes;
    return absl::OkStatus();
  }
  Status Run(const std::vector<std::pair<std::string, tensorflow::Tensor>>& inputs,
             const std::vector<std::string>& names, const std::vector<std::string>&,
             std::vector<tensorflow::Tensor>* outputs) override {
    {
      sim::NoPreempt np;
      RCHECK("R06", !c_.closed, "a computation was started in a closed session");
      c_.running = true;
    }
    std::map<std::string, std::string> in;
    for (const auto& [k, v] : inputs) in[k] = v.scalar<const tensorflow::tstring>()();
    Status st = Program(graph_, in, &c_, [this] { sim::NoPreempt np; return c_.closed; }, names, outputs);
    sim::NoPreempt np;
    c_.running = false;
    sim::Event("computation returns %s", std::string(st.message()).c_str());
    return st;
  }
  Status Close() override {
    sim::NoPreempt np;
    if (c_.running) {
      sim::Count("interrupted_computations");
      int64_t now = sim::NowNs();
      RCHECK("R06", now >= s->t_abort, "a computation was interrupted while the device conditions held");
      RCHECK("R06", now <= std::max(s->t_abort, s->running_since) + 4ll * w->poll_ms * 1000000 + kSec,
             "a computation went on for %lld ms after the device conditions ended",
             (long long)(now - s->t_abort) / 1000000);
      if (s->running >= 0 && graph_[0] == 'P') s->runs[s->running].interrupted = true;
      if (graph_[0] == 'E') s->exp.push_back({1000});
    }
    c_.closed = true;
    sim::Event("session closed");
    return absl::OkStatus();
  }
  ~SimSession() override {
    sim::NoPreempt np;
    RCHECK("R06", !c_.running, "a session was destroyed while its computation ran");
  }

 private:
  std::string graph_;
  Closed c_;
};

// ---- the device's environment --------------------------------------------
struct StoreIterator : fcp::client::ExampleIterator {
  int task, i, sess, pos = 0, fail_at = -1, n;
  StatusCode code = StatusCode::kOk;
  bool busy = false, closed = false, query = false;
  std::string blob;
  bool da = false;
  StatusOr<std::string> Next() override {
    {
      sim::NoPreempt np;
      RCHECK("R04", !busy, "an example iterator was used by two threads at once");
      RCHECK("R04", !closed, "an example iterator was used after it was closed");
      busy = true;
    }
    if (sim::Flip(kTime, 0.05)) sim::SleepNs(sim::Range(kTime, 1, 900) * 1000000);
    else sim::Yield("store");
    sim::NoPreempt np;
    busy = false;
    if (pos == fail_at) {
      sim::CountFault("example_store_error");
      if (da) s->exp.push_back({1000});
      else if (!s->runs[task].iter_err) s->runs[task].iter_err = code == StatusCode::kCancelled && !query ? 2 : 1;
      return Status(code, "simulated");
    }
    if (pos >= n) return absl::OutOfRangeError("end");
    pos++;
    std::string x = query || (da && !blob.empty()) ? blob : da ? "e" : Example(task, i, pos - 1, sess);
    if (!da) {
      tr->s[s->no].ds_n[task][i]++;
      tr->s[s->no].ds_b[task][i] += x.size();
      auto& q = s->runs[task].queries;
      for (auto it = q.rbegin(); it != q.rend(); ++it)
        if (it->first == w->t[task].sel[i].uri) {
          it->second++;
          break;
        }
    }
    return x;
  }
  void Close() override {
    sim::NoPreempt np;
    closed = true;
  }
};

std::string Sha(const std::string& x) {
  unsigned char d[32];
  SHA256(reinterpret_cast<const unsigned char*>(x.data()), x.size(), d);
  return std::string(reinterpret_cast<char*>(d), 32);
}
const Attempt* LastContribution(int task, bool* sure) {
  const Attempt* last = nullptr;
  *sure = true;
  for (int i = 0; i < tr->nat; ++i) {
    const Attempt& a = tr->at[i];
    if (a.task != task || a.sess == s->no) continue;
    if (a.aborted && a.crashed) *sure = false;
    if (a.aborted) continue;
    if (a.crashed || !a.recorded) *sure = false;
    else *sure = true;
    last = &a;
  }
  return last;
}

void CheckContext(const SelectorContext& c, int task) {
  const Task& t = w->t[task];
  const auto& p = c.computation_properties();
  RCHECK("R04", p.session_name() == absl::StrCat("session", s->no) && p.has_federated() &&
                    p.federated().population_name() == kPop,
         "a query of %s carried another session's identity", t.name.c_str());
  RCHECK("R04", p.federated().task_name() == t.name, "a query of %s was attributed to '%s'", t.name.c_str(),
         p.federated().task_name().c_str());
  RCHECK("R04", (p.example_iterator_output_format() ==
                 fcp::client::QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT) == (t.kind == kEq),
         "a query of %s asked for the wrong result format", t.name.c_str());
  std::string id;
  if (w->lcid) {
    if (t.kind == kEq) {
      std::string all;
      for (size_t i = 0; i < t.sel.size(); ++i) all += Selector(task, i).criteria().SerializeAsString();
      id = Sha(all);
    }
  } else if (w->cid) {
    id = Sha(s->runs[task].plan);
  }
  RCHECK("R04", p.federated().computation_id() == id, "a query of %s carried another computation's id",
         t.name.c_str());
  const auto& f = p.federated();
  bool sec = t.kind != kEq && !t.outfile;
  if (t.conf && w->conf_ctx)
    RCHECK("R04", f.has_confidential_aggregation(), "a confidential query of %s was not marked so", t.name.c_str());
  else if (sec)
    RCHECK("R04", f.has_secure_aggregation() &&
                      f.secure_aggregation().minimum_clients_in_server_visible_aggregate() == (t.secagg ? 40 + task : 0),
           "a query of %s announced the wrong aggregation", t.name.c_str());
  else
    RCHECK("R04", f.has_simple_aggregation(), "a query of %s announced a stronger aggregation than it gets",
           t.name.c_str());
  if (tr->exact && !s->disk && w->big_ttl && tr->s[s->no].db_ok) {
    bool sure;
    const Attempt* a = LastContribution(task, &sure);
    if (sure && !tr->lost) {
      RCHECK("R04", f.historical_context().has_last_successful_contribution_time() == (a != nullptr),
             "a query of %s %s a previous contribution", t.name.c_str(), a ? "did not mention" : "invented");
      if (a) {
        int64_t d = TimeUtil::TimestampToNanoseconds(f.historical_context().last_successful_contribution_time()) - a->t;
        RCHECK("R04", d > -kSlack && d < kSlack, "a query of %s dates the previous contribution %lld s off",
               t.name.c_str(), (long long)(d / kSec));
        std::set<std::string> want, got;
        for (int i = 0; i < a->nacc; ++i) want.insert(a->acc[i]);
        for (auto& [u, ts] : f.historical_context().collection_first_access_times())
          if (absl::StartsWith(u, "app:")) got.insert(u);
        RCHECK("R04", got == want, "a query of %s lists %zu collections as read before, %zu were", t.name.c_str(),
               got.size(), want.size());
        sim::Count("historical_context_checked");
      }
    }
  }
}

struct Env : fcp::client::SimpleTaskEnvironment {
  std::string GetBaseDir() override { return kBase; }
  std::string GetCacheDir() override { return kCache; }
  StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> CreateExampleIterator(const ExampleSelector&) override {
    sim::Violation("R04", "a query was made without its context");
  }
  StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> CreateExampleIterator(
      const ExampleSelector& sel, const SelectorContext& ctx) override {
    sim::Yield("query");
    sim::NoPreempt np;
    const std::string& u = sel.collection_uri();
    auto it = std::make_unique<StoreIterator>();
    it->sess = s->no;
    static const StatusCode kC[] = {StatusCode::kInternal, StatusCode::kCancelled, StatusCode::kUnavailable,
                                    StatusCode::kInvalidArgument};
    if (absl::StartsWith(u, "da:")) {
      int p = atoi(u.c_str() + 3);
      const auto& cp = ctx.computation_properties();
      RCHECK("R04", cp.has_eligibility_eval() && cp.eligibility_eval().population_name() == kPop &&
                        cp.session_name() == absl::StrCat("session", s->no),
             "an eligibility query did not carry its context");
      RCHECK("R04", sel.criteria().SerializeAsString() == TextAny(absl::StrCat("da", p)).SerializeAsString(),
             "an eligibility query had other criteria");
      bool eqr = w->eqr_flag && w->p[p].eqr;
      RCHECK("R04", (cp.example_iterator_output_format() ==
                     fcp::client::QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT) == eqr,
             "an eligibility query asked for the wrong format");
      it->da = true;
      it->n = w->p[p].have;
      if (eqr) {
        fcp::client::ExampleQueryResult r;
        r.mutable_stats()->set_example_count_for_logs(w->p[p].have);
        it->blob = r.SerializeAsString();
        if (it->blob.empty()) it->blob = std::string("\x12\x00", 2);
        it->n = 1;
      }
      int need = eqr ? 1 : std::min(w->p[p].min, w->p[p].have + 1);
      if (need > 0 && sim::Flip(kFault, w->p_prog)) {
        it->fail_at = Choose(kFault, need);
        static const StatusCode kD[] = {StatusCode::kInternal, StatusCode::kCancelled, StatusCode::kUnavailable};
        it->code = kD[Choose(kFault, 3)];
        if (it->fail_at == 0 && Choose(kFault, 2)) {
          s->exp.push_back({1000});
          sim::CountFault("example_store_error");
          da_failed.insert(p);
          return Status(it->code, "simulated");
        }
        da_failed.insert(p);
      }
      return it;
    }
    int task = -1, c = -1;
    for (size_t a = 0; a < w->t.size(); ++a)
      for (size_t b = 0; b < w->t[a].sel.size(); ++b)
        if (w->t[a].sel[b].uri == u && w->t[a].sel[b].src == 0) task = a, c = b;
    RCHECK("R04", task >= 0, "a collection nobody asked for was queried: %s", u.c_str());
    RCHECK("R04", sel.SerializeAsString() == Selector(task, c).SerializeAsString(),
           "a query of %s differs from the plan's", w->t[task].name.c_str());
    Run& r = s->runs[task];
    RCHECK("R04", r.assigned && !r.reported, "%s's examples were queried outside its computation",
           w->t[task].name.c_str());
    CheckContext(ctx, task);
    sim::Count("queries");
    it->task = task;
    it->i = c;
    it->n = w->t[task].sel[c].n;
    if (w->t[task].kind == kEq) {
      if (!r.started++) s->running = task;
      it->query = true;
      it->n = 1;
      auto q = QueryResult(task, c, s->no, nullptr);
      if (sim::Flip(kFault, w->p_prog)) {
        sim::CountFault("bad_query_result");
        r.bad_result = true;
        if (Choose(kFault, 2)) q.mutable_vector_data()->mutable_vectors()->erase("v0");
        else (*q.mutable_vector_data()->mutable_vectors())["v0"].Clear();
      }
      it->blob = q.SerializeAsString();
    }
    if (sim::Flip(kFault, w->p_prog)) {
      it->code = kC[Choose(kFault, 4)];
      if (Choose(kFault, 3) == 1) {
        sim::CountFault("example_store_error");
        r.bad_result = true;
        r.iter_err = it->code == StatusCode::kCancelled && w->t[task].kind != kEq ? 2 : 1;
        return Status(it->code, "simulated");
      }
      it->fail_at = Choose(kFault, it->n + (it->query ? 0 : 1));
    }
    r.queries.push_back({u, 0});
    return it;
  }
  bool OnTaskCompleted(const fcp::client::TaskResultInfo& r) override {
    sim::NoPreempt np;
    s->results.push_back(r.result());
    if (w->record && s->running >= 0) {
      Run& x = s->runs[s->running];
      std::multiset<std::string> got, want;
      for (const auto& q : r.example_iterator_queries().query())
        if (absl::StartsWith(q.collection_uri(), "app:"))
          got.insert(absl::StrCat(q.collection_uri(), " ", q.example_count()));
      for (auto& [u, n] : x.queries) want.insert(absl::StrCat(u, " ", n));
      RCHECK("R04", got == want, "the recorded queries of %s are not the ones made (%zu, %zu; first %s, %s)",
             w->t[s->running].name.c_str(), got.size(), want.size(), got.empty() ? "" : got.begin()->c_str(),
             want.empty() ? "" : want.begin()->c_str());
      RCHECK("R04", r.example_iterator_queries().selector_context().computation_properties().federated().task_name() ==
                        w->t[s->running].name,
             "recorded queries are attributed to another task");
      sim::Count("recorded_queries", got.size());
    }
    s->running = -1;
    return true;
  }
  std::set<int> da_failed;

 private:
  bool TrainingConditionsSatisfied() override {
    sim::NoPreempt np;
    if (sim::NowNs() < s->t_abort) return true;
    sim::tuning().p_time = 0;  // from now on, nobody is starved
    return false;
  }
};
Env* env;

struct Pub : fcp::client::EventPublisher {
  using sv = absl::string_view;
  using NS = const NetworkStats&;
  using ES = const ExampleStats&;
  using D = absl::Duration;
  void E(int k) {
    sim::NoPreempt np;
    s->pub.push_back(k);
    Sess& x = tr->s[s->no];
    if (x.n < 160) x.kind[x.n++] = k;
    sim::Event("published %d", k);
  }
  void PublishEligibilityEvalCheckin() override { E(1); }
  void PublishEligibilityEvalPlanUriReceived(NS, D) override { E(48); }
  void PublishEligibilityEvalPlanReceived(NS, D) override { E(4); }
  void PublishEligibilityEvalNotConfigured(NS, D) override { E(3); }
  void PublishEligibilityEvalRejected(NS, D) override { E(2); }
  void PublishCheckin() override { E(7); }
  void PublishCheckinFinished(NS, D) override { E(-1); }
  void PublishRejected() override { E(-2); }
  void PublishTensorFlowError(int, sv) override { E(-3); }
  void PublishIoError(sv) override { E(-4); }
  void PublishExampleSelectorError(int, sv) override { E(-5); }
  void PublishInterruption(ES, absl::Time) override { E(-6); }
  void PublishTaskNotStarted(sv) override { E(19); }
  void PublishNonfatalInitializationError(sv) override { E(50); }
  void PublishFatalInitializationError(sv) override { E(51); }
  void PublishEligibilityEvalCheckinIoError(sv, NS, D) override { E(20); }
  void PublishEligibilityEvalCheckinClientInterrupted(sv, NS, D) override { E(22); }
  void PublishEligibilityEvalCheckinServerAborted(sv, NS, D) override { E(23); }
  void PublishEligibilityEvalCheckinErrorInvalidPayload(sv, NS, D) override { E(21); }
  void PublishEligibilityEvalComputationStarted() override { E(5); }
  void PublishEligibilityEvalComputationInvalidArgument(sv, ES, D) override { E(30); }
  void PublishEligibilityEvalComputationIOError(sv, ES, D) override { E(29); }
  void PublishEligibilityEvalComputationExampleIteratorError(sv, ES, D) override { E(31); }
  void PublishEligibilityEvalComputationTensorflowError(sv, ES, D) override { E(28); }
  void PublishEligibilityEvalComputationInterrupted(sv, ES, D) override { E(32); }
  void PublishEligibilityEvalComputationErrorNonfatal(sv) override { E(1000); }
  void PublishEligibilityEvalComputationCompleted(ES, D) override { E(6); }
  void PublishMultipleTaskAssignmentsStarted() override { E(52); }
  void PublishMultipleTaskAssignmentsIOError(sv, NS, D) override { E(53); }
  void PublishMultipleTaskAssignmentsPayloadIOError(sv) override { E(54); }
  void PublishMultipleTaskAssignmentsInvalidPayload(sv) override { E(55); }
  void PublishMultipleTaskAssignmentsClientInterrupted(sv, NS, D) override { E(56); }
  void PublishMultipleTaskAssignmentsServerAborted(sv, NS, D) override { E(57); }
  void PublishMultipleTaskAssignmentsTurnedAway(NS, D) override { E(58); }
  void PublishMultipleTaskAssignmentsPlanUriReceived(NS, D) override { E(59); }
  void PublishMultipleTaskAssignmentsPlanUriPartialReceived(NS, D) override { E(60); }
  void PublishMultipleTaskAssignmentsPartialCompleted(NS, D) override { E(61); }
  void PublishMultipleTaskAssignmentsCompleted(NS, D) override { E(62); }
  void PublishCheckinIoError(sv, NS, D) override { E(24); }
  void PublishCheckinClientInterrupted(sv, NS, D) override { E(26); }
  void PublishCheckinServerAborted(sv, NS, D) override { E(27); }
  void PublishCheckinInvalidPayload(sv, NS, D) override { E(25); }
  void PublishRejected(NS, D) override { E(8); }
  void PublishCheckinPlanUriReceived(NS, D) override { E(49); }
  void PublishCheckinFinishedV2(NS, D) override { E(9); }
  void PublishComputationStarted() override { E(10); }
  void PublishComputationInvalidArgument(sv, ES, NS, D) override { E(35); }
  void PublishComputationIOError(sv, ES, NS, D) override { E(34); }
  void PublishComputationExampleIteratorError(sv, ES, NS, D) override { E(36); }
  void PublishComputationTensorflowError(sv, ES, NS, D) override { E(33); }
  void PublishComputationInterrupted(sv, ES, NS, D) override { E(37); }
  void PublishComputationCompleted(ES, NS, D) override { E(11); }
  void PublishResultUploadStarted() override { E(38); }
  void PublishResultUploadIOError(sv, NS, D) override { E(39); }
  void PublishResultUploadClientInterrupted(sv, NS, D) override { E(40); }
  void PublishResultUploadServerAborted(sv, NS, D) override { E(41); }
  void PublishResultUploadCompleted(NS, D) override { E(42); }
  void PublishFailureUploadStarted() override { E(43); }
  void PublishFailureUploadIOError(sv, NS, D) override { E(44); }
  void PublishFailureUploadClientInterrupted(sv, NS, D) override { E(45); }
  void PublishFailureUploadServerAborted(sv, NS, D) override { E(46); }
  void PublishFailureUploadCompleted(NS, D) override { E(47); }
  void SetModelIdentifier(const std::string&) override {}
  fcp::client::SecAggEventPublisher* secagg_event_publisher() override { return nullptr; }
};

struct LogM : fcp::client::LogManager {
  void LogDiag(fcp::client::ProdDiagCode) override {}
  void LogDiag(fcp::client::DebugDiagCode) override {}
  void LogToLongHistogram(fcp::client::HistogramCounters, int, int, fcp::client::engine::DataSourceType,
                          int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

// ---- eligibility: the reference evaluation -----------------------------------
// 1 eligible, 0 not, -1 not decided by the model (boundary, unknown history).
int Evaluate(int task) {
  const Task& t = w->t[task];
  int64_t now = sim::RealtimeNs();
  int verdict = 1;
  auto both = [&](int v) { verdict = v == 0 || verdict == 0 ? 0 : (v < 0 || verdict < 0 ? -1 : 1); };
  bool unknown = !tr->exact || s->disk || !w->big_ttl || !tr->s[s->no].db_ok;
  for (int pi : t.pol) {
    const Pol& p = w->p[pi];
    if (p.newer || p.type == 4) return 0;
    if (p.type == 0) {
      if (unknown) {
        both(-1);
        continue;
      }
      int64_t since = now - tr->trust;
      if (since < p.period - kSlack) {
        both(0);
        continue;
      }
      if (since < p.period + kSlack) both(-1);
      for (int i = 0; i < tr->nat; ++i) {
        const Attempt& a = tr->at[i];
        if (a.sess == s->no || tr->s[a.sess].t0 < tr->trust) continue;
        bool in = p.regex.empty() ? a.task == task : RE2::FullMatch(w->t[a.task].name, p.regex);
        if (!in) continue;
        int v = now - a.t > p.period + kSlack ? 1 : now - a.t > p.period - kSlack ? -1 : 0;
        if (a.aborted) v = a.crashed && v != 1 ? -1 : 1;
        if (!a.recorded && v == 0) v = -1;
        both(v);
      }
    } else if (p.type == 1) {
      both(env->da_failed.count(pi) ? -1 : p.have >= p.min);
    } else if (p.type == 2) {
      both(-1);
    } else if (p.type == 3) {
      if (unknown) {
        both(-1);
        continue;
      }
      if (w->trust_flag && p.trust) {
        int64_t since = now - tr->trust;
        if (since < p.trust - kSlack) both(0);
        else if (since < p.trust + kSlack) both(-1);
      }
      int64_t last = -1;
      int conf = 1;
      for (int i = 0; i < tr->nat; ++i) {
        const Attempt& a = tr->at[i];
        if (a.sess == s->no || a.task != task || tr->s[a.sess].t0 < tr->trust) continue;
        if (a.aborted && a.crashed) conf = -1;
        if (!a.recorded) conf = -1;
        if (!a.aborted) last = a.idx, conf = a.recorded ? 1 : -1;
      }
      if (conf < 0) both(-1);
      else if (last >= 0) both(MinSepIndex(s->no) - last > p.sep);
    }
  }
  return verdict;
}

PopulationEligibilitySpec Spec() {
  PopulationEligibilitySpec e;
  for (const Task& t : w->t) {
    auto* i = e.add_task_info();
    i->set_task_name(t.name);
    i->set_task_assignment_mode(t.multi ? PopulationEligibilitySpec::TaskInfo::TASK_ASSIGNMENT_MODE_MULTIPLE
                                        : PopulationEligibilitySpec::TaskInfo::TASK_ASSIGNMENT_MODE_SINGLE);
    for (int p : t.pol) i->add_eligibility_policy_indices(p);
  }
  for (size_t i = 0; i < w->p.size(); ++i) {
    const Pol& p = w->p[i];
    auto* x = e.add_eligibility_policies();
    x->set_name(absl::StrCat("p", i));
    x->set_min_version(p.newer ? 9 : 1);
    if (p.type == 0) {
      x->mutable_swor_policy()->mutable_min_period()->set_seconds(p.period / kSec);
      x->mutable_swor_policy()->set_group_regex(p.regex);
    } else if (p.type == 1) {
      auto* d = x->mutable_data_availability_policy();
      d->mutable_selector()->set_collection_uri(absl::StrCat("da:", i));
      *d->mutable_selector()->mutable_criteria() = TextAny(absl::StrCat("da", i));
      d->set_min_example_count(p.min);
      d->set_use_example_query_result_format(p.eqr);
    } else if (p.type == 2) {
      x->mutable_tf_custom_policy()->set_arguments("a");
    } else if (p.type == 3) {
      auto* m = x->mutable_min_sep_policy();
      m->set_current_index(MinSepIndex(s->no));
      m->set_minimum_separation(p.sep);
      m->mutable_min_trustworthiness_period()->set_seconds(p.trust / kSec);
    }
  }
  return e;
}

// ---- the server --------------------------------------------------------------
struct Server : FederatedProtocol {
  enum { kNew, kEetDone, kOver } st = kNew;
  int calls_multi = 0, calls_checkin = 0;
  bool busy = false;

  // One exchange: takes time, may fail, be interrupted, or outlive the process.
  // Returns the status the caller sees; *reached says whether the server acted.
  Status Exchange(const char* what, bool* reached, bool may_crash = true) {
    *reached = false;
    {
      sim::NoPreempt np;
      RCHECK("R01", !busy, "two server calls overlap");
      s->retry_no++;
      s->ns.bytes_downloaded += 100 + s->retry_no;
      s->ns.bytes_uploaded += 50 + s->retry_no;
      s->ns.network_duration += absl::Milliseconds(10);
    }
    int64_t d = sim::Flip(kTime, 0.3) ? sim::Range(kTime, 1, 20000) * 1000000ll : 5000000;
    if (sim::NowNs() + d > s->t_abort) {
      int64_t left = std::max<int64_t>(0, s->t_abort - sim::NowNs());
      sim::SleepNs(left + 1000000);
      if (Choose(kNet, 2)) *reached = true;
      sim::Count("interrupted_exchanges");
      return absl::CancelledError("interrupted");
    }
    if (may_crash && sim::Flip(kFault, w->p_crash)) {
      sim::CountFault("process_crash");
      if (Choose(kFault, 2)) {
        crash_pending = true;  // after the server has acted
      } else {
        sim::CrashHere();
      }
    }
    sim::SleepNs(d);
    if (sim::Flip(kNet, w->p_net)) {
      static const StatusCode kC[] = {StatusCode::kUnavailable, StatusCode::kAborted, StatusCode::kInternal,
                                      StatusCode::kNotFound, StatusCode::kDeadlineExceeded};
      StatusCode c = kC[Choose(kNet, 5)];
      if (c != StatusCode::kAborted && Choose(kNet, 2)) *reached = true;
      sim::CountFault("server_call_failed");
      return Status(c, "simulated");
    }
    *reached = true;
    return absl::OkStatus();
  }
  bool crash_pending = false;
  void MaybeCrash() {
    if (crash_pending) sim::CrashHere();
  }

  StatusOr<EligibilityEvalCheckinResult> EligibilityEvalCheckin(
      std::function<void(const EligibilityEvalTask&)> cb) override {
    RCHECK("R01", st == kNew, "the first check-in was made twice");
    st = kEetDone;
    Expect({1});
    bool reached;
    Status x = Exchange("eet", &reached);
    MaybeCrash();
    if (!x.ok()) {
      bool uri = reached && Choose(kNet, 2);
      if (uri) {
        EligibilityEvalTask t;
        t.execution_id = "e";
        cb(t);
        Expect({48});
      }
      Expect({x.code() == StatusCode::kAborted ? 23 : x.code() == StatusCode::kCancelled ? 22 : 20});
      st = kOver;
      return x;
    }
    int kind = Choose(kWork, 8);
    if (kind == 7) {
      Expect({2});
      st = kOver;
      return EligibilityEvalCheckinResult(Rejection{});
    }
    if (kind == 6) {
      Expect({3});
      s->eet_disabled = true;
      EligibilityEvalDisabled d;
      s->spec_known = Choose(kWork, 2);
      if (s->spec_known) d.population_eligibility_spec = Spec();
      return EligibilityEvalCheckinResult(d);
    }
    EligibilityEvalTask t;
    ClientOnlyPlan plan;
    plan.set_graph(absl::StrCat("E|", s->no));
    plan.mutable_phase()->mutable_tensorflow_spec()->set_dataset_token_tensor_name("tok");
    plan.mutable_phase()->mutable_tensorflow_spec()->add_input_tensor_specs()->set_name("in");
    plan.mutable_phase()->mutable_tensorflow_spec()->add_output_tensor_specs()->set_name("info");
    plan.mutable_phase()->mutable_federated_compute_eligibility()->set_input_filepath_tensor_name("in");
    plan.mutable_phase()->mutable_federated_compute_eligibility()->set_task_eligibility_info_tensor_name("info");
    bool bad = sim::Flip(kFault, w->p_prog);
    std::string bytes = bad ? std::string("\xff\xff\xff") : plan.SerializeAsString();
    if (Choose(kWork, 2)) t.payloads.plan = bytes;
    else t.payloads.plan = Cord(bytes);
    t.payloads.checkpoint = std::string("eet-checkpoint");
    t.execution_id = "e";
    int spec = Choose(kWork, 10);
    if (spec != 9) t.population_eligibility_spec = spec == 8 ? PopulationEligibilitySpec() : Spec();
    s->spec_known = spec < 8;
    s->no_spec = spec == 9;
    cb(t);
    Expect({48});
    if (bad) {
      sim::CountFault("unparseable_plan");
      Expect({21});
      eet_error_due = true;
    } else {
      s->eet_enabled = true;
      tr->s[s->no].eet = true;
      Expect({4});
      Expect({5});
    }
    return EligibilityEvalCheckinResult(t);
  }
  bool eet_error_due = false, eet_error = false;
  void ReportEligibilityEvalError(Status) override {
    sim::NoPreempt np;
    RCHECK("R01", st == kEetDone && !eet_error, "an eligibility error was reported out of turn");
    RCHECK("R01", eet_error_due || s->disk, "an eligibility error was reported though nothing failed");
    eet_error = true;
    eet_error_due = false;
    st = kOver;
    s->retry_no++;
  }

  void CheckDeclared(const std::string& name, float weight) {
    int task = -1;
    for (size_t i = 0; i < w->t.size(); ++i)
      if (w->t[i].name == name) task = i;
    RCHECK("R03", task >= 0, "an unknown task '%s' was declared", name.c_str());
    RCHECK("R03", !s->declared.count(task), "%s was declared twice", name.c_str());
    s->declared[task] = weight;
    if (!s->eet_enabled) return;
    // Never a second contribution within a sampling period.
    int64_t now = sim::RealtimeNs();
    if (weight > 0) {
      for (int pi : w->t[task].pol) {
        const Pol& p = w->p[pi];
        if (p.type != 0 || p.newer) continue;
        for (int i = 0; i < tr->nat; ++i) {
          const Attempt& a = tr->at[i];
          if (a.sess == s->no || !a.received || (!tr->s[a.sess].db_ok && !tr->s[a.sess].eet)) continue;
          bool in = p.regex.empty() ? a.task == task : RE2::FullMatch(w->t[a.task].name, p.regex);
          RCHECK("R03", !in || now - a.t > p.period - kSlack,
                 "%s was declared eligible %lld h after a contribution; the sampling period is %lld h", name.c_str(),
                 (long long)((now - a.t) / (3600 * kSec)), (long long)(p.period / (3600 * kSec)));
          if (in) sim::Count("past_contribution_considered");
        }
      }
    }
    int v = Evaluate(task);
    bool tf = false, tf_ok = true;
    for (int pi : w->t[task].pol)
      if (w->p[pi].type == 2 && !w->p[pi].newer) {
        tf = true;
        if (H({6, uint64_t(pi), sim::HashStr(name), uint64_t(s->no)}) % 3 == 0) tf_ok = false;
      }
    if (tf && !tf_ok) v = 0;
    if (v == 0) RCHECK("R03", weight == 0, "%s was declared eligible against its policies", name.c_str());
    if (v == 1)
      RCHECK("R03", weight > 0, "%s was declared ineligible though every policy admits it", name.c_str());
    sim::Count(v < 0 ? "eligibility_undecided" : v ? "eligible" : "ineligible");
  }
  void ExpectEetDone() {
    if (s->eet_enabled && !eet_seen) {
      eet_seen = true;
      Expect({6});
    }
  }
  bool eet_seen = false;

  TaskAssignment Assign(int task, bool multi) {
    const Task& t = w->t[task];
    TaskAssignment a;
    a.task_name = t.name;
    std::string bytes = t.kind == kBadPlan ? std::string("\xff\xff\xff") : Plan(task, s->no).SerializeAsString();
    if (t.kind == kBadPlan) sim::CountFault("unparseable_plan");
    if (t.cord) {
      a.payloads.plan = Cord(bytes);
      Cord c;
      std::string k = Checkpoint(task, s->no);
      for (size_t i = 0; i < k.size(); i += 4000) c.Append(k.substr(i, 4000));
      a.payloads.checkpoint = c;
    } else {
      a.payloads.plan = bytes;
      a.payloads.checkpoint = Checkpoint(task, s->no);
    }
    a.federated_select_uri_template = "https://slices.example/slices/{served_at_id}/{key_base10}";
    a.aggregation_session_id = absl::StrCat("agg", task, ".", s->no);
    if (t.secagg) a.sec_agg_info = SecAggInfo{.expected_number_of_clients = 50, .minimum_clients_in_server_visible_aggregate = 40 + task};
    if (t.conf) a.confidential_agg_info = ConfidentialAggInfo{Cord("policy")};
    Run r;
    r.task = task;
    r.multi = multi;
    r.assigned = t.kind != kBadPlan;
    r.ok_status = true;
    r.sid = a.aggregation_session_id;
    r.plan = bytes;
    sim::NoPreempt np;
    s->runs[task] = r;
    return a;
  }

  StatusOr<MultipleTaskAssignments> PerformMultipleTaskAssignments(const std::vector<std::string>& names,
                                                                  const std::function<void(size_t)>& cb) override {
    RCHECK("R01", st == kEetDone && !calls_multi++ && !calls_checkin, "tasks were requested out of turn");
    ExpectEetDone();
    Expect({52});
    {
      sim::NoPreempt np;
      std::set<std::string> seen;
      for (const auto& n : names) {
        bool known = false;
        for (const Task& t : w->t) known |= t.multi && t.name == n;
        RCHECK("R01", known && seen.insert(n).second, "'%s' was requested wrongly", n.c_str());
        if (s->eet_enabled) CheckDeclared(n, 1);
      }
      s->multi_declared = names;
      s->requested += names.size();
      if (s->eet_disabled)
        for (const Task& t : w->t)
          RCHECK("R01", !t.multi || seen.count(t.name), "%s was not requested", t.name.c_str());
      if (s->eet_enabled)
        for (size_t i = 0; i < w->t.size(); ++i)
          if (w->t[i].multi && !seen.count(w->t[i].name)) CheckDeclared(w->t[i].name, 0);
    }
    bool reached;
    Status x = Exchange("multi", &reached);
    MaybeCrash();
    if (!x.ok()) {
      if (reached && Choose(kNet, 2)) {
        size_t n = Choose(kNet, names.size() + 1);
        cb(n);
        Expect({n < names.size() ? 60 : 59});
      }
      Expect({x.code() == StatusCode::kAborted ? 57 : x.code() == StatusCode::kCancelled ? 56 : 53});
      return x;
    }
    MultipleTaskAssignments m;
    std::vector<int> given;
    for (const auto& n : names)
      if (!sim::Flip(kWork, 0.15))
        for (size_t i = 0; i < w->t.size(); ++i)
          if (w->t[i].name == n) given.push_back(i);
    if (given.empty()) {
      Expect({58});
      return m;
    }
    cb(given.size());
    Expect({given.size() < names.size() ? 60 : 59});
    std::map<std::string, int> order;
    bool partial = false;
    for (int i : given) {
      if (sim::Flip(kNet, w->p_net)) {
        m.task_assignments[w->t[i].name] = absl::UnavailableError("payload");
        sim::CountFault("payload_failed");
        order[w->t[i].name] = 54;
        partial = true;
      } else {
        m.task_assignments[w->t[i].name] = Assign(i, true);
        if (w->t[i].kind == kBadPlan) {
          order[w->t[i].name] = 55;
          partial = true;
        }
      }
    }
    for (auto& [n, k] : order) Expect({k});
    Expect({partial ? 61 : 62});
    return m;
  }

  StatusOr<CheckinResult> Checkin(const std::optional<TaskEligibilityInfo>& info,
                                  std::function<void(const TaskAssignment&)> cb) override {
    RCHECK("R01", st == kEetDone && !calls_checkin++, "the second check-in was made out of turn");
    ExpectEetDone();
    Expect({7});
    std::vector<int> choice;
    {
      sim::NoPreempt np;
      s->requested++;
      RCHECK("R01", !s->eet_disabled || !info.has_value(), "eligibility was declared without an eligibility task");
      RCHECK("R01", !s->eet_enabled || info.has_value(),
             "the second check-in of a population with an eligibility task declares no eligibility");
      if (info.has_value()) {
        for (const auto& tw : info->task_weights()) {
          bool multi = false;
          for (const Task& t : w->t) multi |= t.multi && t.name == tw.task_name();
          if (multi) {
            RCHECK("R01", tw.weight() == 0 && (calls_multi || true), "%s was offered for single assignment",
                   tw.task_name().c_str());
            if (!calls_multi) CheckDeclared(tw.task_name(), 0);
          } else {
            CheckDeclared(tw.task_name(), tw.weight());
          }
        }
        for (size_t i = 0; i < w->t.size() && s->spec_known; ++i)
          RCHECK("R03", w->t[i].multi || s->declared.count(i), "%s was left out of the eligibility declared",
                 w->t[i].name.c_str());
      }
      for (size_t i = 0; i < w->t.size(); ++i)
        if (!w->t[i].multi && (!info.has_value() || s->declared[i] > 0)) choice.push_back(i);
    }
    bool reached;
    Status x = Exchange("checkin", &reached);
    MaybeCrash();
    if (!x.ok()) {
      if (reached && !choice.empty() && Choose(kNet, 2)) {
        TaskAssignment a;
        a.task_name = w->t[choice[0]].name;
        cb(a);
        Expect({49});
      }
      Expect({x.code() == StatusCode::kAborted ? 27 : x.code() == StatusCode::kCancelled ? 26 : 24});
      return x;
    }
    if (choice.empty() || sim::Flip(kWork, 0.1)) {
      Expect({8});
      return CheckinResult(Rejection{});
    }
    int task = choice[Choose(kWork, choice.size())];
    TaskAssignment a = Assign(task, false);
    cb(a);
    Expect({49});
    Expect({w->t[task].kind == kBadPlan ? 25 : 9});
    return CheckinResult(a);
  }

  Run& Find(const std::optional<std::string>& sid, const char* what) {
    for (auto& [k, r] : s->runs)
      if (r.assigned && (r.multi ? sid.has_value() && r.sid == *sid : !sid.has_value())) {
        RCHECK("R01", !r.reported, "%s was reported twice", w->t[k].name.c_str());
        r.reported = true;
        return r;
      }
    sim::Violation("R01", "%s was reported for a session nobody was assigned to", what);
  }
  static void Why(const Run& r, std::set<int>* kinds, bool* may_complete, bool* must_complete) {
    const Task& t = w->t[r.task];
    bool lw_quirk = !w->untie && w->lw && t.kind != kEq;
    bool late = sim::NowNs() >= s->t_abort;
    bool lite = t.kind == kLite && w->tflite;
    if (t.kind == kBadGraph && !lite) *kinds = {33};
    else if (t.kind == kBadSpec) *kinds = {35};
    else if (t.kind == kEq) {
      bool unsup = false;
      if (w->lw)
        for (size_t i = 0; i < t.sel.size(); ++i)
          for (int o = 0; o < NumVec(r.task); ++o) unsup |= VecType(r.task, i, o) == 3 || VecType(r.task, i, o) == 6;
      *kinds = r.iter_err || r.bad_result || unsup ? std::set<int>{36} : std::set<int>{11};
    } else {
      bool badtype = false;
      for (const Out& o : t.out) badtype |= !kBits[o.type];
      if (r.interrupted) *kinds = {37};
      else if (r.iter_err == 2) *kinds = {37};
      else if (r.iter_err == 1) *kinds = {36};
      else if (r.tf_error || r.out_of_range) *kinds = {33};
      else if (badtype || lw_quirk) *kinds = {33};
      else *kinds = {11};
      if (late && !lite) kinds->insert(37);
      if (late) kinds->insert(36);
    }
    *may_complete = kinds->count(11);
    *must_complete = kinds->size() == 1 && *may_complete;
  }

  Status Report(const std::optional<std::string>& sid, bool completed, const ComputationResults* results) {
    Run* r;
    std::set<int> kinds;
    bool may, must;
    Attempt* at = nullptr;
    {
      sim::NoPreempt np;
      r = &Find(sid, completed ? "a result" : "a failure");
      const Task& t = w->t[r->task];
      Why(*r, &kinds, &may, &must);
      tr->s[s->no].ran[r->task] = true;
      r->completed = completed;
      if (completed) {
        RCHECK("R01", may, "a result of %s was uploaded though its computation failed or was interrupted",
               t.name.c_str());
        if (kinds.size() > 1) kinds = {11};
        CheckResults(*r, *results);
        if (tr->nat < 64) {
          at = &tr->at[tr->nat++];
          *at = Attempt{};
          at->task = r->task;
          at->sess = s->no;
          at->t = sim::RealtimeNs();
          at->idx = MinSepIndex(s->no);
          at->crashed = true;  // until the session ends
          at->recorded = tr->s[s->no].db_ok;
          std::set<std::string> acc;
          for (auto& [u, n] : r->queries) acc.insert(u);
          for (auto& u : acc)
            if (at->nacc < 4) snprintf(at->acc[at->nacc++], 24, "%s", u.c_str());
        }
        s->exp.push_back({10});
        s->exp.push_back(kinds);
        s->exp.push_back({38});
      } else {
        RCHECK("R01", !must || s->disk, "a failure of %s was reported though its computation succeeded",
               t.name.c_str());
        kinds.erase(11);
        if (s->disk) kinds = {33, 34, 35, 36, 37};
        s->exp.push_back({10});
        s->exp.push_back(kinds);
        s->exp.push_back({43});
      }
      sim::Count(completed ? "results_uploaded" : "failures_reported");
    }
    bool reached;
    Status x = Exchange("report", &reached);
    {
      sim::NoPreempt np;
      if (at && reached) at->received = true;
    }
    MaybeCrash();
    sim::NoPreempt np;
    if (x.ok()) r->accepted = completed;
    if (at && x.code() == StatusCode::kAborted) at->aborted = true;
    int base = completed ? 39 : 44;
    s->exp.push_back({x.ok() ? base + 3
                      : x.code() == StatusCode::kAborted ? base + 2
                      : x.code() == StatusCode::kCancelled ? base + 1 : base});
    if (x.ok() && completed) s->contributed.push_back(w->t[r->task].name);
    s->running = r->task;
    s->odd.push_back("");
    return x;
  }
  Status ReportCompleted(ComputationResults results, absl::Duration, std::optional<std::string> sid) override {
    return Report(sid, true, &results);
  }
  Status ReportNotCompleted(fcp::client::engine::PhaseOutcome o, absl::Duration,
                            std::optional<std::string> sid) override {
    RCHECK("R01", o == fcp::client::engine::PhaseOutcome::ERROR, "a failure was reported as another outcome");
    return Report(sid, false, nullptr);
  }

  void CheckResults(const Run& r, const ComputationResults& got) {
    const Task& t = w->t[r.task];
    std::map<std::string, std::string> want, have;
    if (t.kind == kEq) {
      std::map<std::string, std::string> sl;
      for (size_t i = 0; i < t.sel.size(); ++i) QueryResult(r.task, i, s->no, &sl);
      std::string all = tensorflow::checkpoint::TensorSliceWriter::Contents(sl);
      if (w->lw) want["federated_compute_checkpoint"] = "c:report" + all.substr(6);
      else want["tensorflow_checkpoint"] = "s:" + all;
    } else {
      uint64_t h = sim::HashStr(Graph(r.task, s->no));
      h = sim::Mix(h, sim::HashStr(Checkpoint(r.task, s->no)));
      for (size_t i = 0; i < t.sel.size(); ++i) {
        if (t.sel[i].src == 2) continue;
        uint64_t sum = 0;
        for (int k = 0; k < t.sel[i].n; ++k) {
          std::string d = t.sel[i].src == 0
                              ? Example(r.task, i, k, s->no)
                              : Slice(absl::StrCat("/slices/served", t.sel[i].crit, "/",
                                                   int(H({uint64_t(r.task), uint64_t(i), uint64_t(k)}) % 7) - 1),
                                      s->no);
          sum += sim::HashStr(d, t.readers2 ? 11 : 11 + k);
        }
        h = sim::Mix(h, sum);
      }
      if (t.outfile) want["tensorflow_checkpoint"] = "s:" + OutBytes(h);
      for (size_t o = 0; o < t.out.size(); ++o) {
        std::string v = absl::StrCat("q", kBits[t.out[o].type], "/", t.out[o].n, ":");
        for (int i = 0; i < t.out[o].n; ++i) absl::StrAppend(&v, Value(h, o, i, kBits[t.out[o].type]), ",");
        want[absl::StrCat("o", o)] = v;
      }
    }
    for (const auto& [k, v] : got) {
      if (auto* a = std::get_if<std::string>(&v)) have[k] = "s:" + *a;
      else if (auto* c = std::get_if<Cord>(&v)) have[k] = "c:" + std::string(*c);
      else {
        const QuantizedTensor& q = std::get<QuantizedTensor>(v);
        std::string x = absl::StrCat("q", q.bitwidth);
        for (auto d : q.dimensions) absl::StrAppend(&x, "/", d);
        x += ":";
        for (auto d : q.values) absl::StrAppend(&x, d, ",");
        have[k] = x;
      }
    }
    if (have != want) {
      std::string why;
      for (auto& [k, v] : want)
        if (!have.count(k)) why = k + " missing";
        else if (have[k] != v) why = absl::StrCat(k, " has ", have[k].size(), " bytes for ", v.size(), " or others");
      for (auto& [k, v] : have)
        if (!want.count(k)) why = k + " added";
      sim::Violation("R01", "what was uploaded for %s is not its result: %s", t.name.c_str(), why.c_str());
    }
  }

  RetryWindow GetLatestRetryWindow() override {
    sim::NoPreempt np;
    RetryWindow r;
    r.set_retry_token(absl::StrCat("token", s->no, ".", s->retry_no));
    r.mutable_delay_min()->set_seconds(100 + s->retry_no);
    r.mutable_delay_max()->set_seconds(200 + s->retry_no);
    return r;
  }
  NetworkStats GetNetworkStats() override {
    sim::NoPreempt np;
    return s->ns;
  }
};

// ---- a session as one process --------------------------------------------------
void Session(int no) {
  S state;
  s = &state;
  s->no = no;
  bool faults = w->faulty_disk && Choose(kFault, 2);
  s->disk = faults || tr->lost;  // what the history holds is uncertain
  Sess& rec = tr->s[no];
  rec.t0 = sim::RealtimeNs();
  if (sim::Flip(kTime, w->p_abort)) s->t_abort = sim::NowNs() + sim::Range(kTime, 0, 60000) * 1000000ll;
  if (s->t_abort != INT64_MAX && !strcmp(sim::Property(), "R06")) sim::tuning().p_time = 0;
  LogM log;
  Pub pub;
  Env e;
  env = &e;
  net::Client http;
  http.prop = "R05";
  s->http = &http;
  http.f.lost_request = http.f.lost_response = http.f.body_error = http.f.truncate = http.f.http_error = w->p_net / 3;
  http.f.hang = w->p_net / 4;
  http.f.slow = w->p_net;
  http.classify = [](net::Ex&) {};
  http.serve = [](net::Ex& x) {
    sim::NoPreempt np;
    RCHECK("R05", x.host == "slices.example" && absl::StartsWith(x.path, "/slices/served"),
           "a slice was asked for at %s", x.uri.c_str());
    x.rbody = Slice(x.path, s->no);
  };
  if (faults) {
    tr->exact = false;
    auto& f = sim::fs();
    f.enabled = true;
    f.p_error = 0.02;
    f.p_short = 0.05;
    f.p_meta_error = 0.01;
    f.disk_full = Choose(kFault, 6) == 5;
  }
  {
    auto opstats = fcp::client::engine::CreateOpStatsLogger(kBase, w, &log, absl::StrCat("session", no), kPop);
    rec.db_ok = opstats->GetInitStatus().ok();
    if (!s->disk) RCHECK("R02", rec.db_ok, "the history could not be opened on a healthy disk");
    if (!tr->trust && rec.db_ok) tr->trust = rec.t0;
    if (tr->lost && rec.db_ok) {
      tr->trust = rec.t0;
      tr->lost = false;
    }
    fcp::client::PhaseLoggerImpl phase(&pub, opstats.get(), &log, w);
    if (!rec.db_ok) {
      phase.LogNonfatalInitializationError(opstats->GetInitStatus());
      Expect({50});
    } else if (Choose(kWork, 8) == 7) {
      phase.LogNonfatalInitializationError(absl::InternalError("cache"));
      Expect({50});
    }
    auto files = fcp::client::cache::TempFiles::Create(kCache, &log);
    if (!files.ok()) {
      RCHECK("R02", s->disk, "the temporary files could not be set up on a healthy disk");
      return;
    }
    fcp::client::InterruptibleRunner::TimingConfig timing = {
        .polling_period = absl::Milliseconds(w->poll_ms),
        .graceful_shutdown_period = absl::Milliseconds(60000),
        .extended_shutdown_period = absl::Milliseconds(120000)};
    auto should_abort = [&]() { return e.ShouldAbort(absl::Now(), timing.polling_period); };
    std::unique_ptr<fcp::client::FederatedSelectManager> fsm;
    if (w->fsel)
      fsm = std::make_unique<fcp::client::HttpFederatedSelectManager>(&log, files->get(), &http, should_abort, timing);
    else
      fsm = std::make_unique<fcp::client::DisabledFederatedSelectManager>(&log);
    Server server;
    StatusOr<fcp::client::FLRunnerResult> res = fcp::client::RunFederatedComputation(
        &e, phase, &pub, files->get(), &log, opstats.get(), w, &server, fsm.get(), timing, absl::Now(),
        absl::StrCat("session", no), kPop, *fcp::Clock::RealClock());
    sim::NoPreempt np;
    sim::Count("sessions");
    RCHECK("R01", res.ok(), "the session ended with an error");
    // What the caller is told.
    std::vector<std::string> told(res->contributed_task_names().begin(), res->contributed_task_names().end());
    RCHECK("R01", told == s->contributed, "%zu contributed tasks were reported to the caller, %zu contributed",
           told.size(), s->contributed.size());
    auto want = s->contributed.empty() ? fcp::client::FLRunnerResult::FAIL
                : (int)s->contributed.size() == s->requested ? fcp::client::FLRunnerResult::SUCCESS
                                                             : fcp::client::FLRunnerResult::PARTIAL;
    RCHECK("R01", res->contribution_result() == want, "%zu of %d tasks contributed and the caller was told %d",
           s->contributed.size(), s->requested, (int)res->contribution_result());
    RetryWindow rw = server.GetLatestRetryWindow();
    RCHECK("R01", res->retry_info().retry_token() == rw.retry_token() &&
                      res->retry_info().minimum_delay().seconds() == rw.delay_min().seconds(),
           "the caller got the retry window '%s', the latest is '%s'", res->retry_info().retry_token().c_str(),
           rw.retry_token().c_str());
    size_t yes = std::count(s->results.begin(), s->results.end(), true);
    RCHECK("R01", yes == s->contributed.size(), "%zu tasks were completed for the environment, %zu contributed", yes,
           s->contributed.size());
    for (auto& [k, r] : s->runs)
      RCHECK("R01", !r.assigned || r.reported || s->disk, "%s was assigned and never reported",
             w->t[k].name.c_str());
    RCHECK("R01", !server.eet_error_due, "an unusable eligibility task was not reported");
    // A population whose every task is assigned in groups makes no second check-in.
    if (s->pub.empty() || s->pub.back() != 19) {
      if (s->eet_enabled && !server.eet_error) {
        server.ExpectEetDone();
        bool single = s->no_spec;
        for (size_t i = 0; i < w->t.size() && s->spec_known; ++i) single |= !w->t[i].multi;
        RCHECK("R01", single == (server.calls_checkin == 1), "the second check-in was %s",
               single ? "left out" : "made for nothing");
      }
    } else {
      s->exp.clear();
      Expect({19});
      RCHECK("R06", sim::NowNs() >= s->t_abort, "the session was not started though the device conditions hold");
    }
    if (!s->disk) {
      std::vector<int> p;
      for (int k : s->pub)
        if (k >= 0 && !(k == 1000 && s->t_abort <= sim::NowNs() && p.size() < s->exp.size() &&
                        !s->exp[p.size()].count(k)))
          p.push_back(k);
      if (p.size() && p[0] == 50 && s->exp.size() == 1 && *s->exp[0].begin() == 19) s->exp.insert(s->exp.begin(), {50});
      for (size_t i = 0; i < std::max(p.size(), s->exp.size()); ++i)
        RCHECK("R02", i < p.size() && i < s->exp.size() && s->exp[i].count(p[i]),
               "event %zu of the session is %d where %d happened", i, i < p.size() ? p[i] : -1,
               i < s->exp.size() ? *s->exp[i].begin() : -1);
    }
    for (int i = 0; i < tr->nat; ++i)
      if (tr->at[i].sess == no) tr->at[i].crashed = false;
    NetworkStats total = s->ns + fsm->GetNetworkStats();
    rec.retry_no = s->retry_no;
    rec.down = total.bytes_downloaded;
    rec.up = total.bytes_uploaded;
    snprintf(rec.retry, sizeof rec.retry, "%s", rw.retry_token().c_str());
    rec.ended = true;
  }
  sim::fs().enabled = false;
}

// ---- reading the stored history back -------------------------------------------
void Verify(int no) {
  LogM log;
  const Sess& rec = tr->s[no];
  auto db = fcp::client::opstats::PdsBackedOpStatsDb::Create(kBase, absl::Hours(24 * w->opstats_ttl_days()), log,
                                                             w->opstats_db_size_limit_bytes());
  RCHECK("R02", db.ok(), "the history cannot be opened after session %d", no);
  auto data = (*db)->Read();
  if (!data.ok() && !tr->exact) data = (*db)->Read();  // damaged, starts afresh
  RCHECK("R02", data.ok(), "the history cannot be read after session %d", no);
  int64_t trust = TimeUtil::TimestampToNanoseconds(data->earliest_trustworthy_time());
  const OperationalStats* mine = nullptr;
  int found = 0;
  for (const auto& o : data->opstats())
    if (o.session_name() == absl::StrCat("session", no)) mine = &o, found++;
  RCHECK("R02", found <= 1, "session %d is stored %d times", no, found);
  bool fault = !tr->exact;
  // Every attempt to upload a result is on record, whatever happened later.
  for (int i = 0; i < tr->nat; ++i) {
    const Attempt& a = tr->at[i];
    if (a.sess != no || !a.recorded) continue;
    bool seen = false;
    if (mine) {
      std::string cur = mine->task_name();
      auto scan = [&](const google::protobuf::RepeatedPtrField<Ev>& evs) {
        for (const auto& x : evs)
          if (x.event_type() == Ev::EVENT_KIND_RESULT_UPLOAD_STARTED && cur == w->t[a.task].name) {
            int64_t d = TimeUtil::TimestampToNanoseconds(x.timestamp()) - a.t;
            if (d < kSlack && d > -kSlack) seen = true;
          }
      };
      scan(mine->events());
      for (const auto& ps : mine->phase_stats()) {
        if (!ps.task_name().empty()) cur = ps.task_name();
        scan(ps.events());
      }
    }
    RCHECK("R02", seen || trust > a.t - kSlack, "the upload of %s in session %d is not on record",
           w->t[a.task].name.c_str(), no);
    sim::Count("recorded_attempts");
  }
  if (!rec.db_ok || fault) return;
  std::vector<int> got, want;
  auto scan = [&](const google::protobuf::RepeatedPtrField<Ev>& evs) {
    for (const auto& x : evs) got.push_back(x.event_type());
  };
  if (mine) {
    scan(mine->events());
    for (const auto& ps : mine->phase_stats()) scan(ps.events());
  }
  for (int i = 0; i < rec.n; ++i)
    if (rec.kind[i] > 0 && rec.kind[i] < 1000) want.push_back(rec.kind[i]);
  if (!rec.ended) {
    // Interrupted by a crash: a prefix is on record.
    if (got.size() < want.size()) want.resize(got.size());
  }
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i)
    RCHECK("R02", i < got.size() && i < want.size() && got[i] == want[i],
           "event %zu of session %d is stored as %d and was published as %d", i, no,
           i < got.size() ? got[i] : -1, i < want.size() ? want[i] : -1);
  if (!rec.ended || !mine) return;
  sim::Count("histories_checked");
  RCHECK("R02", mine->population_name() == kPop, "session %d is stored under another population", no);
  RCHECK("R02", mine->retry_window().delay_min().seconds() == 100 + rec.retry_no &&
                    mine->retry_window().delay_max().seconds() == 200 + rec.retry_no,
         "session %d is stored with the retry window of %lld s, the latest began after %lld s", no,
         (long long)mine->retry_window().delay_min().seconds(), (long long)(100 + rec.retry_no));
  int64_t down = 0, up = 0;
  if (!w->phase) {
    down = mine->chunking_layer_bytes_downloaded();
    up = mine->chunking_layer_bytes_uploaded();
  }
  std::map<std::string, std::pair<int64_t, int64_t>> ds;
  auto stats = [&](const google::protobuf::Map<std::string, OperationalStats::DatasetStats>& m) {
    for (const auto& [u, x] : m) {
      ds[u].first += x.num_examples_read();
      ds[u].second += x.num_bytes_read();
    }
  };
  stats(mine->dataset_stats());
  for (const auto& ps : mine->phase_stats()) {
    down += ps.bytes_downloaded();
    up += ps.bytes_uploaded();
    stats(ps.dataset_stats());
  }
  if (w->phase) {  // with phases, the total includes what no phase accounts for
    RCHECK("R02", down <= rec.down && up <= rec.up, "the phases of session %d account for more bytes than were moved", no);
    if (mine->chunking_layer_bytes_downloaded() > down) down = mine->chunking_layer_bytes_downloaded();
    if (mine->chunking_layer_bytes_uploaded() > up) up = mine->chunking_layer_bytes_uploaded();
  }
  RCHECK("R02", down == rec.down && up == rec.up,
         "session %d transferred %lld and %lld bytes and is stored with %lld and %lld", no, (long long)rec.down,
         (long long)rec.up, (long long)down, (long long)up);
  for (size_t t = 0; t < w->t.size(); ++t)
    for (size_t i = 0; i < w->t[t].sel.size(); ++i) {
      if (w->t[t].sel[i].src != 0) continue;
      auto it = ds.find(w->t[t].sel[i].uri);
      int64_t n = it == ds.end() ? 0 : it->second.first, b = it == ds.end() ? 0 : it->second.second;
      RCHECK("R04", n == rec.ds_n[t][i] && b == rec.ds_b[t][i],
             "%lld examples and %lld bytes of %s are on record, %lld and %lld were read", (long long)n, (long long)b,
             w->t[t].sel[i].uri.c_str(), (long long)rec.ds_n[t][i], (long long)rec.ds_b[t][i]);
      if (n) sim::Count("dataset_stats_checked");
    }
}

void Damage() {
  std::string f = absl::StrCat(kBase, "/", fcp::client::opstats::PdsBackedOpStatsDb::kParentDir, "/",
                               fcp::client::opstats::PdsBackedOpStatsDb::kDbFileName);
  bool ok;
  std::string d = ReadAll(f, &ok);
  if (!ok || d.empty()) return;
  sim::CountFault("history_damaged");
  if (Choose(kFault, 2) == 0) {
    unlink(f.c_str());
  } else {  // no longer a message
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o << std::string(1 + Choose(kFault, d.size()), '\xff');
  }
  tr->lost = true;
  tr->exact = false;
}

void MakeWorld() {
  w = new World;
  const std::string prop = sim::Property();
  auto coin = [](int n) { return sim::ConfigChoose(n) == 0; };
  w->lw = coin(2);
  w->untie = coin(2);
  w->record = coin(2);
  w->cid = coin(2);
  w->lcid = coin(2);
  w->fsel = !coin(4);
  w->eqr_flag = coin(2);
  w->trust_flag = coin(2);
  w->conf_ctx = coin(2);
  w->tflite = coin(2);
  w->big_ttl = !coin(4);
  w->poll_ms = coin(2) ? 1000 : 200;
  static const double kP[] = {0, 0.02, 0.08, 0.2};
  w->p_net = kP[sim::ConfigChoose(4)];
  w->p_prog = kP[sim::ConfigChoose(4)];
  w->p_crash = coin(2) ? 0 : 0.06;
  w->p_abort = prop == "R06" ? 0.7 : coin(2) ? 0 : 0.3;
  w->faulty_disk = coin(3);
  int np = Choose(kWork, kMaxPol + 1);
  int nt = 1 + Choose(kWork, kMaxTasks);
  bool any_multi = false;
  for (int i = 0; i < np; ++i) {
    Pol p;
    p.type = Choose(kWork, 5);
    p.newer = Choose(kWork, 10) == 9;
    p.period = (1 + Choose(kWork, 10)) * kDay;
    static const char* kRe[] = {"", "", "g0/.*", "g1/.*", "g[01]/t[02]", "(unclosed"};
    p.regex = kRe[Choose(kWork, 5)];
    p.min = Choose(kWork, 4);
    p.have = Choose(kWork, 5);
    p.eqr = Choose(kWork, 2);
    p.sep = Choose(kWork, 4);
    p.trust = Choose(kWork, 3) * 2 * kDay;
    if (p.type == 4 && Choose(kWork, 3)) p.type = 0;
    w->p.push_back(p);
  }
  for (int i = 0; i < nt; ++i) {
    Task t;
    t.name = absl::StrCat("g", Choose(kWork, 2), "/t", i);
    static const Kind kK[] = {kTf, kTf, kEq, kLite, kEq, kTf, kTf, kBadPlan, kBadGraph, kBadSpec};
    t.kind = kK[Choose(kWork, 10)];
    t.multi = Choose(kWork, 2);
    any_multi |= t.multi;
    t.cord = Choose(kWork, 2);
    t.conf = Choose(kWork, 4) == 3;
    t.ckpt = Choose(kWork, 8);
    t.readers2 = Choose(kWork, 4) == 3;
    for (int p = 0; p < np; ++p) {
      if (w->p[p].type == 3 && t.multi) continue;
      if (Choose(kWork, 2)) t.pol.push_back(p);
    }
    int ns = Choose(kWork, 4);
    if (t.kind == kEq) ns = 1 + Choose(kWork, 2);
    for (int k = 0; k < ns; ++k) {
      Sel x;
      x.src = t.kind == kEq ? 0 : std::max<int>(0, (int)Choose(kWork, 5) - 2);
      if (prop == "R05" && t.kind != kEq && Choose(kWork, 2)) x.src = 1;
      if (x.src == 1 && !w->fsel) x.src = 0;
      x.uri = x.src == 0 ? CollUri(i, k) : x.src == 1 ? fcp::client::kFederatedSelectCollectionUri
                                                      : fcp::client::opstats::kOpStatsCollectionUri;
      x.n = Choose(kWork, 5);
      x.crit = Choose(kWork, 3);
      x.last = Choose(kWork, 2);
      t.sel.push_back(x);
    }
    if (t.kind == kEq) {
      int no = 1 + Choose(kWork, 3);
      for (int o = 0; o < no; ++o) t.out.push_back({1 + (int)Choose(kWork, 7), 0});
    } else {
      t.outfile = Choose(kWork, 3) != 2;
      int no = t.outfile ? Choose(kWork, 3) : 1 + Choose(kWork, 2);
      for (int o = 0; o < no; ++o)
        t.out.push_back({Choose(kWork, 12) == 11 ? 6 : (int)Choose(kWork, 6), (int)Choose(kWork, 4)});
      t.secagg = !t.outfile && Choose(kWork, 4);
    }
    w->t.push_back(t);
  }
  w->phase = any_multi || coin(2);
}

void Main() {
  sim::SwarmTuning(sim::ConfigChoose(3) == 0);
  sim::tuning().max_steps = 400000;
  sim::FsSetRoot("/simfs");
  tr = static_cast<Truth*>(sim::SharedAlloc(sizeof(Truth)));
  tr->exact = true;
  MakeWorld();
  int sessions = 1 + Choose(kWork, kMaxSess);
  for (int no = 0; no < sessions; ++no) {
    if (no > 0) {
      int64_t gap = Choose(kTime, 3) == 0 ? sim::Range(kTime, 1, 20) * 3600 * kSec : sim::Range(kTime, 1, 9) * kDay;
      sim::AdvanceNs(gap);
      if (w->faulty_disk && Choose(kFault, 8) == 7) Damage();
    }
    bool ended = sim::RunIncarnation([&] { Session(no); });
    sim::Count(ended ? "sessions_ended" : "sessions_crashed");
    sim::RunIncarnation([&] { Verify(no); });
  }
}
}  // namespace run

namespace tensorflow {
absl::Status NewSession(const SessionOptions&, Session** out) {
  *out = new run::SimSession;
  return absl::OkStatus();
}
}  // namespace tensorflow

namespace fcp::client::engine {
// Stand-in for the TFLite engine: the same simulated computations.
PlanResult TfLitePlanEngine::RunPlan(const google::internal::federated::plan::TensorflowSpec& spec,
                                     const std::string& model,
                                     std::unique_ptr<absl::flat_hash_map<std::string, std::string>> inputs,
                                     const std::vector<std::string>& output_names) {
  std::atomic<int> n = 0;
  std::atomic<int64_t> b = 0;
  ExampleIteratorStatus st;
  HostObjectRegistration reg = AddDatasetTokenToInputsForTfLite(
      example_iterator_factories_, opstats_logger_, example_iterator_query_recorder_, inputs.get(),
      spec.dataset_token_tensor_name(), &n, &b, &st);
  std::map<std::string, std::string> in(inputs->begin(), inputs->end());
  for (const auto& [k, v] : spec.constant_inputs()) in[k] = v.string_val(0);
  run::Closed c;
  std::vector<tensorflow::Tensor> out;
  absl::Status s = run::Program(model, in, &c, [] { return false; }, output_names, &out);
  if (!s.ok()) return CreateComputationErrorPlanResult(st.GetStatus(), s);
  PlanResult r(PlanOutcome::kSuccess, absl::OkStatus());
  r.output_names = output_names;
  r.output_tensors = std::move(out);
  return r;
}
}  // namespace fcp::client::engine
