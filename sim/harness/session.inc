// A whole session with the task service: a simulated service that issues every
// id, token, host and header itself, and a reference model that replays each
// API call over the exchanges the transport saw.
namespace ses {
namespace v1 = google::internal::federatedcompute::v1;
namespace cc = fcp::confidential_compute;
using Code = absl::StatusCode;
using google::longrunning::Operation;
using net::Ex;
using FP = FederatedProtocol;

enum Kind { kEet, kEetReport, kStart, kMulti, kTaskReport, kPoll, kCancel, kStartUp, kUpload,
            kSubmit, kAbort, kSecStart, kFetch, kAdvertise, kShareKeys, kMasked, kPlain, kUnmask,
            kKinds };
const char* kKindName[] = {"eligibility task request", "eligibility result report", "assignment start",
                           "multiple assignment", "task result report", "operation poll",
                           "operation cancel", "upload start", "upload", "submit", "abort",
                           "secure aggregation start", "resource download", "key advertisement",
                           "key shares", "masked result upload", "checkpoint upload", "unmasking response"};

struct ResSpec {
  int id = -1;
  enum { kUnset, kInline, kBadFormat, kUri, kEmptyUri } kind = kUnset;
  bool gz = false, corrupt = false;
  std::string plain, wire, uri, cache_id;
};

struct Reply {
  bool garbage = false;
  int eet_kind = 0;  // 0 rejection, 1 task, 2 none configured, 3 unrecognised
  bool no_fwd = false, has_spec = false, spec_garbage = false;
  int policies = 0;
  ResSpec spec, plan, ckpt;
  std::string exec_id;
  bool done = false, bad_name = false;
  int64_t interval = 0;
  int err = 0;
  int inner = 0;  // 0 as it should be, 1 other type, 2 rejection, 3 unrecognised
  int task = -1;
  std::vector<int> tasks;
  bool no_fwd2 = false, enc_garbage = false;
  ResSpec enc;
  std::string op;
};
Reply& R(const Ex& e) { return *static_cast<Reply*>(e.reply.get()); }

struct Fwd {
  std::string base;
  std::map<std::string, std::string> headers;
};
struct Task {
  int idx;
  std::string session, agg, token, name, select;
  bool no_fwd = false;
  int type = 0;  // 0 simple, 1 secure, 2 confidential, 3 unknown
  int fwd_agg = -1, fwd_proto = -1, fwd_data = -1;
  int min_clients = 0, expected = 0, surviving = 0;
  ResSpec plan, ckpt, policy;
  // set when the upload is granted
  std::string client_token, resource;
  bool granted = false, bad_key = false;
  std::string enc_config;
  // what the client is told to report
  bool report_called = false, completed = false;
  int outcome = 0;
  std::string data;
  absl::Duration duration;
  bool verify_fails = false, verified = false;
  // what arrived
  int reports = 0, uploads = 0, submits = 0, aborts = 0, starts = 0;
  bool upload_ok = false;
  Code sec_result = Code::kOk;
};
struct Op {
  std::string name;
  int fwd = -1, task = -1, kind = 0;
  int left = 0;
  bool cancelled = false, done = false;
  Reply final;
  std::string final_bytes;
};

struct TestFlags : Flags {
  bool conf = false, nogz = false, lw = false, untie = false;
  int64_t condition_polling_period_millis() const override { return 50; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; }
  bool log_tensorflow_error_messages() const override { return false; }
  bool enable_confidential_aggregation() const override { return conf; }
  bool disable_http_request_body_compression() const override { return nogz; }
  bool enable_lightweight_client_report_wire_format() const override { return lw; }
  bool untie_lw_client_report_format_support_from_requiring_lw_report() const override { return untie; }
  int64_t federated_training_transient_errors_retry_delay_secs() const override { return 1000; }
  int64_t federated_training_permanent_errors_retry_delay_secs() const override { return 100000; }
  std::vector<int32_t> federated_training_permanent_error_codes() const override {
    return {(int)Code::kNotFound, (int)Code::kInvalidArgument, (int)Code::kUnimplemented};
  }
};

struct SleepClock : fcp::Clock {
  int64_t slept = 0;
  absl::Time Now() override { return absl::Now(); }
  void Sleep(absl::Duration d) override {
    int64_t t0 = sim::NowNs();
    sim::SleepNs(std::max<int64_t>(0, absl::ToInt64Nanoseconds(d)));
    sim::NoPreempt np;
    slept += sim::NowNs() - t0;
  }
  absl::Time NowLocked() override { return absl::Now(); }
  void ScheduleWakeup(absl::Time) override {}
};

// What a call should return, according to the model.
struct Expect {
  Code code = Code::kOk;
  int variant = 0;  // as in Reply::eet_kind for the first check-in; 2 = rejection for the second
  int task = -1;
  ResSpec plan, ckpt;
  bool has_payload = false, has_spec = false;
  int policies = 0;
  std::string exec_id;
  int callbacks = 0;
  size_t callback_arg = 0;
  std::map<int, Code> per_task;
};
enum State { sInit, sEetFail, sEetPerm, sRejected, sDisabled, sEnabled, sMulFail, sMulPerm, sMulNone,
             sMulOk, sInFail, sInPerm, sInRejected, sInOk };
enum TState { tNone, tAccepted, tReported, tPerm };
struct Ms {
  State st = sInit;
  bool retry_known = false, eet_on = false, reported = false, multi = false;
  std::map<int, TState> t;
  int deflt = -1;
};
struct Mismatch {
  std::string why;
  bool lro = false;
};

struct World;
struct StubVerifier : attestation::AttestationVerifier {
  World* w;
  explicit StubVerifier(World* x) : w(x) {}
  absl::StatusOr<cc::OkpKey> Verify(const absl::Cord& policy,
                                    const v1::ConfidentialEncryptionConfig& c) override;
};
struct StubRunner : SecAggRunner {
  World* w;
  std::unique_ptr<SecAggSendToServerBase> send;
  std::unique_ptr<SecAggProtocolDelegate> del;
  int64_t n, m;
  absl::Status Run(ComputationResults r) override;
};
struct StubFactory : SecAggRunnerFactory {
  World* w;
  explicit StubFactory(World* x) : w(x) {}
  std::unique_ptr<SecAggRunner> CreateSecAggRunner(std::unique_ptr<SecAggSendToServerBase> s,
                                                   std::unique_ptr<SecAggProtocolDelegate> d,
                                                   SecAggEventPublisher*, LogManager*,
                                                   InterruptibleRunner*, int64_t n, int64_t m) override {
    auto r = std::make_unique<StubRunner>();
    r->w = w;
    r->send = std::move(s);
    r->del = std::move(d);
    r->n = n;
    r->m = m;
    return r;
  }
};

struct World {
  net::Client c;
  NoLog log;
  TestFlags flags;
  SleepClock clock;
  FlakyCache cache;
  bool use_cache = false, punctual = false;
  double p_odd = 0;          // replies that make no sense
  int max_polls = 3;
  std::vector<Fwd> fwds;     // 0: entry point
  std::vector<std::unique_ptr<Task>> tasks;
  std::map<std::string, Op> ops;
  std::map<std::string, ResSpec> res;
  std::string pop, api, session, version, measurement;
  int fwd_assign = -1, n_res = 0, n_fwd = 0;
  int eet_error = -1;        // code given to ReportEligibilityEvalError
  std::optional<google::internal::federatedml::v2::TaskEligibilityInfo> info;
  std::vector<std::string> names;
  int current = -1;          // task being reported
  std::unique_ptr<cc::MessageDecryptor> dec;
  std::string public_key, key_id;
  int accepted_min = 10000000, accepted_max = 10500000, rejected_min = 300000000, rejected_max = 310000000;
  int64_t retry_t0 = 0, retry_t1 = 0;

  bool Odd() {
    if (p_odd <= 0 || !sim::Flip(kFault, p_odd)) return false;
    sim::CountFault("odd_reply");
    return true;
  }
  std::string Id(const char* p) {
    static const char* kSpice[] = {"", "/x", ":y", " z", "%41", "?q=1", "~-_.", "#f", "&a"};
    return absl::StrCat(p, sim::Range(kData, 0, 999), kSpice[Choose(kData, 9)], "-", ++n_res);
  }
  int NewFwd() {
    Fwd f;
    int n = ++n_fwd;
    f.base = absl::StrCat("https://f", n, ".test", Choose(kData, 3) == 0 ? "/base" : "",
                          Choose(kData, 2) ? "/" : "");
    int h = Choose(kData, 3);
    for (int i = 0; i < h; ++i) f.headers[absl::StrCat("x-fwd-", n, "-", i)] = absl::StrCat("v", n, ":", i);
    fwds.push_back(f);
    return fwds.size() - 1;
  }
  void PutFwd(int i, v1::ForwardingInfo* o) {
    o->set_target_uri_prefix(fwds[i].base);
    for (auto& [k, v] : fwds[i].headers) (*o->mutable_extra_request_headers())[k] = v;
  }
  ResSpec NewRes(const std::string& plain, v1::Resource* o, bool may_unset) {
    ResSpec r;
    r.id = ++n_res;
    r.plain = plain;
    int k = Choose(kWork, 5);
    r.kind = k == 0 && may_unset ? ResSpec::kUnset : k < 3 ? ResSpec::kInline : ResSpec::kUri;
    if (Odd()) r.kind = Choose(kFault, 2) ? ResSpec::kBadFormat : ResSpec::kEmptyUri;
    r.gz = Choose(kData, 2);
    if (r.kind == ResSpec::kUnset) {
      r.plain = "";
      r.gz = false;
    }
    r.wire = r.gz ? net::Gzip(r.plain) : r.plain;
    if (r.gz && Odd()) {
      r.corrupt = true;
      r.wire[r.wire.size() - 8 + Choose(kFault, 4)] ^= 1;
    }
    if (r.kind == ResSpec::kInline || r.kind == ResSpec::kBadFormat) {
      o->mutable_inline_resource()->set_data(r.wire);
      if (r.gz) o->mutable_inline_resource()->set_compression_format(v1::RESOURCE_COMPRESSION_FORMAT_GZIP);
      if (r.kind == ResSpec::kBadFormat)
        o->mutable_inline_resource()->set_compression_format(v1::RESOURCE_COMPRESSION_FORMAT_UNSPECIFIED);
    } else if (r.kind == ResSpec::kUri) {
      r.uri = absl::StrCat("https://res", r.id % 3, ".test/r", r.id);
      o->set_uri(r.uri);
      if (use_cache && Choose(kData, 2)) {
        r.cache_id = absl::StrCat("c", r.id);
        o->set_client_cache_id(r.cache_id);
        o->mutable_max_age()->set_seconds(3600);
        if (r.gz) cache.gz_ids.insert(r.cache_id);
      }
      res[r.uri] = r;
    } else if (r.kind == ResSpec::kEmptyUri) {
      o->set_uri("");
    }
    return r;
  }
  Task& NewTask(v1::TaskAssignment* o) {
    tasks.push_back(std::make_unique<Task>());
    Task& t = *tasks.back();
    t.idx = tasks.size() - 1;
    t.session = Id("ses");
    t.agg = Id("agg");
    t.token = Id("tok");
    t.name = Id("task");
    t.select = Id("select");
    t.no_fwd = Odd();
    t.fwd_agg = NewFwd();
    if (!t.no_fwd) PutFwd(t.fwd_agg, o->mutable_aggregation_data_forwarding_info());
    o->set_session_id(t.session);
    o->set_aggregation_id(t.agg);
    o->set_authorization_token(t.token);
    o->set_task_name(t.name);
    o->mutable_federated_select_uri_info()->set_uri_template(t.select);
    t.type = Choose(kWork, flags.conf ? 3 : 2);
    if (sim::Property() == std::string("C01") && Choose(kWork, 2)) t.type = 2;
    if (Odd()) t.type = 2 + Choose(kFault, 2);
    t.plan = NewRes(absl::StrCat("plan", t.idx, Bytes(t.idx, Choose(kData, 300))), o->mutable_plan(), false);
    t.ckpt = NewRes(absl::StrCat("ckpt", t.idx, Bytes(99 + t.idx, Choose(kData, 900))),
                    o->mutable_init_checkpoint(), false);
    if (t.type == 0) o->mutable_aggregation_info();
    if (t.type == 1) {
      t.min_clients = 2 + Choose(kData, 5);
      o->mutable_secure_aggregation_info()->set_minimum_clients_in_server_visible_aggregate(t.min_clients);
    }
    if (t.type == 2) {
      t.policy = NewRes(absl::StrCat("policy", t.idx),
                        o->mutable_confidential_aggregation_info()->mutable_data_access_policy(), false);
    }
    t.verify_fails = Odd();
    t.sec_result = Odd() ? Code::kInternal : Code::kOk;
    return t;
  }

  // -------------------------------------------------------------- requests
  bool Decode(const std::string& s, std::string* o) {
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] != '%') {
        *o += s[i];
        continue;
      }
      if (i + 2 >= s.size() || !isxdigit(s[i + 1]) || !isxdigit(s[i + 2])) return false;
      *o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    }
    return true;
  }
  [[noreturn]] void Bad(const char* what, const Ex& e) {
    sim::Violation("H04", "%s: %s", what, e.uri.substr(0, 160).c_str());
    sim::Finish();
  }
  int FwdOf(const Ex& e, std::string* path) {
    std::string u = e.uri.substr(0, e.uri.find('?'));
    for (size_t i = 0; i < fwds.size(); ++i) {
      std::string b = fwds[i].base;
      if (!b.empty() && b.back() == '/') b.pop_back();
      if (u.compare(0, b.size() + 1, b + "/") == 0) {
        *path = u.substr(b.size());
        return i;
      }
    }
    return -1;
  }
  void NeedFwd(const Ex& e, int have, int want) {
    if (have != want) Bad("a request went to another server than the one it was to be forwarded to", e);
    std::map<std::string, int> seen;
    for (auto& [k, v] : e.headers) {
      std::string key = absl::AsciiStrToLower(k);
      seen[key]++;
      if (key == "content-type" || key == "content-length" || key == "content-encoding") continue;
      if (key == "x-goog-api-key") {
        if (v != api) Bad("a request carries another API key", e);
        continue;
      }
      auto it = fwds[want].headers.find(key);
      if (it == fwds[want].headers.end() || it->second != v) Bad("a request carries a header it should not", e);
    }
    for (auto& [k, v] : fwds[want].headers)
      if (seen[k] != 1) Bad("a request lacks a forwarding header", e);
    if (seen["x-goog-api-key"] != 1) Bad("a request lacks the API key", e);
  }
  void Classify(Ex& e) {
    e.reply = std::make_shared<Reply>();
    if (res.count(e.uri)) {
      e.kind = kFetch;
      e.op = res[e.uri].id;
      for (auto& [k, v] : e.headers)
        if (absl::EqualsIgnoreCase(k, "x-goog-api-key") || absl::StartsWithIgnoreCase(k, "x-fwd"))
          Bad("a resource download carries credentials", e);
      return;
    }
    std::string path;
    int f = FwdOf(e, &path);
    if (f < 0) Bad("a request went to an unknown server", e);
    if (path.compare(0, 17, "/upload/v1/media/") == 0) {
      e.kind = kUpload;
      std::string name;
      if (!Decode(path.substr(17), &name)) Bad("malformed request path", e);
      for (auto& t : tasks)
        if (t->granted && t->resource == name) e.task = t->idx;
      if (e.task < 0 || e.query != "upload_protocol=raw") Bad("malformed upload request", e);
      NeedFwd(e, f, tasks[e.task]->fwd_data);
      if (!net::Find(e.headers, "Content-Type").empty()) Bad("an upload carries a content type", e);
      return;
    }
    if (e.query != "%24alt=proto") Bad("a request lacks the wire format parameter", e);
    std::vector<std::string> seg;
    std::string action, cur;
    std::vector<std::string> raw;
    for (char ch : path + "/") {
      if (ch == '/') {
        raw.push_back(cur);
        cur.clear();
      } else {
        cur += ch;
      }
    }
    size_t colon = raw.back().rfind(':');
    if (colon != std::string::npos) {
      action = raw.back().substr(colon + 1);
      raw.back().resize(colon);
    }
    for (auto& s : raw) {
      std::string d;
      if (!Decode(s, &d)) Bad("malformed request path", e);
      seg.push_back(d);
    }
    auto is = [&](size_t n, size_t i, const char* s) { return seg.size() == n && seg[i] == s; };
    if (seg.size() < 3 || seg[0] != "" || seg[1] != "v1") Bad("malformed request path", e);
    bool get = e.method == HttpRequest::Method::kGet;
    if (seg[2] == "operations") {
      std::string d;
      if (!Decode(path.substr(4, path.size() - 4 - (action.empty() ? 0 : action.size() + 1)), &d))
        Bad("malformed request path", e);
      auto it = ops.find(d);
      if (it == ops.end()) Bad("a request names an operation that does not exist", e);
      e.kind = action.empty() ? kPoll : kCancel;
      if (!action.empty() && action != "cancel") Bad("malformed request path", e);
      if (get != (e.kind == kPoll)) Bad("wrong request method", e);
      e.task = it->second.task;
      R(e).op = d;
      NeedFwd(e, f, it->second.fwd);
      return;
    }
    if (e.method != HttpRequest::Method::kPost) Bad("wrong request method", e);
    if (is(4, 2, "eligibilityevaltasks") && seg[3] == pop && action == "request") {
      e.kind = kEet;
      NeedFwd(e, f, 0);
    } else if (is(6, 2, "populations") && seg[3] == pop && seg[4] == "eligibilityevaltasks" &&
               seg[5] == session && action == "reportresult") {
      e.kind = kEetReport;
      NeedFwd(e, f, 0);
    } else if (is(6, 2, "populations") && seg[3] == pop && seg[4] == "taskassignments") {
      NeedFwd(e, f, fwd_assign);
      if (action == "reportresult") {
        e.kind = kTaskReport;
        for (auto& t : tasks)
          if (t->session == seg[5]) e.task = t->idx;
        if (e.task < 0) Bad("a task result report names an unknown session", e);
      } else if (seg[5] == session && action == "start") {
        e.kind = kStart;
      } else if (seg[5] == session && action == "performmultiple") {
        e.kind = kMulti;
      } else {
        Bad("malformed request path", e);
      }
    } else if (seg.size() == 6 && seg[4] == "clients") {
      for (auto& t : tasks)
        if (t->agg == seg[3]) e.task = t->idx;
      if (e.task < 0) Bad("a request names an unknown aggregation", e);
      Task& t = *tasks[e.task];
      bool conf = flags.conf && t.type == 2;
      bool sec = seg[2] == "secureaggregations";
      if (!sec && seg[2] != (conf ? "confidentialaggregations" : "aggregations"))
        Bad("a request names the wrong kind of aggregation", e);
      if (action == "startdataupload" || action == "start") {
        e.kind = sec ? kSecStart : kStartUp;
        if (sec != (action == "start")) Bad("malformed request path", e);
        if (seg[5] != t.token) Bad("a request carries another task's token", e);
        NeedFwd(e, f, t.fwd_agg);
      } else if (action == "submit" || action == "abort") {
        e.kind = action == "submit" ? kSubmit : kAbort;
        if (seg[5] != t.client_token) Bad("a request carries another client's token", e);
        NeedFwd(e, f, t.fwd_proto);
      } else {
        Bad("malformed request path", e);
      }
    } else {
      Bad("malformed request path", e);
    }
  }

  // ------------------------------------------------------------ the service
  int64_t Interval(Operation* op, int kind) {
    switch (Choose(kData, 7)) {
      case 0: return 500 * kMs;
      case 1: {
        v1::StartTaskAssignmentRequest other;
        op->mutable_metadata()->PackFrom(other);
        return 500 * kMs;
      }
      case 2: {  // named as one type, not parseable as it
        v1::StartTaskAssignmentMetadata m;
        op->mutable_metadata()->PackFrom(m);
        op->mutable_metadata()->set_value("\xff\xff");
        return 500 * kMs;
      }
      default: {
        static const int64_t kIv[] = {0, 1, 20, 700, 5000, 59999, 60000, 60001, 3600000, -1, -60000};
        int64_t ms = kIv[Choose(kData, 11)];
        google::protobuf::Duration d;
        d.set_seconds(ms / 1000);
        d.set_nanos(ms % 1000 * 1000000);
        if (Choose(kData, 2)) {
          v1::StartTaskAssignmentMetadata m;
          *m.mutable_polling_interval() = d;
          op->mutable_metadata()->PackFrom(m);
        } else {
          v1::ShareKeysMetadata m;
          *m.mutable_polling_interval() = d;
          op->mutable_metadata()->PackFrom(m);
        }
        return ms < 0 ? 500 * kMs : std::min<int64_t>(ms, 60000) * kMs;
      }
    }
  }
  // Answers with an operation that ends as `fin`, now or some polls later.
  void StartOp(Ex& e, int fwd, int task, const Reply& fin, const google::protobuf::Message* response) {
    Op op;
    op.name = "operations/" + Id("op");
    op.fwd = fwd;
    op.task = task;
    op.kind = e.kind;
    op.left = Choose(kWork, max_polls + 1);
    op.final = fin;
    Operation p;
    p.set_name(op.name);
    p.set_done(true);
    if (fin.err) p.mutable_error()->set_code(fin.err);
    else if (response) p.mutable_response()->PackFrom(*response);
    op.final_bytes = p.SerializeAsString();
    ops[op.name] = op;
    AnswerOp(e, ops[op.name]);
  }
  void AnswerOp(Ex& e, Op& op) {
    Reply& r = R(e);
    if (op.left-- <= 0 && !op.cancelled) {
      r = op.final;
      r.done = op.done = true;
      r.op = op.name;
      e.rbody = op.final_bytes;
      return;
    }
    r.op = op.name;
    Operation p;
    p.set_name(op.name);
    if (Odd()) {
      r.bad_name = true;
      p.set_name("operation/x");
    }
    r.interval = Interval(&p, op.kind);
    e.rbody = p.SerializeAsString();
    if (Odd()) {
      r.garbage = true;
      e.rbody = "\xff\xff\xff";
    }
  }
  void CheckVersion(const Ex& e, const std::string& v) {
    if (v != version) Bad("a request carries another client version", e);
  }
  void Serve(Ex& e) {
    Reply& r = R(e);
    if (e.kind == kFetch) {
      const ResSpec& s = res[e.uri];
      e.rbody = s.wire;
      if (s.gz) e.rheaders.push_back({"Content-Type", "application/octet-stream+gzip"});
      return;
    }
    if (flags.nogz && e.gzip) Bad("a request body was compressed although that is disabled", e);
    if (e.kind != kUpload && !e.body.empty() &&
        net::Find(e.headers, "Content-Type") != "application/x-protobuf")
      Bad("a request body without its content type", e);
    Task* t = e.task >= 0 ? tasks[e.task].get() : nullptr;
    switch (e.kind) {
      case kEet: ServeEet(e, r); break;
      case kEetReport: {
        v1::ReportEligibilityEvalTaskResultRequest q;
        if (!q.ParseFromString(e.body)) Bad("unparseable request", e);
        if (q.status_code() != (eet_error < 0 ? 0 : eet_error))
          Bad("the eligibility result was reported with another status", e);
        break;
      }
      case kStart: {
        v1::StartTaskAssignmentRequest q;
        if (!q.ParseFromString(e.body)) Bad("unparseable request", e);
        CheckVersion(e, q.client_version().version_code());
        if (q.has_task_eligibility_info() != info.has_value() ||
            (info && q.task_eligibility_info().SerializeAsString() != info->SerializeAsString()))
          Bad("the check-in carries other eligibility information than the caller's", e);
        if (q.resource_capabilities().supports_confidential_aggregation() != flags.conf)
          Bad("the check-in announces other capabilities than configured", e);
        Reply fin;
        v1::StartTaskAssignmentResponse a;
        google::rpc::Status other;
        if (Odd()) {
          fin.err = 1 + Choose(kFault, 16);
        } else if (Odd()) {
          fin.inner = 1 + Choose(kFault, 3);
        } else if (Choose(kWork, 6) == 5) {
          fin.inner = 2;
        }
        if (fin.inner == 2) a.mutable_rejection_info();
        if (fin.inner == 0 && !fin.err) fin.task = NewTask(a.mutable_task_assignment()).idx;
        StartOp(e, fwd_assign, -1, fin, fin.inner == 1 ? (google::protobuf::Message*)&other : &a);
        break;
      }
      case kMulti: {
        v1::PerformMultipleTaskAssignmentsRequest q;
        if (!q.ParseFromString(e.body)) Bad("unparseable request", e);
        CheckVersion(e, q.client_version().version_code());
        if (std::vector<std::string>(q.task_names().begin(), q.task_names().end()) != names)
          Bad("other tasks were asked for than the caller named", e);
        v1::PerformMultipleTaskAssignmentsResponse a;
        int n = Choose(kWork, 4);
        for (int i = 0; i < n; ++i) r.tasks.push_back(NewTask(a.add_task_assignments()).idx);
        e.rbody = a.SerializeAsString();
        if (Odd()) {
          r.garbage = true;
          e.rbody = "\xff\xff\xff";
        }
        break;
      }
      case kTaskReport: {
        v1::ReportTaskResultRequest q;
        if (!q.ParseFromString(e.body)) Bad("unparseable request", e);
        if (q.aggregation_id() != t->agg || q.task_name() != t->name)
          Bad("a task result was reported for another task", e);
        if (!t->report_called) Bad("a task result was reported that the caller did not report", e);
        if (q.computation_status_code() != t->outcome)
          sim::Violation("H04", "outcome %d was reported as %d", t->outcome, (int)q.computation_status_code());
        auto d = q.client_stats().computation_execution_duration();
        if (absl::Seconds(d.seconds()) + absl::Nanoseconds(d.nanos()) != t->duration)
          Bad("another duration was reported", e);
        if (++t->reports > 1) Bad("a task result was reported twice", e);
        break;
      }
      case kStartUp: {
        if (!t->report_called || !t->completed) Bad("an upload was started for a task that did not complete", e);
        if (++t->starts > 1) Bad("an upload was started twice", e);
        bool conf = flags.conf && t->type == 2;
        Reply fin;
        v1::StartAggregationDataUploadResponse a;
        v1::StartConfidentialAggregationDataUploadResponse ca;
        google::rpc::Status other;
        fin.task = t->idx;
        if (Odd()) fin.err = 1 + Choose(kFault, 16);
        else if (Odd()) fin.inner = 1;
        t->fwd_proto = NewFwd();
        t->fwd_data = NewFwd();
        t->resource = Id("res") + "/part" + std::to_string(t->idx);
        bool own = conf || Choose(kWork, 4) != 3;
        t->client_token = own ? Id("ctok") : t->token;
        fin.no_fwd = Odd();
        fin.no_fwd2 = Odd();
        auto fill = [&](auto& x) {
          if (!fin.no_fwd) PutFwd(t->fwd_proto, x.mutable_aggregation_protocol_forwarding_info());
          if (!fin.no_fwd2) PutFwd(t->fwd_data, x.mutable_resource()->mutable_data_upload_forwarding_info());
          x.mutable_resource()->set_resource_name(t->resource);
          if (own) x.set_client_token(t->client_token);
        };
        if (conf) {
          fill(ca);
          v1::ConfidentialEncryptionConfig cfg;
          t->bad_key = Odd();
          cfg.set_public_key(t->bad_key ? "no key" : public_key);
          t->enc_config = cfg.SerializeAsString();
          fin.enc_garbage = Odd();
          fin.enc = NewRes(fin.enc_garbage ? std::string("\xff\xff\xff") : t->enc_config,
                           ca.mutable_encryption_config(), false);
        } else {
          fill(a);
        }
        t->granted = true;
        StartOp(e, t->fwd_agg, t->idx, fin,
                fin.inner == 1 ? (google::protobuf::Message*)&other
                               : conf ? (google::protobuf::Message*)&ca : &a);
        break;
      }
      case kSecStart: {
        if (!t->report_called || !t->completed) Bad("an aggregation was started for a task that did not complete", e);
        Reply fin;
        fin.task = t->idx;
        v1::StartSecureAggregationResponse a;
        google::rpc::Status other;
        if (Odd()) fin.err = 1 + Choose(kFault, 16);
        else if (Odd()) fin.inner = 1;
        t->fwd_proto = NewFwd();
        t->fwd_data = NewFwd();
        fin.no_fwd = Odd();
        if (!fin.no_fwd) PutFwd(t->fwd_proto, a.mutable_secagg_protocol_forwarding_info());
        PutFwd(t->fwd_data, a.mutable_masked_result_resource()->mutable_data_upload_forwarding_info());
        a.mutable_masked_result_resource()->set_resource_name(Id("masked"));
        PutFwd(t->fwd_data, a.mutable_nonmasked_result_resource()->mutable_data_upload_forwarding_info());
        a.mutable_nonmasked_result_resource()->set_resource_name(Id("plain"));
        (*a.mutable_secure_aggregands())["q"].set_modulus(1 << 20);
        t->expected = 3 + Choose(kData, 5);
        t->surviving = 2 + Choose(kData, 2);
        a.mutable_protocol_execution_info()->set_expected_number_of_clients(t->expected);
        a.mutable_protocol_execution_info()->set_minimum_surviving_clients_for_reconstruction(t->surviving);
        t->client_token = Id("ctok");
        a.set_client_token(t->client_token);
        StartOp(e, t->fwd_agg, t->idx, fin, fin.inner == 1 ? (google::protobuf::Message*)&other : &a);
        break;
      }
      case kPoll: {
        Op& op = ops[r.op];
        if (op.done && sim::Property() == std::string("H03"))
          sim::Violation("H03", "a finished operation was polled again");
        AnswerOp(e, op);
        break;
      }
      case kCancel: {
        Op& op = ops[r.op];
        if (op.kind != kStart) Bad("an operation was cancelled that is not an assignment", e);
        if (op.cancelled) sim::Violation("H03", "an operation was cancelled twice");
        op.cancelled = true;
        break;
      }
      case kUpload: {
        if (++t->uploads > 1) Bad("a result was uploaded twice", e);
        if (!t->report_called || !t->completed) Bad("data of a task that did not complete was uploaded", e);
        CheckUpload(e, *t);
        t->upload_ok = true;
        break;
      }
      case kSubmit: {
        if (++t->submits > 1) Bad("a result was submitted twice", e);
        if (!t->upload_ok) Bad("a result was submitted that was not uploaded", e);
        std::string name;
        if (flags.conf && t->type == 2) {
          v1::SubmitConfidentialAggregationResultRequest q;
          if (!q.ParseFromString(e.body)) Bad("unparseable request", e);
          name = q.resource_name();
        } else {
          v1::SubmitAggregationResultRequest q;
          if (!q.ParseFromString(e.body)) Bad("unparseable request", e);
          name = q.resource_name();
        }
        if (name != t->resource) Bad("another resource than the uploaded one was submitted", e);
        break;
      }
      case kAbort: {
        if (++t->aborts > 1) Bad("an aggregation was aborted twice", e);
        if (t->submits) Bad("a submitted result was aborted", e);
        google::rpc::Status s;
        v1::AbortAggregationRequest q;
        v1::AbortConfidentialAggregationRequest cq;
        if (flags.conf && t->type == 2) {
          if (!cq.ParseFromString(e.body)) Bad("unparseable request", e);
          s = cq.status();
        } else {
          if (!q.ParseFromString(e.body)) Bad("unparseable request", e);
          s = q.status();
        }
        if (s.code() == 0) Bad("an aggregation was aborted without an error", e);
        R(e).err = s.code();
        break;
      }
    }
  }
  void CheckUpload(const Ex& e, Task& t) {
    bool conf = flags.conf && t.type == 2;
    if (!conf) {
      if (e.body != t.data) sim::Violation("H04", "other data than the result was uploaded (%zu bytes, not %zu)",
                                           e.body.size(), t.data.size());
      return;
    }
    const char* P = "C01";
    SIM_CHECK(P, t.verified, "a result was uploaded although its recipient was not verified");
    absl::string_view data = e.body;
    auto h = cc::DecodeAndConsumeClientPayloadHeader(data);
    SIM_CHECK(P, h.ok(), "an uploaded confidential result is not in the agreed format");
    fcp::confidentialcompute::BlobHeader bh;
    SIM_CHECK(P, bh.ParseFromString(std::string(h->serialized_blob_header)), "blob header unparseable");
    SIM_CHECK(P, bh.key_id() == key_id, "the blob header names another key");
    SIM_CHECK(P, !bh.blob_id().empty(), "the blob has no id");
    SIM_CHECK(P, bh.access_policy_sha256() == fcp::ComputeSHA256(t.policy.plain), "the blob is bound to another policy");
    SIM_CHECK(P, blob_ids.insert(bh.blob_id()).second, "two blobs with one id");
    auto plain = dec->Decrypt(data, h->serialized_blob_header, h->encrypted_symmetric_key,
                              h->serialized_blob_header, h->encapsulated_public_key);
    SIM_CHECK(P, plain.ok(), "an uploaded confidential result cannot be decrypted by its recipient");
    std::string x = *plain;
    if (h->is_gzip_compressed) {
      x.clear();
      SIM_CHECK(P, net::Gunzip(*plain, &x), "a confidential result cannot be decompressed");
    }
    SIM_CHECK(P, x == t.data, "a confidential result differs from the uploaded data");
    // Nothing of the result may be readable on the way.
    if (t.data.size() >= 16)
      SIM_CHECK(P, e.raw.find(t.data.substr(0, 16)) == std::string::npos, "a result was uploaded in the clear");
    sim::Count("confidential_upload");
  }
  std::set<std::string> blob_ids;
  void ServeEet(Ex& e, Reply& r) {
    v1::EligibilityEvalTaskRequest q;
    if (!q.ParseFromString(e.body)) Bad("unparseable request", e);
    CheckVersion(e, q.client_version().version_code());
    if (q.attestation_measurement().value() != measurement) Bad("a request carries another measurement", e);
    if (q.resource_capabilities().supports_confidential_aggregation() != flags.conf)
      Bad("the request announces other capabilities than configured", e);
    v1::EligibilityEvalTaskResponse a;
    auto win = [](v1::RetryWindow* w, int lo, int hi) {
      w->mutable_delay_min()->set_seconds(lo);
      w->mutable_delay_max()->set_seconds(hi);
    };
    win(a.mutable_retry_window_if_accepted(), accepted_min, accepted_max);
    win(a.mutable_retry_window_if_rejected(), rejected_min, rejected_max);
    session = Id("presession");
    a.set_session_id(session);
    r.no_fwd = Odd();
    fwd_assign = NewFwd();
    if (!r.no_fwd) PutFwd(fwd_assign, a.mutable_task_assignment_forwarding_info());
    static const int kK[] = {1, 1, 1, 2, 2, 0};
    r.eet_kind = kK[Choose(kWork, 6)];
    if (Odd()) r.eet_kind = 3;
    if (r.eet_kind == 0) a.mutable_rejection_info();
    if (r.eet_kind == 2) a.mutable_no_eligibility_eval_configured();
    if (r.eet_kind == 1) {
      auto* x = a.mutable_eligibility_eval_task();
      r.exec_id = Id("exec");
      x->set_execution_id(r.exec_id);
      r.plan = NewRes("eetplan" + Bytes(5, Choose(kData, 200)), x->mutable_plan(), true);
      r.ckpt = NewRes("eetckpt" + Bytes(6, Choose(kData, 200)), x->mutable_init_checkpoint(), true);
      if (Choose(kWork, 3) == 2) {
        r.has_spec = true;
        google::internal::federated::plan::PopulationEligibilitySpec s;
        r.policies = Choose(kWork, 3);
        for (int i = 0; i < r.policies; ++i) s.add_eligibility_policies()->set_name(absl::StrCat("p", i));
        auto* ti = s.add_task_info();
        ti->set_task_name("t");
        r.spec_garbage = Odd();
        r.spec = NewRes(r.spec_garbage ? std::string("\xff\xff\xff") : s.SerializeAsString(),
                        x->mutable_population_eligibility_spec(), false);
      }
    }
    e.rbody = a.SerializeAsString();
    if (Odd()) {
      r.garbage = true;
      e.rbody = "\xff\xff\xff";
    }
  }
};

absl::StatusOr<cc::OkpKey> StubVerifier::Verify(const absl::Cord& policy,
                                                const v1::ConfidentialEncryptionConfig& c) {
  sim::NoPreempt np;
  Task& t = *w->tasks[w->current];
  SIM_CHECK("C01", std::string(policy) == t.policy.plain, "the recipient was verified against another policy");
  SIM_CHECK("C01", c.SerializeAsString() == t.enc_config, "another recipient was verified");
  if (t.verify_fails) return absl::FailedPreconditionError("not attested");
  t.verified = true;
  auto k = cc::OkpCwt::Decode(c.public_key());
  if (!k.ok() || !k->public_key) return cc::OkpKey{};
  return *k->public_key;
}
absl::Status StubRunner::Run(ComputationResults r) {
  sim::NoPreempt np;
  Task& t = *w->tasks[w->current];
  SIM_CHECK("H04", n == t.expected && m == t.surviving, "secure aggregation was set up with other numbers of clients");
  SIM_CHECK("H04", r.size() == 1 && r.count("q") && std::holds_alternative<QuantizedTensor>(r["q"]) &&
                       std::get<QuantizedTensor>(r["q"]).values == std::vector<uint64_t>({1, 2, (uint64_t)t.idx}),
            "secure aggregation was given other data");
  auto mod = del->GetModulus("q");
  SIM_CHECK("H04", mod.ok() && *mod == 1 << 20, "secure aggregation was given another modulus");
  if (t.sec_result != Code::kOk) return absl::Status(t.sec_result, "secagg");
  return absl::OkStatus();
}

// ---------------------------------------------------------------- the model
struct Want {
  int kind, task = -1, op = -1;
  std::string name;
};
struct Model {
  World& w;
  Ms s;
  std::vector<std::shared_ptr<net::Batch>> b;
  size_t i = 0;
  int notice, pt = 0;
  bool noticed = false, abortable;
  Model(World& x, const Ms& m, int k) : w(x), s(m), notice(k) {}

  struct Out {
    Code code;
    Ex* e;
  };
  struct Res {
    bool cancelled = false;
    std::vector<Out> o;
  };
  bool Match(const net::Batch& bt, const std::vector<Want>& want, std::vector<Ex*>* m) {
    if (bt.ex.size() != want.size()) return false;
    std::vector<bool> used(bt.ex.size());
    for (auto& x : want) {
      bool f = false;
      for (size_t j = 0; j < bt.ex.size() && !f; ++j) {
        Ex& e = *bt.ex[j];
        if (used[j] || e.kind != x.kind || (x.task >= 0 && e.task != x.task) || (x.op >= 0 && e.op != x.op)) continue;
        if (!x.name.empty() && R(e).op != x.name) continue;
        used[j] = f = true;
        m->push_back(&e);
      }
      if (!f) return false;
    }
    return true;
  }
  static Code CodeFor(const Ex& e) {
    if (e.end == Ex::kError) return e.err;
    if (e.end == Ex::kRefused) return e.err;
    if (!e.whole) return Code::kInvalidArgument;
    return CodeOf(e.code);
  }
  Res Do(const std::vector<Want>& want, bool delayed = false) {
    Res r;
    auto cancel = [&] {
      r.cancelled = true;
      for (size_t j = 0; j < want.size(); ++j) r.o.push_back({Code::kCancelled, nullptr});
      return r;
    };
    bool lro = !want.empty() && (want[0].kind == kPoll || want[0].kind == kCancel);
    std::vector<Ex*> m;
    if (!delayed) {
      if (noticed) return cancel();
      if (pt++ == notice) {
        noticed = true;
        if (!want.empty() && i < b.size() && Match(*b[i], want, &m)) ++i;
        return cancel();
      }
    }
    if (want.empty()) return r;
    if (i >= b.size()) {
      if (delayed && abortable && !w.punctual) return cancel();
      throw Mismatch{absl::StrCat("no ", kKindName[want[0].kind], " was sent"), lro};
    }
    if (!Match(*b[i], want, &m)) {
      bool l2 = false;
      for (auto& e : b[i]->ex) l2 |= e->kind == kPoll || e->kind == kCancel;
      throw Mismatch{absl::StrCat("instead of ", kKindName[want[0].kind], " (", want.size(), " requests) came ",
                                  kKindName[b[i]->ex[0]->kind], " (", b[i]->ex.size(), ")"),
                     lro || l2};
    }
    ++i;
    for (auto* e : m) {
      Code c = CodeFor(*e);
      if (!delayed && e->end == Ex::kError && e->err == Code::kCancelled)
        throw Mismatch{"a request was cancelled without an abort"};
      r.o.push_back({c, e});
    }
    return r;
  }
  static bool Perm(Code c) {
    return c == Code::kNotFound || c == Code::kInvalidArgument || c == Code::kUnimplemented;
  }
  // The outcome of fetching resources, one code each; returns overall code.
  Code Fetch(const std::vector<ResSpec>& rs, std::vector<Code>* out) {
    std::vector<Want> want;
    std::vector<int> at;
    for (auto& r : rs) {
      bool hit = w.use_cache && !r.cache_id.empty() && w.cache.hits.count(r.cache_id);
      if (r.kind == ResSpec::kUri && !hit) {
        at.push_back(want.size());
        want.push_back({kFetch, -1, r.id, ""});
      } else {
        at.push_back(-1);
      }
    }
    Res x = Do(want);
    if (x.cancelled) return Code::kCancelled;
    for (size_t j = 0; j < rs.size(); ++j) {
      Code c = at[j] < 0 ? Code::kOk : x.o[at[j]].code;
      if (c == Code::kOk && rs[j].corrupt) c = Code::kInternal;
      out->push_back(c);
    }
    return Code::kOk;
  }
  static Code Convertible(const ResSpec& r) {
    return r.kind == ResSpec::kEmptyUri ? Code::kInvalidArgument
           : r.kind == ResSpec::kBadFormat ? Code::kUnimplemented : Code::kOk;
  }
  Code FetchTasks(const std::vector<std::vector<ResSpec>>& ts, std::vector<Code>* out) {
    std::vector<ResSpec> all;
    for (auto& t : ts) {
      Code c = Code::kOk;
      for (auto& r : t)
        if (c == Code::kOk) c = Convertible(r);
      out->push_back(c);
      if (c == Code::kOk) all.insert(all.end(), t.begin(), t.end());
    }
    std::vector<Code> got;
    Code c = Fetch(all, &got);
    if (c != Code::kOk) return c;
    size_t k = 0;
    for (size_t j = 0; j < ts.size(); ++j) {
      if ((*out)[j] != Code::kOk) continue;
      for (size_t q = 0; q < ts[j].size(); ++q) {
        if ((*out)[j] == Code::kOk) (*out)[j] = got[k];
        ++k;
      }
    }
    return Code::kOk;
  }
  Code FetchProto(const ResSpec& r, bool garbage) {
    Code c = Convertible(r);
    if (c != Code::kOk) return c;
    std::vector<Code> got;
    c = Fetch({r}, &got);
    if (c == Code::kOk) c = got[0];
    if (c == Code::kOk && garbage) c = Code::kInvalidArgument;
    return c;
  }

  Expect Eet() {
    Expect x;
    s.st = sEetFail;
    x.code = EetInner(&x);
    if (x.code != Code::kOk && Perm(x.code)) s.st = sEetPerm;
    return x;
  }
  Code EetInner(Expect* x) {
    Res r = Do({{kEet}});
    if (r.o[0].code != Code::kOk) return r.o[0].code;
    Reply& p = R(*r.o[0].e);
    if (p.garbage) return Code::kInvalidArgument;
    s.retry_known = true;
    if (p.eet_kind == 0) {
      s.st = sRejected;
      x->variant = 0;
      return Code::kOk;
    }
    if (p.no_fwd) return Code::kInvalidArgument;
    if (p.eet_kind == 3) return Code::kUnimplemented;
    x->variant = p.eet_kind;
    if (p.eet_kind == 2) {
      s.st = sDisabled;
      return Code::kOk;
    }
    x->callbacks = 1;
    x->exec_id = p.exec_id;
    if (p.has_spec) {
      Code c = FetchProto(p.spec, p.spec_garbage);
      if (c != Code::kOk) return c;
      x->has_spec = true;
      x->policies = p.policies;
      if (p.policies == 0) {
        x->variant = 2;
        s.st = sDisabled;
        return Code::kOk;
      }
    }
    if (p.plan.kind != ResSpec::kUnset && p.ckpt.kind != ResSpec::kUnset) {
      std::vector<Code> got;
      Code c = FetchTasks({{p.plan, p.ckpt, ResSpec()}}, &got);
      if (c == Code::kOk) c = got[0];
      if (c != Code::kOk) return c;
      x->has_payload = true;
      x->plan = p.plan;
      x->ckpt = p.ckpt;
    }
    s.st = sEnabled;
    s.eet_on = true;
    return Code::kOk;
  }
  void EetError() { Do({{kEetReport}}); }

  // Polls until done. Returns a code if the polling itself failed.
  Code Poll(Ex** e, const char* what) {
    while (true) {
      Reply& p = R(**e);
      if (p.garbage) return Code::kInvalidArgument;
      if (p.done) return Code::kOk;
      if (p.bad_name) return Code::kInvalidArgument;
      size_t at = i;
      int64_t since = (*e)->t_end;
      Res r = Do({{kPoll, -1, -1, p.op}});
      if (i > at) {
        int64_t waited = b[at]->t_begin - since;
        if (waited < p.interval)
          sim::Violation("H03", "an operation was polled after %.3f s, the service asked for %.3f s", waited / 1e9,
                         p.interval / 1e9);
        if (w.punctual && w.c.f.slow == 0 && at > 0 &&
            b[at]->t_begin - b[at - 1]->t_end > p.interval + kSec / 4)
          sim::Violation("H03", "an operation was polled only after %.3f s, the service asked for %.3f s",
                         waited / 1e9, p.interval / 1e9);
        sim::Count("polls");
      }
      if (r.o[0].code != Code::kOk) return r.o[0].code;
      *e = r.o[0].e;
    }
  }
  Code PollFrom(const Out& o, Ex** e) {
    if (o.code != Code::kOk) return o.code;
    *e = o.e;
    return Poll(e, "");
  }

  Code TaskError(const Task& t) {
    if (t.no_fwd) return Code::kInvalidArgument;
    if (!w.flags.conf) return t.type == 2 ? Code::kInvalidArgument : Code::kOk;
    return t.type == 3 ? Code::kInvalidArgument : Code::kOk;
  }
  Expect Checkin() {
    Expect x;
    s.st = sInFail;
    x.code = CheckinInner(&x);
    if (x.code != Code::kOk && Perm(x.code)) s.st = sInPerm;
    return x;
  }
  Code CheckinInner(Expect* x) {
    std::vector<Want> want = {{kStart}};
    if (s.eet_on && !s.reported) {
      want.push_back({kEetReport});
      s.reported = true;
    }
    Res r = Do(want);
    if (r.o[0].code != Code::kOk) return r.o[0].code;
    Ex* e = r.o[0].e;
    if (R(*e).garbage) return Code::kInvalidArgument;
    bool bad_first = R(*e).bad_name && !R(*e).done;
    std::string first = R(*e).op;
    Code c = Poll(&e, "assignment");
    if (c != Code::kOk) {
      if (bad_first) return Code::kInvalidArgument;
      Do({{kCancel, -1, -1, first}}, true);
      return c;
    }
    Reply& p = R(*e);
    if (p.err) return (Code)p.err;
    if (p.inner == 1) return Code::kInvalidArgument;
    if (p.inner == 2) {
      s.st = sInRejected;
      x->variant = 2;
      return Code::kOk;
    }
    if (p.inner == 3) return Code::kUnimplemented;
    const Task& t = *w.tasks[p.task];
    x->callbacks = 1;
    x->task = p.task;
    std::vector<Code> got;
    c = FetchTasks({{t.plan, t.ckpt, t.policy}}, &got);
    if (c == Code::kOk) c = got[0];
    if (c == Code::kOk) c = TaskError(t);
    if (c != Code::kOk) return c;
    x->plan = t.plan;
    x->ckpt = t.ckpt;
    x->has_payload = true;
    s.st = sInOk;
    s.deflt = p.task;
    s.t[p.task] = tAccepted;
    return Code::kOk;
  }
  Expect Multi() {
    Expect x;
    s.st = sMulFail;
    s.multi = true;
    x.code = MultiInner(&x);
    if (x.code != Code::kOk && Perm(x.code)) s.st = sMulPerm;
    return x;
  }
  Code MultiInner(Expect* x) {
    std::vector<Want> want = {{kMulti}};
    if (s.eet_on) {
      want.push_back({kEetReport});
      s.reported = true;
    }
    Res r = Do(want);
    if (r.o[0].code != Code::kOk) return r.o[0].code;
    Reply& p = R(*r.o[0].e);
    if (p.garbage) return Code::kInvalidArgument;
    if (p.tasks.empty()) {
      s.st = sMulNone;
      return Code::kOk;
    }
    std::vector<std::vector<ResSpec>> rs;
    std::vector<int> ids;
    for (int k : p.tasks) {
      const Task& t = *w.tasks[k];
      Code c = TaskError(t);
      x->per_task[k] = c;
      if (c != Code::kOk) continue;
      rs.push_back({t.plan, t.ckpt, t.policy});
      ids.push_back(k);
      s.t[k] = tAccepted;
    }
    x->callbacks = 1;
    x->callback_arg = ids.size();
    if (ids.empty()) return Code::kOk;
    std::vector<Code> got;
    Code c = FetchTasks(rs, &got);
    if (c != Code::kOk) return c;
    for (size_t j = 0; j < ids.size(); ++j) x->per_task[ids[j]] = got[j];
    s.st = sMulOk;
    return Code::kOk;
  }
  void Abort(const Task& t, Code why) {
    size_t at = i;
    Do({{kAbort, t.idx}}, true);
    if (i > at && b[at]->ex[0]->served && R(*b[at]->ex[0]).err != (int)why)
      throw Mismatch{absl::StrCat("the aggregation was aborted with status ", R(*b[at]->ex[0]).err, ", not ", (int)why)};
  }
  // form: 0 right, 1 wrong number of results, 2 a format that is not enabled; secure: quantized data
  Code Completed(int k, int form, bool secure) {
    const Task& t = *w.tasks[k];
    s.t[k] = tReported;
    if (secure) {
      Res r = Do({{kSecStart, k}, {kTaskReport, k}});
      Ex* e = nullptr;
      Code c = PollFrom(r.o[0], &e);
      if (c != Code::kOk) return c;
      Reply& p = R(*e);
      if (p.err) return (Code)p.err;
      if (p.inner == 1) return Code::kInvalidArgument;
      if (p.no_fwd) return Code::kInvalidArgument;
      return t.sec_result;
    }
    if (form) return Code::kInternal;
    bool conf = w.flags.conf && t.type == 2;
    Res r = Do({{kStartUp, k}, {kTaskReport, k}});
    Ex* e = nullptr;
    Code c = PollFrom(r.o[0], &e);
    if (c == Code::kOk) c = StartedUpload(R(*e), conf);
    if (c != Code::kOk) {
      s.t[k] = tPerm;
      return c;
    }
    if (conf) {
      if (t.verify_fails) c = Code::kFailedPrecondition;
      else if (t.bad_key) c = Code::kInvalidArgument;
      if (c != Code::kOk) {
        s.t[k] = tPerm;
        Abort(t, c);
        return c;
      }
    }
    r = Do({{kUpload, k}});
    c = r.o[0].code;
    if (c != Code::kOk) {
      s.t[k] = tPerm;
      if (c != Code::kAborted) Abort(t, c);
      return c;
    }
    r = Do({{kSubmit, k}});
    return r.o[0].code;
  }
  Code StartedUpload(const Reply& p, bool conf) {
    if (p.err) return (Code)p.err;
    if (p.inner == 1) return Code::kInvalidArgument;
    if (conf) {
      Code c = FetchProto(p.enc, p.enc_garbage);
      if (c != Code::kOk) return c;
    }
    return p.no_fwd || p.no_fwd2 ? Code::kInvalidArgument : Code::kOk;
  }
  Code NotCompleted(int k) {
    s.t[k] = tReported;
    return Do({{kTaskReport, k}}).o[0].code;
  }
};

enum Win { wAccepted, wRejected, wTransient, wPermanent };
Win WindowOf(const Ms& s) {
  switch (s.st) {
    case sEetPerm: case sInPerm: case sMulPerm: return wPermanent;
    case sInit: case sEetFail: case sInFail: case sMulFail: return s.retry_known ? wRejected : wTransient;
    case sRejected: case sDisabled: case sEnabled: case sInRejected: case sMulNone: return wRejected;
    case sInOk: case sMulOk: break;
  }
  if (!s.multi) {
    TState t = s.t.at(s.deflt);
    return t == tPerm ? wPermanent : wAccepted;
  }
  int ok = 0, perm = 0;
  for (auto& [k, t] : s.t) {
    ok += t == tReported;
    perm += t == tPerm;
  }
  int n = s.t.size();
  return perm == n ? wPermanent : ok == n ? wAccepted : wRejected;
}

struct Session {
  World w;
  std::vector<Ms> cand = {Ms()};
  std::unique_ptr<HttpFederatedProtocol> p;
  int64_t born = 0;
  bool abort_before = false;
  size_t first = 0;

  void Begin() {
    sim::NoPreempt np;
    abort_before = g_abort;
    first = w.c.batches.size();
    w.cache.hits.clear();
  }
  // Finds every explanation of what was seen; no explanation is a violation.
  template <typename F>
  void Explain(const char* call, F f) {
    std::vector<std::shared_ptr<net::Batch>> b(w.c.batches.begin() + first, w.c.batches.end());
    std::vector<Ms> next;
    Mismatch why;
    bool have = false;
    for (auto& s : cand) {
      for (int k = -1; k < 64; ++k) {
        if (k >= 0 && !g_abort) break;
        Model m(w, s, k);
        m.b = b;
        m.abortable = g_abort;
        bool fits = false;
        try {
          f(m);
          if (m.i < b.size()) {
            Ex& e = *b[m.i]->ex[0];
            throw Mismatch{absl::StrCat("an unexpected ", kKindName[e.kind], " was sent"),
                           e.kind == kPoll || e.kind == kCancel};
          }
          fits = true;
        } catch (const Mismatch& mm) {
          if (!have) why = mm;
          have = true;
        }
        if (k >= 0 && !m.noticed) break;        // no such point
        // An abort that came before the call is noticed at its first point.
        if (fits && abort_before && k != 0 && m.pt > 0) {
          fits = false;
          if (!have) why = {"a call made after the abort went on"};
          have = true;
        }
        if (fits) next.push_back(m.s);
        if (k < 0 && fits && !g_abort) break;
      }
    }
    if (next.empty()) {
      if (why.lro) sim::Violation("H03", "%s: %s", call, why.why.c_str());
      sim::Violation("H04", "%s: %s", call, why.why.c_str());
      sim::Finish();
    }
    cand = next;
    sim::Count("explained_calls");
  }
  void After(const char* call) {
    sim::NoPreempt np;
    sim::Event("%s done, %zu batches", call, w.c.batches.size() - first);
    SIM_CHECK("H04", w.c.live_handles == 0 && w.c.performing == 0, "%s left requests under way", call);
    if (w.punctual && w.c.f.slow == 0 && g_abort && !abort_before) {
      SIM_CHECK("H03", sim::NowNs() - g_abort_at <= 100 * kSec, "%s returned %.1f s after the abort", call,
                (sim::NowNs() - g_abort_at) / 1e9);
    }
  }
  void CheckStats() {
    NetworkStats n = p->GetNetworkStats();
    sim::NoPreempt np;
    SIM_CHECK("H09", n.bytes_downloaded == w.c.received && n.bytes_uploaded == w.c.sent,
              "network statistics say %lld/%lld bytes, %lld/%lld were transferred", (long long)n.bytes_downloaded,
              (long long)n.bytes_uploaded, (long long)w.c.received, (long long)w.c.sent);
    int64_t d = absl::ToInt64Nanoseconds(n.network_duration);
    SIM_CHECK("H09", d >= w.c.busy_ns, "network time of %.6f s, the network was busy for %.6f s", d / 1e9,
              w.c.busy_ns / 1e9);
    SIM_CHECK("H09", d <= sim::NowNs() - born - w.clock.slept,
              "network time of %.6f s, only %.6f s outside of waiting", d / 1e9,
              (sim::NowNs() - born - w.clock.slept) / 1e9);
  }
  bool picked[2] = {false, false};
  double lo[2], hi[2];
  void CheckWindow() {
    int64_t t0 = sim::RealtimeNs();
    auto rw = p->GetLatestRetryWindow();
    int64_t t1 = sim::RealtimeNs();
    sim::NoPreempt np;
    double mn = rw.delay_min().seconds() + rw.delay_min().nanos() / 1e9;
    double mx = rw.delay_max().seconds() + rw.delay_max().nanos() / 1e9;
    SIM_CHECK("H08", mn <= mx && mn >= 0, "retry window from %.3f to %.3f", mn, mx);
    std::vector<Ms> ok;
    std::string want;
    for (auto& s : cand) {
      Win k = WindowOf(s);
      bool fits;
      if (k == wTransient) {
        fits = mn >= 799.999 && mx <= 1200.001;
      } else if (k == wPermanent) {
        fits = mn >= 79999.999 && mx <= 120000.001;
      } else {
        double a = k == wAccepted ? w.accepted_min : w.rejected_min, z = k == wAccepted ? w.accepted_max : w.rejected_max;
        // The time was picked when the reply was handled.
        double early = (w.retry_t0 - t1) / 1e9, late = (w.retry_t1 - t0) / 1e9;
        fits = mn >= a + early - 0.001 && mx <= z + late + 0.001 && mx - mn < (t1 - t0) / 1e9 + 0.001;
        if (fits) {
          int j = k == wAccepted ? 0 : 1;
          double l = mn + t0 / 1e9, h = mx + t1 / 1e9;  // absolute
          if (picked[j]) {
            SIM_CHECK("H08", l <= hi[j] + 0.01 && h >= lo[j] - 0.01,
                      "the time to come back moved from %.3f to %.3f without news from the service", lo[j], l);
          }
          picked[j] = true;
          lo[j] = l;
          hi[j] = h;
        }
      }
      if (fits) ok.push_back(s);
      else want = k == wAccepted ? "accepted" : k == wRejected ? "rejected" : k == wTransient ? "transient error" : "permanent error";
    }
    if (ok.empty()) {
      sim::Violation("H08", "after '%s' the client was told to come back in %.0f to %.0f s", want.c_str(), mn, mx);
      sim::Finish();
    }
    cand = ok;
    sim::Count("windows_checked");
  }
  void Check(const char* call) {
    After(call);
    if (Choose(kWork, 2)) CheckStats();
    if (Choose(kWork, 2)) CheckWindow();
  }
  static std::string Str(const std::variant<std::string, absl::Cord>& v) {
    return std::holds_alternative<std::string>(v) ? std::get<std::string>(v) : std::string(std::get<absl::Cord>(v));
  }
  void SamePayload(const FP::PlanAndCheckpointPayloads& got, const Expect& x) {
    if (Str(got.plan) != (x.has_payload ? x.plan.plain : "") || Str(got.checkpoint) != (x.has_payload ? x.ckpt.plain : ""))
      throw Mismatch{"the plan or checkpoint returned differs from the service's"};
  }
  void SameTask(const FP::TaskAssignment& a, const Task& t, bool payload) {
    if (a.aggregation_session_id != t.agg || a.task_name != t.name || a.federated_select_uri_template != t.select)
      throw Mismatch{"a task assignment was returned with another's attributes"};
    if (a.sec_agg_info.has_value() != (t.type == 1) ||
        (t.type == 1 && a.sec_agg_info->minimum_clients_in_server_visible_aggregate != t.min_clients))
      throw Mismatch{"a task assignment lost its aggregation parameters"};
    if (a.confidential_agg_info.has_value() != (w.flags.conf && t.type == 2))
      throw Mismatch{"a task assignment lost its confidentiality"};
    if (payload) {
      if (Str(a.payloads.plan) != t.plan.plain || Str(a.payloads.checkpoint) != t.ckpt.plain)
        throw Mismatch{"the plan or checkpoint returned differs from the service's"};
      if (a.confidential_agg_info && std::string(a.confidential_agg_info->data_access_policy) != t.policy.plain)
        throw Mismatch{"the access policy returned differs from the service's"};
    }
  }
  void SameCode(const absl::Status& got, Code want) {
    if (got.code() != want)
      throw Mismatch{absl::StrCat("returned status ", (int)got.code(), " instead of ", (int)want)};
  }

  void Setup();
  void Run();
  void Report(int k);
};

void Session::Setup() {
  w.c.f = SwarmFaults();
  w.c.classify = [this](Ex& e) { w.Classify(e); };
  w.c.serve = [this](Ex& e) { w.Serve(e); };
  w.flags.conf = sim::ConfigChoose(2) || sim::Property() == std::string("C01");
  w.flags.nogz = sim::ConfigChoose(3) == 0;
  w.flags.lw = sim::ConfigChoose(3) == 0;
  w.flags.untie = sim::ConfigChoose(3) == 0;
  w.use_cache = sim::ConfigChoose(2);
  w.p_odd = sim::ConfigChoose(2) ? 0 : sim::ConfigUniform() * 0.12;
  w.max_polls = sim::ConfigChoose(4);
  w.punctual = sim::ConfigChoose(2);
  if (w.punctual) sim::tuning().p_time = 0;
  w.pop = w.Id("pop");
  w.api = "key-1";
  w.version = "ver7";
  w.measurement = "measured";
  Fwd f;
  f.base = Choose(kData, 2) ? "https://entry.test" : "https://entry.test/in/";
  w.fwds.push_back(f);
  if (w.flags.conf) {
    w.dec = std::make_unique<cc::MessageDecryptor>();
    auto k = w.dec->GetPublicKey([](absl::string_view) { return std::string("sig"); }, -7);
    if (!k.ok()) sim::HarnessError("no key");
    w.public_key = *k;
    auto cwt = cc::OkpCwt::Decode(*k);
    w.key_id = cwt->public_key->key_id;
  }
}

void Session::Report(int k) {
  Task& t = *w.tasks[k];
  bool by_id = !(cand[0].deflt == k);
  std::optional<std::string> id;
  if (by_id) id = t.agg;
  if (Choose(kWork, 20) == 19) {
    Begin();
    absl::Status s = Choose(kWork, 2) ? p->ReportCompleted(ComputationResults(), absl::Seconds(1), "no such id")
                                      : p->ReportNotCompleted(engine::PhaseOutcome::ERROR, absl::Seconds(1), "no such id");
    After("report with an unknown id");
    Explain("report with an unknown id", [&](Model& m) { SameCode(s, Code::kInvalidArgument); });
  }
  t.report_called = true;
  t.duration = absl::Milliseconds(sim::Range(kData, 0, 100000));
  w.current = k;
  if (Choose(kWork, 4) == 3) {
    static const engine::PhaseOutcome kO[] = {engine::PhaseOutcome::ERROR, engine::PhaseOutcome::INTERRUPTED,
                                              engine::PhaseOutcome::PHASE_OUTCOME_UNDEFINED};
    static const int kC[] = {13, 1, 2};
    int o = Choose(kWork, 3);
    t.outcome = kC[o];
    Begin();
    absl::Status s = p->ReportNotCompleted(kO[o], t.duration, id);
    After("ReportNotCompleted");
    Explain("ReportNotCompleted", [&](Model& m) { SameCode(s, m.NotCompleted(k)); });
    return;
  }
  t.completed = true;
  t.outcome = 0;
  // Which way a result goes follows its type, or the assignment's.
  bool secure = w.flags.conf ? t.type == 1 : Choose(kWork, 3) == 2;
  ComputationResults r;
  int form = 0;
  if (secure) {
    QuantizedTensor q;
    q.values = {1, 2, (uint64_t)k};
    q.bitwidth = 20;
    q.dimensions = {3};
    r["q"] = std::move(q);
    if (Choose(kWork, 2)) r["tensorflow_checkpoint"] = TFCheckpoint("tf");
  } else {
    t.data = Choose(kData, 4) ? Bytes(777 + k, Choose(kData, 3000)) : std::string(Choose(kData, 3000), 'q');
    bool fc = Choose(kWork, 2);
    bool ok;
    if (!w.flags.untie) ok = fc == w.flags.lw;
    else ok = !fc || w.flags.lw;
    if (!ok && Choose(kWork, 4)) {
      fc = !fc;
      ok = true;
    }
    if (fc) r["c"] = FCCheckpoint(t.data);
    else r["c"] = TFCheckpoint(t.data);
    form = ok ? 0 : 2;
    if (Choose(kWork, 20) == 19) {
      form = 1;
      if (Choose(kWork, 2)) r.clear();
      else r["d"] = TFCheckpoint("x");
    }
  }
  Begin();
  absl::Status s = p->ReportCompleted(std::move(r), t.duration, id);
  After("ReportCompleted");
  Explain("ReportCompleted", [&](Model& m) { SameCode(s, m.Completed(k, form, secure)); });
  if (s.ok() && !secure) {
    sim::NoPreempt np;
    SIM_CHECK("H04", t.upload_ok && t.submits == 1 && t.aborts == 0,
              "a result was reported as delivered, the service has it not");
    sim::Count("delivered");
  }
}

void Session::Run() {
  InterruptibleRunner::TimingConfig tc{.polling_period = absl::Milliseconds(50),
                                       .graceful_shutdown_period = absl::Hours(100),
                                       .extended_shutdown_period = absl::Hours(100)};
  born = sim::NowNs();
  p = std::make_unique<HttpFederatedProtocol>(
      &w.clock, &w.log, &w.flags, &w.c, std::make_unique<StubFactory>(&w), nullptr,
      w.use_cache ? &w.cache : nullptr, std::make_unique<StubVerifier>(&w), w.fwds[0].base, w.api, w.pop, "retry",
      w.version, w.measurement,
      [] {
        sim::NoPreempt np;
        return g_abort;
      },
      absl::BitGen(), tc);
  Check("construction");
  int calls = 0;
  {
    Begin();
    int64_t t0 = sim::RealtimeNs();
    auto got = p->EligibilityEvalCheckin([&](const FP::EligibilityEvalTask&) { calls++; });
    w.retry_t0 = t0;
    w.retry_t1 = sim::RealtimeNs();
    Explain("EligibilityEvalCheckin", [&](Model& m) {
      Expect x = m.Eet();
      SameCode(got.status(), x.code);
      if (calls != x.callbacks) throw Mismatch{absl::StrCat(calls, " callbacks")};
      if (!got.ok()) return;
      if (std::holds_alternative<FP::Rejection>(*got)) {
        if (x.variant != 0) throw Mismatch{"a rejection was returned"};
      } else if (auto* d = std::get_if<FP::EligibilityEvalDisabled>(&*got)) {
        if (x.variant != 2 || d->population_eligibility_spec.has_value() != x.has_spec)
          throw Mismatch{"returned that eligibility is not evaluated"};
      } else {
        auto& t = std::get<FP::EligibilityEvalTask>(*got);
        if (x.variant != 1) throw Mismatch{"an eligibility task was returned"};
        if (t.execution_id != x.exec_id) throw Mismatch{"another execution id was returned"};
        if (t.population_eligibility_spec.has_value() != x.has_spec ||
            (x.has_spec && t.population_eligibility_spec->eligibility_policies_size() != x.policies))
          throw Mismatch{"another eligibility specification was returned"};
        SamePayload(t.payloads, x);
      }
    });
    Check("EligibilityEvalCheckin");
    if (!got.ok() || std::holds_alternative<FP::Rejection>(*got)) return;
    if (std::holds_alternative<FP::EligibilityEvalTask>(*got)) {
      if (Choose(kWork, 6) == 5) {
        w.eet_error = 1 + Choose(kWork, 16);
        Begin();
        p->ReportEligibilityEvalError(absl::Status((Code)w.eet_error, "x"));
        Explain("ReportEligibilityEvalError", [&](Model& m) { m.EetError(); });
        Check("ReportEligibilityEvalError");
        return;
      }
      w.info.emplace();
      auto* tw = w.info->add_task_weights();
      tw->set_task_name("t");
      tw->set_weight(0.5);
    }
  }
  std::vector<int> mine;
  int order = Choose(kWork, 4);  // 0: check in only, 1: multiple only, 2: both, 3: both
  if (order) {
    int n = 1 + Choose(kWork, 3);
    for (int i = 0; i < n; ++i) w.names.push_back(w.Id("want"));
    calls = 0;
    size_t arg = 0;
    Begin();
    auto got = p->PerformMultipleTaskAssignments(w.names, [&](size_t k) {
      calls++;
      arg = k;
    });
    Explain("PerformMultipleTaskAssignments", [&](Model& m) {
      Expect x = m.Multi();
      SameCode(got.status(), x.code);
      if (calls != x.callbacks || arg != x.callback_arg) throw Mismatch{absl::StrCat(calls, " callbacks")};
      if (!got.ok()) return;
      if (got->task_assignments.size() != x.per_task.size()) throw Mismatch{"another number of tasks was returned"};
      for (auto& [k, c] : x.per_task) {
        const Task& t = *w.tasks[k];
        auto it = got->task_assignments.find(t.name);
        if (it == got->task_assignments.end()) throw Mismatch{"an assigned task is missing"};
        SameCode(it->second.status(), c);
        if (c == Code::kOk) SameTask(*it->second, t, true);
      }
    });
    if (got.ok()) {
      for (auto& t : w.tasks) {
        auto it = got->task_assignments.find(t->name);
        if (it != got->task_assignments.end() && it->second.ok()) mine.push_back(t->idx);
      }
    }
    Check("PerformMultipleTaskAssignments");
  }
  auto report_some = [&] {
    while (!mine.empty() && Choose(kWork, 8) != 7) {
      int j = Choose(kWork, mine.size());
      int k = mine[j];
      mine.erase(mine.begin() + j);
      Report(k);
      Check("report");
    }
  };
  if (order != 1) {
    bool later = Choose(kWork, 2);
    if (order && later && Choose(kWork, 2)) report_some();
    calls = 0;
    Begin();
    std::optional<FP::TaskAssignment> seen;
    auto got = p->Checkin(w.info, [&](const FP::TaskAssignment& a) {
      calls++;
      seen = a;
    });
    Explain("Checkin", [&](Model& m) {
      Expect x = m.Checkin();
      SameCode(got.status(), x.code);
      if (calls != x.callbacks) throw Mismatch{absl::StrCat(calls, " callbacks")};
      if (x.callbacks) SameTask(*seen, *w.tasks[x.task], false);
      if (!got.ok()) return;
      if (std::holds_alternative<FP::Rejection>(*got)) {
        if (x.variant != 2) throw Mismatch{"a rejection was returned"};
        return;
      }
      if (x.variant == 2) throw Mismatch{"a rejection was returned as an assignment"};
      SameTask(std::get<FP::TaskAssignment>(*got), *w.tasks[x.task], true);
    });
    if (got.ok() && std::holds_alternative<FP::TaskAssignment>(*got)) mine.push_back(cand[0].deflt);
    Check("Checkin");
  }
  report_some();
  CheckStats();
  CheckWindow();
}

void Main() {
  sim::SwarmTuning(false);
  auto s = std::make_unique<Session>();
  s->w.c.prop = "H04";
  s->Setup();
  g_abort = false;
  g_abort_at = -1;
  sim::SetExitHandler([](int) {
    SIM_CHECK("H03", g_abort && sim::NowNs() - g_abort_at >= 199 * 3600 * kSec, "process exits");
    sim::Finish();
  });
  std::thread aborter;
  bool stop = false;
  if (sim::ConfigChoose(3) == 0) {
    int64_t at = sim::NowNs() + sim::Range(kTime, 0, 60000) * kMs / (1 + 299 * sim::ConfigChoose(2));
    aborter = std::thread([&, at] {
      sim::BlockUntilDeadline([&] { return stop; }, at, "abort timer");
      sim::NoPreempt np;
      if (stop) return;
      g_abort = true;
      g_abort_at = sim::NowNs();
      sim::CountFault("abort");
    });
  }
  s->Run();
  {
    sim::NoPreempt np;
    stop = true;
  }
  if (aborter.joinable()) aborter.join();
  s->p.reset();
}
}  // namespace ses
