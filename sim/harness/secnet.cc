// Secure aggregation end to end over HTTP: several devices, each the real
// protocol client behind the real HTTP transport on a simulated network, and
// the real aggregation server behind a small service that keeps a ledger.
#include "http.inc"

#include <iostream>

#include "fcp/base/scheduler.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "fcp/client/http/http_secagg_send_to_server_impl.h"
#include "fcp/client/http/protocol_request_helper.h"
#include "fcp/client/interruptible_runner.h"
#include "fcp/client/secagg_event_publisher.h"
#include "fcp/client/secagg_runner.h"
#include "fcp/secagg/server/experiments_interface.h"
#include "fcp/secagg/server/secagg_scheduler.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/server/send_to_clients_interface.h"
#include "fcp/secagg/shared/secagg_messages.pb.h"
#include "fcp/secagg/shared/secagg_vector.h"

namespace sn {
using namespace fcp::secagg;  // NOLINT
using namespace ses;          // NOLINT
using S2C = ServerToClientWrapperMessage;
using C2S = ClientToServerWrapperMessage;
using ses::Code;

struct Experiments : ExperimentsInterface {
  std::set<std::string> on;
  bool IsEnabled(absl::string_view n) override { return on.count(std::string(n)) > 0; }
};
struct Publisher : SecAggEventPublisher {
  int errors = 0, by_client = 0, by_server = 0;
  std::vector<ClientState> states;
  void PublishStateTransition(ClientState s, size_t, size_t) override {
    sim::NoPreempt np;
    states.push_back(s);
  }
  void PublishError() override {
    sim::NoPreempt np;
    ++errors;
  }
  void PublishAbort(bool client, const std::string&) override {
    sim::NoPreempt np;
    ++(client ? by_client : by_server);
  }
  void set_execution_session_id(int64_t) override {}
};

enum Step { kR0, kR1, kR2, kR3 };
constexpr int kFwdSec = 0, kFwdMasked = 1, kFwdPlain = 2;

struct Device {
  int id = 0;
  World w;                       // its transport and clocks; ledger fields unused
  Publisher pub;
  std::string agg, token, masked_name, plain_name;
  std::optional<std::string> ckpt;
  std::map<std::string, std::vector<uint64_t>> input;
  int invalid = 0;               // input the runner must refuse
  int64_t abort_at = -1;
  // service side
  std::map<int, S2C> answer;     // by step
  int err = 0;                   // the service gave up on this device
  int served[4] = {};
  int aborts = 0, uploads_m = 0, uploads_p = 0;
  std::string masked_bytes, plain_bytes;
  std::set<int> odd_step;
  // device side
  absl::Status result;
  bool finished = false;
  int64_t t_end = 0, up = 0, down = 0;
};

struct Net {
  int n, min;
  bool faulty = false;
  std::vector<std::unique_ptr<Device>> d;
  std::vector<InputVectorSpecification> specs;
  std::unique_ptr<fcp::Scheduler> par, seq;
  std::unique_ptr<SendToClientsInterface> out;
  std::unique_ptr<SecAggServer> server;
  std::vector<std::pair<int, C2S>> inbox;
  std::set<int> included;
  int running = 0;
  int64_t idle;
  int neighbours, surviving;
};
Net* g;

[[noreturn]] void Bad(const char* what, int dev) {
  sim::Violation("H07", "device %d: %s", dev, what);
  sim::Finish();
}

struct ToClients : SendToClientsInterface {
  void Send(uint32_t id, const S2C& m) override {
    sim::NoPreempt np;
    Device& d = *g->d[id];
    if (m.has_share_keys_request()) d.answer[kR0] = m;
    else if (m.has_masked_input_request()) d.answer[kR1] = m;
    else if (m.has_unmasking_request()) d.answer[kR2] = m;
    else if (!d.err) d.err = (int)Code::kAborted;
  }
};

// ------------------------------------------------------------- the service
struct Service {
  Device& d;
  void Classify(Ex& e) {
    World& w = d.w;
    e.reply = std::make_shared<Reply>();
    std::string path;
    int f = w.FwdOf(e, &path);
    if (f < 0) Bad("a request went to an unknown server", d.id);
    auto fwd = [&](int want) {
      if (f != want) Bad("a request went to another server than the one it was to be forwarded to", d.id);
      for (auto& [k, v] : w.fwds[want].headers)
        if (net::Find(e.headers, k) != v) Bad("a request lacks a forwarding header", d.id);
      if (net::Find(e.headers, "x-goog-api-key") != w.api) Bad("a request lacks the API key", d.id);
    };
    if (path.compare(0, 17, "/upload/v1/media/") == 0) {
      std::string name;
      if (!w.Decode(path.substr(17), &name)) Bad("malformed request path", d.id);
      e.kind = name == d.masked_name ? kMasked : name == d.plain_name ? kPlain : -1;
      if (e.kind < 0 || e.query != "upload_protocol=raw" || e.method != HttpRequest::Method::kPost)
        Bad("malformed upload request", d.id);
      fwd(e.kind == kMasked ? kFwdMasked : kFwdPlain);
      return;
    }
    fwd(kFwdSec);
    if (path.compare(0, 15, "/v1/operations/") == 0) {
      std::string name;
      if (!w.Decode(path.substr(4), &name) || e.method != HttpRequest::Method::kGet)
        Bad("malformed poll", d.id);
      auto it = w.ops.find(name);
      if (it == w.ops.end()) Bad("a request names an operation that does not exist", d.id);
      e.kind = kPoll;
      R(e).op = name;
      return;
    }
    size_t colon = path.rfind(':');
    std::string action = colon == std::string::npos ? "" : path.substr(colon + 1);
    std::string base = path.substr(0, colon), pre = "/v1/secureaggregations/";
    size_t mid = base.find("/clients/");
    std::string a, t;
    if (base.compare(0, pre.size(), pre) != 0 || mid == std::string::npos ||
        !w.Decode(base.substr(pre.size(), mid - pre.size()), &a) || !w.Decode(base.substr(mid + 9), &t) ||
        e.method != HttpRequest::Method::kPost)
      Bad("malformed request path", d.id);
    if (a != d.agg) Bad("a request names another aggregation", d.id);
    if (t != d.token) Bad("a request carries another client's token", d.id);
    e.kind = action == "advertisekeys" ? kAdvertise : action == "sharekeys" ? kShareKeys
             : action == "submit" ? kSubmit : action == "unmask" ? kUnmask : action == "abort" ? kAbort : -1;
    if (e.kind < 0) Bad("malformed request path", d.id);
  }
  void Post(C2S m) { g->inbox.push_back({d.id, std::move(m)}); }
  void Once(int step) {
    if (++d.served[step] > 1) Bad("a step of the protocol was sent twice", d.id);
    if (step > 0 && (!d.served[step - 1] || !d.answer.count(step - 1)))
      Bad("a step of the protocol was sent before the answer to the one before it", d.id);
  }
  void Answer(Ex& e, int step, const std::string& name) {
    World& w = d.w;
    Reply& r = R(e);
    r.op = name;
    Operation p;
    p.set_name(name);
    bool have = d.answer.count(step);
    if (!have && !d.err) {
      if (w.Odd()) {
        r.bad_name = true;
        p.set_name("operation/x");
      }
      if (e.kind != kPoll) {
        r.interval = w.Interval(&p, step);
      } else {  // the others may be a minute away
        v1::ShareKeysMetadata m;
        m.mutable_polling_interval()->set_seconds(5 + Choose(kData, 56));
        r.interval = m.polling_interval().seconds() * kSec;
        p.mutable_metadata()->PackFrom(m);
      }
    } else {
      p.set_done(true);
      r.done = true;
      if (!have || w.Odd()) {
        r.err = d.err ? d.err : 1 + Choose(kFault, 16);
        p.mutable_error()->set_code(r.err);
      } else if (w.Odd()) {
        r.inner = 1;
        google::rpc::Status other;
        p.mutable_response()->PackFrom(other);
      } else if (step == kR0) {
        v1::AdvertiseKeysResponse a;
        *a.mutable_share_keys_server_request() = d.answer[step].share_keys_request();
        p.mutable_response()->PackFrom(a);
      } else if (step == kR1) {
        v1::ShareKeysResponse a;
        *a.mutable_masked_input_collection_server_request() = d.answer[step].masked_input_request();
        p.mutable_response()->PackFrom(a);
      } else {
        v1::SubmitSecureAggregationResultResponse a;
        *a.mutable_unmasking_server_request() = d.answer[step].unmasking_request();
        p.mutable_response()->PackFrom(a);
      }
    }
    e.rbody = p.SerializeAsString();
    if (w.Odd()) {
      r.garbage = true;
      e.rbody = "\xff\xff\xff";
    }
  }
  void StartOp(Ex& e, int step) {
    Op op;
    op.name = "operations/" + d.w.Id("op");
    op.kind = step;
    d.w.ops[op.name] = op;
    Answer(e, step, op.name);
  }
  void Serve(Ex& e) {
    World& w = d.w;
    if (w.flags.nogz && e.gzip) Bad("a request body was compressed although that is disabled", d.id);
    C2S m;
    switch (e.kind) {
      case kPoll: Answer(e, w.ops[R(e).op].kind, R(e).op); break;
      case kAdvertise: {
        v1::AdvertiseKeysRequest q;
        if (!q.ParseFromString(e.body)) Bad("unparseable request", d.id);
        Once(kR0);
        *m.mutable_advertise_keys() = q.advertise_keys();
        Post(m);
        StartOp(e, kR0);
        break;
      }
      case kShareKeys: {
        v1::ShareKeysRequest q;
        if (!q.ParseFromString(e.body)) Bad("unparseable request", d.id);
        Once(kR1);
        *m.mutable_share_keys_response() = q.share_keys_client_response();
        Post(m);
        StartOp(e, kR1);
        break;
      }
      case kMasked:
        if (++d.uploads_m > 1 || !d.answer.count(kR1)) Bad("masked result uploaded out of turn", d.id);
        d.masked_bytes = e.body;
        break;
      case kPlain:
        if (++d.uploads_p > 1 || !d.answer.count(kR1)) Bad("checkpoint uploaded out of turn", d.id);
        d.plain_bytes = e.body;
        if (!d.ckpt || e.body != *d.ckpt) Bad("another checkpoint was uploaded than the device's", d.id);
        break;
      case kSubmit: {
        v1::SubmitSecureAggregationResultRequest q;
        if (!q.ParseFromString(e.body)) Bad("unparseable request", d.id);
        Once(kR2);
        if (!d.uploads_m || (d.ckpt && !d.uploads_p)) Bad("a result was submitted before it was uploaded", d.id);
        if (q.masked_result_resource_name() != d.masked_name ||
            q.nonmasked_result_resource_name() != (d.ckpt ? d.plain_name : ""))
          Bad("a submission names other uploads than the device's", d.id);
        if (!m.mutable_masked_input_response()->ParseFromString(d.masked_bytes))
          Bad("the masked result cannot be parsed", d.id);
        CheckMasked(m.masked_input_response());
        Post(m);
        StartOp(e, kR2);
        break;
      }
      case kUnmask: {
        v1::UnmaskRequest q;
        if (!q.ParseFromString(e.body)) Bad("unparseable request", d.id);
        Once(kR3);
        *m.mutable_unmasking_response() = q.unmasking_client_response();
        Post(m);
        e.rbody = v1::UnmaskResponse().SerializeAsString();
        break;
      }
      case kAbort: {
        v1::AbortSecureAggregationRequest q;
        if (!q.ParseFromString(e.body)) Bad("unparseable request", d.id);
        if (q.status().code() == 0) Bad("an abort was reported as a success", d.id);
        if (++d.aborts > 1) Bad("an abort was sent twice", d.id);
        m.mutable_abort()->set_diagnostic_info(q.status().message());
        Post(m);
        break;
      }
      default: break;
    }
  }
  // What leaves the device is masked: never the input itself.
  void CheckMasked(const MaskedInputCollectionResponse& m) {
    for (auto& s : g->specs) {
      auto it = m.vectors().find(s.name());
      if (it == m.vectors().end()) Bad("the masked result lacks a vector", d.id);
      if (s.length() * SecAggVector::GetBitWidth(s.modulus()) < 64) continue;
      SecAggVector plain(d.input[s.name()], s.modulus());
      if (it->second.encoded_vector() == plain.GetAsPackedBytes())
        Bad("the input was uploaded without a mask", d.id);
    }
  }
};

// ---------------------------------------------------- what Run should return
Code Expected(Model& m, Device& d) {
  if (d.invalid) return Code::kInternal;
  static const int kinds[] = {kAdvertise, kShareKeys, kSubmit};
  for (int step = kR0; step <= kR2; ++step) {
    if (step == kR2) {
      std::vector<Want> want = {{kMasked}};
      if (d.ckpt) want.push_back({kPlain});
      auto r = m.Do(want);
      for (auto& o : r.o)
        if (o.code != Code::kOk) return o.code;
    }
    auto r = m.Do({{kinds[step]}});
    Ex* e;
    Code c = m.PollFrom(r.o[0], &e);
    if (c != Code::kOk) return c;
    Reply& p = R(*e);
    if (p.err) return (Code)p.err;
    if (p.inner) return step == kR2 ? Code::kInvalidArgument : Code::kInternal;
  }
  auto r = m.Do({{kUnmask}});
  return r.o[0].code;
}

void Judge(Device& d) {
  sim::NoPreempt np;
  bool aborted = d.abort_at >= 0 && d.t_end >= d.abort_at;
  std::string why;
  bool fits = false;
  for (int k = -1; k < 64 && !fits; ++k) {
    if (k >= 0 && !aborted) break;
    Model m(d.w, Ms(), k);
    m.b = d.w.c.batches;
    m.abortable = aborted;
    try {
      Code c = Expected(m, d);
      // The outer loop may notice the abort when the protocol is through.
      bool ok = d.result.code() == c || (aborted && d.result.code() == Code::kCancelled);
      if (m.noticed && d.result.code() != Code::kCancelled) ok = false;
      if (!ok) throw Mismatch{absl::StrCat("ended with code ", (int)d.result.code(), ", expected ", (int)c)};
      if (aborted && m.i < m.b.size() && m.b[m.i]->ex[0]->kind == kAbort) ++m.i;
      if (m.i < m.b.size())
        throw Mismatch{absl::StrCat("an unexpected ", kKindName[m.b[m.i]->ex[0]->kind], " was sent")};
      fits = true;
    } catch (const Mismatch& mm) {
      if (why.empty()) why = mm.why;
    }
    if (k >= 0 && !m.noticed) break;
  }
  if (!fits) {
    for (auto& b : d.w.c.batches)
      sim::Event("device %d: %s at %.3f s, ended %.3f s with %d/%d, reply done %d err %d", d.id,
                 kKindName[b->ex[0]->kind], b->t_begin / 1e9, b->t_end / 1e9, b->ex[0]->code, (int)b->ex[0]->end,
                 R(*b->ex[0]).done, R(*b->ex[0]).err);
    sim::Event("abort at %.3f s", d.abort_at / 1e9);
    Bad(why.c_str(), d.id);
  }
  int told = 0;
  for (auto& b : d.w.c.batches)
    for (auto& e : b->ex) told += e->kind == kAbort;
  if (told > 1) Bad("an abort was sent twice", d.id);
  bool done = !d.pub.states.empty() && d.pub.states.back() == ClientState::COMPLETED;
  // Within a second an abort has been noticed, whatever the protocol is doing.
  bool late = aborted && !d.result.ok() && d.t_end - d.abort_at > kSec;
  if ((d.pub.by_client || late) && !done && d.w.punctual && !told)
    Bad("the device gave up without telling the service", d.id);
  if (told && !d.pub.by_client) Bad("an abort was sent although the device did not give up", d.id);
  if (d.result.ok() && !d.invalid) {
    for (int i = 0; i < 4; ++i)
      if (d.served[i] != 1) Bad("success was reported without every step having reached the service", d.id);
    if (!done) Bad("success was reported although the protocol did not complete", d.id);
  }
  if (d.pub.errors && !aborted) Bad("a message of a correct server was refused", d.id);
  if (aborted && d.w.punctual && d.w.c.f.slow == 0 && d.t_end - d.abort_at > 100 * kSec)
    sim::Violation("H07", "device %d: stopped only %.1f s after the abort", d.id, (d.t_end - d.abort_at) / 1e9);
  if (d.up != d.w.c.sent || d.down != d.w.c.received)
    sim::Violation("H07", "device %d: %lld/%lld bytes counted, the transport saw %lld/%lld", d.id,
                   (long long)d.up, (long long)d.down, (long long)d.w.c.sent, (long long)d.w.c.received);
  sim::Count(d.result.ok() ? "device_ok" : "device_failed");
}

// ----------------------------------------------------------------- a device
void RunDevice(Device& d) {
  World& w = d.w;
  v1::ForwardingInfo sec;
  v1::ByteStreamResource rm, rp;
  google::protobuf::Map<std::string, v1::SecureAggregandExecutionInfo> aggregands;
  ComputationResults results;
  {
    sim::NoPreempt np;
    w.PutFwd(kFwdSec, &sec);
    w.PutFwd(kFwdMasked, rm.mutable_data_upload_forwarding_info());
    w.PutFwd(kFwdPlain, rp.mutable_data_upload_forwarding_info());
    rm.set_resource_name(d.masked_name);
    rp.set_resource_name(d.plain_name);
    for (auto& s : g->specs) {
      if (d.invalid == 3 && &s == &g->specs[0]) aggregands["other"].set_modulus(s.modulus());
      else aggregands[s.name()].set_modulus(s.modulus());
      QuantizedTensor q;
      q.values = d.input[s.name()];
      q.bitwidth = 7;
      q.dimensions = {(int64_t)q.values.size()};
      if (q.values.size() % 2 == 0) q.dimensions = {2, (int64_t)q.values.size() / 2};
      if (d.invalid == 1) q.values.back() = s.modulus();
      if (d.invalid == 2) q.dimensions.push_back(3);
      if (d.invalid == 4) aggregands[s.name()].set_modulus(1);
      if (d.invalid == 5) {
        q.values.clear();
        q.dimensions = {0};
      }
      results[s.name()] = std::move(q);
    }
  }
  auto should_abort = [&d] {
    sim::NoPreempt np;
    return d.abort_at >= 0 && sim::NowNs() >= d.abort_at;
  };
  using RI = InterruptibleRunner;
  RI::DiagnosticsConfig diag;
  diag.interrupted = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP;
  diag.interrupt_timeout = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT;
  diag.interrupted_extended = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED;
  diag.interrupt_timeout_extended = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT;
  RI::TimingConfig timing;
  timing.polling_period = absl::Milliseconds(50);
  timing.graceful_shutdown_period = absl::Hours(100);
  timing.extended_shutdown_period = absl::Hours(100);
  auto stopwatch = fcp::WallClockStopwatch::Create();
  {
    ProtocolRequestHelper helper(&w.c, &d.down, &d.up, stopwatch.get(), &w.clock);
    RI inner(&w.log, should_abort, timing, diag), outer(&w.log, should_abort, timing, diag);
    absl::StatusOr<S2C> holder;
    auto send = HttpSecAggSendToServerImpl::Create(
        w.api, &w.clock, &helper, &inner,
        [&](absl::Time t) {
          return std::make_unique<RI>(&w.log, [t] { return absl::Now() > t; }, timing, diag);
        },
        &holder, d.agg, d.token, sec, rm, rp, d.ckpt, w.flags.nogz, absl::Seconds(5));
    if (!send.ok()) Bad("the transport could not be set up", d.id);
    auto del = std::make_unique<HttpSecAggProtocolDelegate>(aggregands, &holder);
    SecAggRunnerFactoryImpl factory;
    SecAggRunnerFactory& f = factory;
    auto runner = f.CreateSecAggRunner(std::move(*send), std::move(del), &d.pub, &w.log, &outer,
                                       g->neighbours, g->surviving);
    absl::Status s = runner->Run(std::move(results));
    sim::NoPreempt np;
    d.result = s;
    d.t_end = sim::NowNs();
    sim::Event("device %d ends with %d", d.id, (int)s.code());
  }
  sim::NoPreempt np;
  d.finished = true;
  g->running--;
}

void CheckResult() {
  auto r = g->server->Result();
  if (!r.ok()) sim::Violation("H07", "the server completed without a result");
  for (auto& s : g->specs) {
    auto it = (*r)->find(s.name());
    if (it == (*r)->end()) sim::Violation("H07", "the result lacks a vector");
    auto got = it->second.GetAsUint64Vector();
    if (got.size() != (size_t)s.length()) sim::Violation("H07", "a result vector has the wrong length");
    for (int i = 0; i < s.length(); ++i) {
      uint64_t sum = 0;
      for (int c : g->included) sum = (sum + g->d[c]->input[s.name()][i]) % s.modulus();
      if (sum != got[i])
        sim::Violation("H07", "the aggregate is not the sum of the %zu submitted results", g->included.size());
    }
  }
  sim::Count("aggregates");
}

void Serve() {
  SecAggServer& s = *g->server;
  using K = SecAggServerStateKind;
  int rounds = 0;
  while (true) {
    bool left = g->running == 0;  // nobody left: wait for the server's own work only
    sim::BlockUntilDeadline([&] { return !g->inbox.empty() || (!left && g->running == 0); },
                            sim::NowNs() + (left ? kSec : g->idle), "service");
    bool idle = g->inbox.empty();
    K k = s.State();
    bool terminal = k == K::COMPLETED || k == K::ABORTED;
    if (idle && left && (terminal || ++rounds > 20)) break;
    if (!idle) {
      std::pair<int, C2S> m;
      {
        sim::NoPreempt np;
        size_t at = Choose(kNet, g->inbox.size());
        m = g->inbox[at];
        g->inbox.erase(g->inbox.begin() + at);
      }
      auto r = s.ReceiveMessage(m.first, std::make_unique<C2S>(m.second));
      sim::NoPreempt np;
      sim::Event("service: message of %d in state %d: %d", m.first, (int)k, (int)r.status().code());
      if (m.second.has_masked_input_response() && k == K::R2_MASKED_INPUT_COLLECTION && r.ok())
        g->included.insert(m.first);
    }
    k = s.State();
    terminal = k == K::COMPLETED || k == K::ABORTED;
    if (!terminal) {
      auto ready = s.ReadyForNextRound();
      bool all = s.NumberOfPendingClients() == 0;
      if (ready.ok() && *ready && (all || (g->faulty && (idle || Choose(kNet, 12) == 11)))) (void)s.ProceedToNextRound();
      else if (idle && g->faulty && k != K::PRNG_RUNNING) (void)s.Abort("too few devices", SecAggServerOutcome::EXTERNAL_REQUEST);
    }
    k = s.State();
    if (k == K::COMPLETED || k == K::ABORTED) {
      sim::NoPreempt np;
      for (auto& d : g->d)
        if (!d->err) d->err = (int)Code::kAborted;
    }
  }
}

void Main() {
  std::cerr.setstate(std::ios::failbit);  // trace text is not looked at
  sim::SwarmTuning(sim::ConfigChoose(3) == 0);
  auto net = std::make_unique<Net>();
  g = net.get();
  g->n = 3 + Choose(kWork, 2);
  g->min = 2 + Choose(kWork, Choose(kWork, 3) ? 1 : g->n - 1);
  int nspec = 1 + Choose(kWork, 2);
  for (int i = 0; i < nspec; ++i) {
    static const uint64_t mods[] = {256, 2, 3, 1ull << 32, SecAggVector::kMaxModulus};
    static const int lens[] = {4, 1, 9, 40};
    uint64_t mod = Choose(kWork, 6) ? mods[Choose(kWork, 5)] : 2 + Choose(kWork, 100000);
    g->specs.emplace_back("v" + std::to_string(i), lens[Choose(kWork, 4)], mod);
  }
  auto exp = std::make_unique<Experiments>();
  exp->on.insert("FULLGRAPH_SECAGG");
  if (Choose(kWork, 2)) exp->on.insert("secagg_async_round_2");
  SecureAggregationRequirements tm;
  tm.set_adversary_class(AdversaryClass::CURIOUS_SERVER);
  tm.set_adversarial_client_rate(0);
  tm.set_estimated_dropout_rate(0.9);
  g->par = fcp::CreateThreadPoolScheduler(1);
  g->seq = fcp::CreateThreadPoolScheduler(1);
  g->out = std::make_unique<ToClients>();
  auto srv = SecAggServer::Create(g->min, g->n, g->specs, g->out.get(), nullptr,
                                  std::make_unique<SecAggScheduler>(g->par.get(), g->seq.get()),
                                  std::move(exp), tm);
  if (!srv.ok()) sim::HarnessError("server rejected the configuration");
  g->server = std::move(srv.value());
  g->idle = 300 * kSec;
  g->neighbours = g->server->NumberOfNeighbors();
  g->surviving = g->server->MinimumSurvivingNeighborsForReconstruction();
  bool punctual = sim::ConfigChoose(2), calm = sim::ConfigChoose(4) == 0;
  if (punctual) sim::tuning().p_time = 0;
  for (int i = 0; i < g->n; ++i) {
    g->d.push_back(std::make_unique<Device>());
    Device& d = *g->d.back();
    World& w = d.w;
    d.id = i;
    w.c.prop = "H07";
    w.c.f = SwarmFaults();
    if (calm || sim::ConfigChoose(3)) w.c.f = net::Faults();
    w.p_odd = !calm && sim::ConfigChoose(6) == 0 ? 0.1 : 0;
    w.punctual = punctual;
    w.flags.nogz = Choose(kData, 2);
    w.api = w.Id("key");
    for (int k = 0; k < 3; ++k) w.NewFwd();
    d.agg = w.Id("agg");
    d.token = w.Id("tok");
    d.masked_name = w.Id("masked");
    d.plain_name = w.Id("plain");
    if (Choose(kWork, 2)) d.ckpt = Bytes(i, Choose(kData, 400));
    for (auto& s : g->specs) {
      std::vector<uint64_t> v(s.length());
      for (auto& x : v) x = Choose(kData, 3) ? sim::Rand64() % s.modulus() : s.modulus() - 1;
      d.input[s.name()] = v;
    }
    if (!calm && sim::ConfigChoose(25) == 0) d.invalid = 1 + Choose(kWork, 5);
    if (!calm && sim::ConfigChoose(6) == 0) {
      int64_t span[] = {5, 300, 5000, 200000};
      d.abort_at = sim::NowNs() + sim::Range(kTime, 0, span[Choose(kTime, 4)]) * kMs;
      sim::CountFault("abort");
    }
    auto& f = w.c.f;
    if (d.invalid || d.abort_at >= 0 || w.p_odd > 0 || f.lost_request + f.lost_response + f.body_error + f.truncate + f.http_error + f.hang > 0)
      g->faulty = true;
    auto sv = std::make_shared<Service>(Service{d});
    w.c.classify = [sv](Ex& e) { sv->Classify(e); };
    w.c.serve = [sv](Ex& e) { sv->Serve(e); };
  }
  sim::SetExitHandler([punctual](int) {
    SIM_CHECK("H07", !punctual, "an aborted device hangs until its process is ended");
    sim::Finish();
  });
  g->running = g->n;
  std::vector<std::thread> th;
  for (auto& d : g->d) th.emplace_back([&d] { RunDevice(*d); });
  Serve();
  for (auto& t : th) t.join();
  sim::Count(g->faulty ? "faulty_rounds" : "clean_rounds");
  for (auto& d : g->d) Judge(*d);
  bool complete = g->server->IsCompletedSuccessfully();
  if (complete) CheckResult();
  if (!g->faulty) {
    for (auto& d : g->d)
      if (!d->result.ok()) Bad("failed although nothing went wrong", d->id);
    if (!complete) sim::Violation("H07", "no aggregate although nothing went wrong");
    if ((int)g->included.size() != g->n) sim::Violation("H07", "a device was left out although nothing went wrong");
  }
  g->server.reset();
  g->par->WaitUntilIdle();
  g->seq->WaitUntilIdle();
}
}  // namespace sn

const char* kRealComponents[] = {
    "fcp/client/secagg_runner.cc", "fcp/client/http/http_secagg_send_to_server_impl.cc",
    "fcp/client/http/protocol_request_helper.cc", "fcp/client/http/in_memory_request_response.cc",
    "fcp/client/interruptible_runner.cc", "fcp/secagg/client/*", "fcp/secagg/server/*",
    "fcp/secagg/shared/*", "fcp/base/scheduler.cc", nullptr};
const char* kStubComponents[] = {"HTTP client and the network (simulated)",
                                 "aggregation service front end (reference ledger around the real server)",
                                 "absl synchronisation (scheduler seam)", "system clocks", "entropy source",
                                 "log manager", "event publisher", nullptr};

void SimRun() { sn::Main(); }
