// The HTTP protocol layer of the client: in-memory requests and downloads,
// long-running operations, and whole sessions with the task service.
#include <string.h>
#include <zlib.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/random/random.h"
#include "absl/status/status.h"
#include "absl/strings/ascii.h"
#include "absl/strings/escaping.h"
#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "fcp/client/cache/resource_cache.h"
#include "fcp/client/http/http_client.h"
#include "fcp/base/clock.h"
#include "fcp/base/digest.h"
#include "fcp/client/attestation/attestation_verifier.h"
#include "fcp/client/flags.h"
#include "fcp/client/http/http_federated_protocol.h"
#include "fcp/client/http/in_memory_request_response.h"
#include "fcp/client/interruptible_runner.h"
#include "fcp/client/log_manager.h"
#include "fcp/client/secagg_runner.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "fcp/protos/confidentialcompute/blob_header.pb.h"
#include "fcp/protos/federatedcompute/aggregations.pb.h"
#include "fcp/protos/federatedcompute/confidential_aggregations.pb.h"
#include "fcp/protos/federatedcompute/eligibility_eval_tasks.pb.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "fcp/protos/federatedcompute/task_assignments.pb.h"
#include "sim.h"

namespace {
using sim::Choose;
using sim::kData;
using sim::kFault;
using sim::kNet;
using sim::kTime;
using sim::kWork;
}  // namespace

#include "simnet.inc"

namespace {
using namespace fcp::client;        // NOLINT
using namespace fcp::client::http;  // NOLINT
constexpr int64_t kMs = 1000000, kSec = 1000000000;

std::string Bytes(uint64_t tag, size_t n) {
  std::string s(n, 0);
  uint64_t x = tag * 0x9e3779b97f4a7c15ull + 1;
  for (auto& c : s) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    c = static_cast<char>(x >> 56);
  }
  return s;
}

struct NoLog : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int,
                          engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

absl::StatusCode CodeOf(int http) {
  using S = absl::StatusCode;
  switch (http) {
    case 400: return S::kInvalidArgument;
    case 401: return S::kUnauthenticated;
    case 403: return S::kPermissionDenied;
    case 404: return S::kNotFound;
    case 409: return S::kAborted;
    case 429: return S::kResourceExhausted;
    case 499: return S::kCancelled;
    case 501: return S::kUnimplemented;
    case 503: return S::kUnavailable;
    case 504: return S::kDeadlineExceeded;
  }
  if (http >= 200 && http < 300) return S::kOk;
  if (http >= 400 && http < 500) return S::kFailedPrecondition;
  if (http >= 500 && http < 600) return S::kInternal;
  return S::kUnknown;
}

net::Faults SwarmFaults() {
  net::Faults f;
  if (sim::ConfigChoose(5) == 0) return f;
  auto on = [](double hi) { return sim::ConfigChoose(3) == 0 ? sim::ConfigUniform() * hi : 0.0; };
  f.lost_request = on(0.2);
  f.lost_response = on(0.2);
  f.body_error = on(0.2);
  f.truncate = on(0.2);
  f.http_error = on(0.25);
  f.hang = on(0.1);
  f.slow = on(0.3);
  return f;
}

// A cache with every freedom its interface has.
struct FlakyCache : cache::ResourceCache {
  struct Entry {
    absl::Cord data;
    google::protobuf::Any meta;
  };
  std::map<std::string, Entry> m;
  double p_get = 0, p_put = 0, p_meta = 0, p_rot = 0;
  std::set<std::string> hits;                       // in this call
  std::map<std::string, std::pair<std::string, absl::Duration>> puts;  // in this call
  std::map<std::string, int> nputs;
  std::set<std::string> gz_ids;                     // resources sent compressed
  absl::Status Put(absl::string_view id, const absl::Cord& r, const google::protobuf::Any& meta,
                   absl::Duration age) override {
    sim::NoPreempt np;
    puts[std::string(id)] = {std::string(r), age};
    nputs[std::string(id)]++;
    if (p_put > 0 && sim::Flip(kFault, p_put)) {
      sim::CountFault("cache_put_error");
      return absl::InternalError("disk");
    }
    m[std::string(id)] = {r, meta};
    return absl::OkStatus();
  }
  absl::StatusOr<ResourceAndMetadata> Get(absl::string_view id,
                                          std::optional<absl::Duration> age) override {
    sim::NoPreempt np;
    auto it = m.find(std::string(id));
    if (it == m.end()) return absl::NotFoundError("no");
    if (p_get > 0 && sim::Flip(kFault, p_get)) {
      sim::CountFault("cache_get_error");
      return absl::InternalError("disk");
    }
    ResourceAndMetadata r{it->second.data, it->second.meta};
    std::string raw(r.resource);
    if (p_meta > 0 && sim::Flip(kFault, p_meta)) {
      sim::CountFault("cache_metadata_damaged");
      r.metadata.set_type_url("type.googleapis.com/other.Type");
      return r;
    }
    bool gz = gz_ids.count(std::string(id)) && raw.size() >= 18;
    if (gz && p_rot > 0 && sim::Flip(kFault, p_rot)) {
      sim::CountFault("cache_bit_rot");
      raw[raw.size() - 8 + Choose(kFault, 8)] ^= 1 << Choose(kFault, 8);
      r.resource = absl::Cord(raw);
    }
    std::string x;
    if (!gz || net::Gunzip(raw, &x)) hits.insert(std::string(id));
    return r;
  }
};

// ======================================================================== H02
struct Res {
  std::string uri, id;         // id: cache id, may be empty
  absl::Duration age;
  std::string plain;           // what the caller should get
  std::string wire;            // what is sent
  bool gzip = false, corrupt = false, inline_data = false;
  // response oddities
  int code = 200;
  HeaderList h;
  bool declare = true;
  int64_t declared = -1;
  bool refuse = false;         // a header makes the response unacceptable
  std::string ctype;
};

bool g_abort;
int64_t g_abort_at;

struct H02 {
  net::Client c;
  NoLog log;
  FlakyCache cache;
  std::vector<Res> pool;
  std::map<std::string, Res*> by_uri;

  Res MakeRes(int i) {
    Res r;
    static const char* kBase[] = {"https://a.test/r", "https://b.test:444/x/y",
                                  "http://localhost:8080/r", "HTTP://LOCALHOST:1/q?z="};
    r.uri = kBase[Choose(kWork, 4)] + std::to_string(i);
    size_t n = Choose(kData, 4) == 0 ? Choose(kData, 3) : Choose(kData, 3000);
    r.plain = Choose(kData, 2) ? Bytes(i + 1, n) : std::string(n, 'a' + i % 26);
    if (Choose(kWork, 2)) {
      r.id = "cache" + std::to_string(i);
      r.age = absl::Hours(1 + i);
    }
    r.gzip = Choose(kWork, 2);
    r.inline_data = Choose(kWork, 4) == 0;
    r.wire = r.gzip ? net::Gzip(r.plain) : r.plain;
    if (r.gzip && Choose(kFault, 5) == 4) {
      r.corrupt = true;
      r.wire[r.wire.size() - 8 + Choose(kFault, 4)] ^= 1 << Choose(kFault, 8);
    }
    static const char* kGz[] = {"application/octet-stream+gzip", "application/x+GZIP",
                                "text/PLAIN+Gzip", "+gzip"};
    static const char* kPlain[] = {"application/octet-stream", "application/gzip", "", "a/gzip+b",
                                   "application/octet-stream+gzip2"};
    r.ctype = r.gzip ? kGz[Choose(kData, 4)] : kPlain[Choose(kData, 5)];
    static const char* kCt[] = {"Content-Type", "content-type", "CONTENT-TYPE"};
    if (!r.ctype.empty()) r.h.push_back({kCt[Choose(kData, 3)], r.ctype});
    if (Choose(kData, 3) == 1) r.h.insert(r.h.begin(), {"X-Content-Length", "3"});
    if (Choose(kData, 8) == 1) {
      r.h.push_back({"Transfer-Encoding", Choose(kData, 2) ? "Identity" : "identity"});
    } else if (Choose(kFault, 3) == 2) {
      switch (Choose(kFault, 8)) {
        case 0: r.declare = false; break;
        case 1: r.declared = r.wire.size() + 1 + Choose(kFault, 3); break;
        case 2: if (!r.wire.empty()) r.declared = r.wire.size() - 1; break;
        case 3: r.declare = false; r.refuse = true; r.h.push_back({"Content-Length", "-1"}); break;
        case 4: r.declare = false; r.refuse = true; r.h.push_back({"content-length", "12x"}); break;
        case 5: r.refuse = true; r.h.push_back({"transfer-encoding", "chunked"}); break;
        case 6: r.refuse = true; r.h.push_back({"Content-encoding", "gzip"}); break;
        case 7: {
          static const int kCodes[] = {201, 204, 299, 404, 503, 409, 403, 200, 304, 199, 300, 600};
          r.code = kCodes[Choose(kFault, 12)];
          break;
        }
      }
    }
    return r;
  }
  // What the caller must be told about one finished exchange.
  void CheckOne(const net::Ex& e, const Res* r, const absl::StatusOr<InMemoryHttpResponse>& got,
                bool decode) {
    const char* P = "H02";
    if (e.end == net::Ex::kError) {
      SIM_CHECK(P, !got.ok(), "a request that failed in transport was reported as a success");
      SIM_CHECK(P, got.status().code() == e.err, "a transport error %d was reported as %d", (int)e.err,
                (int)got.status().code());
      return;
    }
    if (e.end == net::Ex::kRefused) {
      bool legit = r && (r->refuse || (r->declared >= 0 && r->declared < (int64_t)r->wire.size()));
      SIM_CHECK(P, legit, "a proper response was refused (HTTP %d)", e.code);
      SIM_CHECK(P, !got.ok(), "a refused response was reported as a success");
      return;
    }
    SIM_CHECK(P, e.end == net::Ex::kDone, "a result was reported for a request without an end");
    bool served = e.served && r;
    if (served && r->refuse) {
      SIM_CHECK(P, !got.ok(), "a response with unacceptable headers was accepted");
      return;
    }
    bool complete = e.whole && !(served && r->declared >= 0 && r->declared != (int64_t)r->wire.size());
    if (!complete) {
      SIM_CHECK(P, !got.ok(), "an incomplete response was reported as a success");
      return;
    }
    absl::StatusCode want = CodeOf(e.code);
    if (want != absl::StatusCode::kOk) {
      SIM_CHECK(P, !got.ok(), "HTTP status %d was reported as a success", e.code);
      SIM_CHECK(P, got.status().code() == want, "HTTP status %d was reported as %d, not %d", e.code,
                (int)got.status().code(), (int)want);
      return;
    }
    if (decode && r->corrupt) {
      SIM_CHECK(P, !got.ok(), "damaged compressed data was accepted");
      return;
    }
    SIM_CHECK(P, got.ok(), "a complete and correct response was reported as an error (%s)",
              got.ok() ? "" : std::string(got.status().message()).c_str());
    SIM_CHECK(P, got->code == e.code, "the response code was changed");
    const std::string& body = decode ? r->plain : e.rbody;
    SIM_CHECK(P, std::string(got->body) == body, "a download of %zu bytes differs from the resource (%zu bytes)",
              got->body.size(), body.size());
    SIM_CHECK(P, got->content_type == net::Find(e.rheaders, "Content-Type"), "the content type was changed");
    sim::Cover(got->body.size() > 700 ? 1 : 2);
  }
};

void RunH02() {
  sim::SwarmTuning(true);
  auto w = std::make_unique<H02>();
  H02& h = *w;
  const char* P = "H02";
  h.c.prop = P;
  h.c.f = SwarmFaults();
  auto on = [](double hi) { return sim::ConfigChoose(2) ? sim::ConfigUniform() * hi : 0.0; };
  h.cache.p_get = on(0.5);
  h.cache.p_put = on(0.5);
  h.cache.p_meta = on(0.5);
  h.cache.p_rot = on(0.7);
  int n = 1 + Choose(kWork, 7);
  for (int i = 0; i < n; ++i) h.pool.push_back(h.MakeRes(i));
  for (auto& r : h.pool) {
    h.by_uri[r.uri] = &r;
    if (r.gzip) h.cache.gz_ids.insert(r.id);
  }
  h.c.serve = [&](net::Ex& e) {
    auto it = h.by_uri.find(e.uri);
    if (it == h.by_uri.end()) {  // echo
      e.rbody = "echo:" + e.body;
      if (!net::Find(e.headers, "Accept-Encoding").empty()) e.rheaders.push_back({"Content-Encoding", "x-own"});
      return;
    }
    Res& r = *it->second;
    e.code = r.code;
    e.rheaders = r.h;
    e.rbody = r.wire;
    e.declare_length = r.declare;
    e.declared = r.declared;
  };
  InterruptibleRunner::TimingConfig tc{.polling_period = absl::Milliseconds(50),
                                       .graceful_shutdown_period = absl::Hours(100),
                                       .extended_shutdown_period = absl::Hours(100)};
  InterruptibleRunner::DiagnosticsConfig dc{};
  g_abort = false;
  g_abort_at = -1;
  // Timers may fire arbitrarily early relative to the transport, so even the
  // last resort of an abort that is not answered can be reached.
  sim::SetExitHandler([](int) {
    SIM_CHECK("H02", g_abort && sim::NowNs() - g_abort_at >= 199 * 3600 * kSec, "process exits");
    sim::Finish();
  });
  bool punctual = sim::ConfigChoose(2);
  if (punctual) sim::tuning().p_time = 0;
  std::thread aborter;
  bool stop = false;
  {
    InterruptibleRunner runner(&h.log, [] {
      sim::NoPreempt np;
      return g_abort;
    }, tc, dc);
    if (sim::ConfigChoose(3) == 0) {
      int64_t at = sim::NowNs() + sim::Range(kTime, 0, 20000) * kMs / (1 + 99 * sim::ConfigChoose(2));
      aborter = std::thread([&, at] {
        sim::BlockUntilDeadline([&] { return stop; }, at, "abort timer");
        sim::NoPreempt np;
        if (stop) return;
        g_abort = true;
        g_abort_at = sim::NowNs();
        sim::CountFault("abort");
      });
    }
    int rounds = 1 + Choose(kWork, 4);
    int64_t rx = 0, tx = 0;
    for (int k = 0; k < rounds; ++k) {
      size_t first = h.c.batches.size();
      bool before;
      {
        sim::NoPreempt np;
        before = g_abort;
        h.cache.hits.clear();
        h.cache.puts.clear();
        h.cache.nputs.clear();
      }
      bool use_acc = Choose(kWork, 5) != 4;
      int64_t rx0 = h.c.received, tx0 = h.c.sent, rxa = rx, txa = tx;
      int mode = Choose(kWork, 4);
      absl::Status overall;
      std::vector<absl::StatusOr<InMemoryHttpResponse>> out;
      std::vector<Res*> want;              // per result
      std::vector<std::string> posted, sent_uri;
      bool bad = false, use_cache = false;
      if (mode < 2) {
        int m = Choose(kWork, 7);
        std::vector<UriOrInlineData> rs;
        for (int i = 0; i < m; ++i) {
          Res& r = h.pool[Choose(kWork, h.pool.size())];
          // Cached resources are named once per call, so that hits are clear.
          bool dup = false;
          for (auto* x : want) dup |= x == &r && !r.id.empty();
          if (dup) continue;
          want.push_back(&r);
          if (r.inline_data) {
            rs.push_back(UriOrInlineData::CreateInlineData(
                absl::Cord(r.wire), r.gzip ? UriOrInlineData::InlineData::CompressionFormat::kGzip
                                           : UriOrInlineData::InlineData::CompressionFormat::kUncompressed));
          } else {
            rs.push_back(UriOrInlineData::CreateUri(r.uri, r.id, r.age));
          }
        }
        if (!rs.empty() && Choose(kWork, 12) == 11) {
          static const char* kBad[] = {"http://a.test/r0", "ftp://a.test/r0", "https//x", "http://localhostile/x"};
          rs.push_back(UriOrInlineData::CreateUri(kBad[Choose(kWork, 4)], "", absl::ZeroDuration()));
          bad = true;
        }
        use_cache = Choose(kWork, 4) != 3;
        auto got = FetchResourcesInMemory(h.c, runner, rs, use_acc ? &rx : nullptr, use_acc ? &tx : nullptr,
                                          use_cache ? &h.cache : nullptr);
        overall = got.status();
        if (got.ok()) out = *std::move(got);
      } else {
        int m = mode == 2 ? 1 : Choose(kWork, 6);
        std::vector<std::unique_ptr<HttpRequest>> reqs;
        for (int i = 0; i < m; ++i) {
          bool get = Choose(kWork, 2);
          std::string uri, body;
          HeaderList hd;
          if (Choose(kData, 2)) hd.push_back({"X-A", std::to_string(i)});
          bool gz = Choose(kWork, 2) && !get;
          Res* r = nullptr;
          auto meth = HttpRequest::Method::kGet;
          if (get) {
            r = &h.pool[Choose(kWork, h.pool.size())];
            uri = r->uri;
          } else {
            uri = absl::StrCat("https://post.test/", k, "/", i);
            body = Choose(kData, 2) ? Bytes(1000 + i, Choose(kData, 2500)) : std::string(Choose(kData, 2500), 'z');
            static const HttpRequest::Method kM[] = {HttpRequest::Method::kPost, HttpRequest::Method::kPut,
                                                     HttpRequest::Method::kPatch, HttpRequest::Method::kDelete};
            meth = kM[Choose(kWork, 4)];
            if (Choose(kData, 4) == 3) hd.push_back({"accept-encoding", "x-own"});
          }
          auto req = InMemoryHttpRequest::Create(uri, meth, hd, body, gz);
          SIM_CHECK(P, req.ok(), "a valid request was refused");
          SIM_CHECK(P, (*req)->uri() == uri && (*req)->method() == meth, "the request was changed");
          reqs.push_back(*std::move(req));
          want.push_back(r);
          posted.push_back(body);
          sent_uri.push_back(uri);
        }
        if (mode == 2) {
          auto got = PerformRequestInMemory(h.c, runner, std::move(reqs[0]), use_acc ? &rx : nullptr,
                                            use_acc ? &tx : nullptr);
          // A single request has no separate outcome for the call.
          bool cancelled;
          {
            sim::NoPreempt np;
            cancelled = g_abort;
          }
          if (cancelled && got.status().code() == absl::StatusCode::kCancelled) overall = got.status();
          else out.push_back(std::move(got));
        } else {
          auto got = PerformMultipleRequestsInMemory(h.c, runner, std::move(reqs), use_acc ? &rx : nullptr,
                                                     use_acc ? &tx : nullptr);
          overall = got.status();
          if (got.ok()) out = *std::move(got);
        }
      }
      sim::NoPreempt np;
      sim::Event("call mode %d -> %d", mode, (int)overall.code());
      SIM_CHECK(P, h.c.live_handles == 0, "request handles outlived the call");
      SIM_CHECK(P, h.c.performing == 0, "a request was still under way when the call returned");
      if (use_acc) {
        SIM_CHECK(P, rx - rxa == h.c.received - rx0 && tx - txa == h.c.sent - tx0,
                  "accounted %lld/%lld bytes, transferred %lld/%lld", (long long)(rx - rxa), (long long)(tx - txa),
                  (long long)(h.c.received - rx0), (long long)(h.c.sent - tx0));
      }
      std::vector<std::shared_ptr<net::Ex>> ex;
      for (size_t b = first; b < h.c.batches.size(); ++b)
        for (auto& e : h.c.batches[b]->ex) ex.push_back(e);
      for (auto& e : ex) {
        SIM_CHECK(P, !(punctual && e->hung && g_abort && e->t_end - g_abort_at > 10 * kSec),
                  "an aborted call kept waiting for a server that does not answer");
      }
      for (auto& [id, p] : h.cache.puts) {
        Res* r = nullptr;
        for (auto& x : h.pool) if (x.id == id) r = &x;
        bool got_ok = false;
        for (auto& e : ex)
          got_ok |= r && e->uri == r->uri && e->end == net::Ex::kDone && e->whole && e->served && !r->refuse &&
                    (r->declared < 0 || r->declared == (int64_t)r->wire.size()) &&
                    CodeOf(e->code) == absl::StatusCode::kOk;
        SIM_CHECK(P, got_ok, "something other than a complete, successful download was put in the cache");
        SIM_CHECK(P, p.first == r->wire || p.first == r->plain, "other data than the resource's was put in the cache");
        SIM_CHECK(P, p.second == r->age, "a resource was cached with another's lifetime");
        SIM_CHECK(P, h.cache.nputs[id] == 1, "a resource was put in the cache twice");
      }
      if (bad) {
        SIM_CHECK(P, !overall.ok(), "a URI that is not allowed was accepted");
        SIM_CHECK(P, ex.empty(), "requests were sent although one URI is not allowed");
        continue;
      }
      if (!overall.ok()) {
        SIM_CHECK(P, overall.code() == absl::StatusCode::kCancelled && g_abort,
                  "the call failed as a whole without having been aborted (%d)", (int)overall.code());
        if (before) SIM_CHECK(P, ex.empty(), "requests were sent after the abort");
        sim::Count("aborted_call");
        continue;
      }
      if (before && mode != 2) sim::Violation(P, "a call made after the abort succeeded");
      SIM_CHECK(P, out.size() == want.size(), "%zu results for %zu requests", out.size(), want.size());
      // Each request is sent once, whatever the order, unless the cache served.
      std::vector<bool> used(ex.size());
      for (size_t i = 0; i < out.size(); ++i) {
        Res* r = want[i];
        if (mode < 2 && r->inline_data) {
          if (r->corrupt) {
            SIM_CHECK(P, !out[i].ok(), "damaged compressed inline data was accepted");
          } else {
            SIM_CHECK(P, out[i].ok() && std::string(out[i]->body) == r->plain, "inline data was changed");
          }
          continue;
        }
        const std::string& uri = mode < 2 ? r->uri : sent_uri[i];
        if (mode < 2 && use_cache && !r->id.empty() && h.cache.hits.count(r->id)) {
          SIM_CHECK(P, out[i].ok() && std::string(out[i]->body) == r->plain,
                    "a resource served from the cache differs from the resource (%d, %zu/%zu bytes, gzip %d corrupt %d)", (int)out[i].status().code(), out[i].ok() ? out[i]->body.size() : 0, r->plain.size(), r->gzip, r->corrupt);
          for (auto& e : ex) SIM_CHECK(P, e->uri != uri, "a cached resource was downloaded again");
          sim::Count("cache_hit");
          continue;
        }
        int f = -1;
        for (size_t j = 0; j < ex.size() && f < 0; ++j)
          if (!used[j] && ex[j]->uri == uri) f = j;
        SIM_CHECK(P, f >= 0, "no request was sent for a resource");
        used[f] = true;
        // Repeated names: any exchange may belong to any of the results.
        bool dup = false;
        for (size_t j = 0; j < ex.size(); ++j) dup |= (int)j != f && ex[j]->uri == uri;
        if (mode >= 2 && ex[f]->served) {
          SIM_CHECK(P, ex[f]->body == posted[i], "another body than the caller's was sent");
        }
        if (dup) {
          if (out[i].ok()) {
            SIM_CHECK(P, std::string(out[i]->body) == (mode < 2 ? r->plain : r->wire),
                      "a download differs from the resource");
          }
          continue;
        }
        if (mode >= 2 && r == nullptr && out[i].ok()) {
          bool own = !net::Find(ex[f]->headers, "Accept-Encoding").empty();
          SIM_CHECK(P, out[i]->content_encoding == (own && ex[f]->served ? "x-own" : ""), "content encoding lost");
        }
        h.CheckOne(*ex[f], r, out[i], mode < 2);
        if (mode < 2 && use_cache && !r->id.empty() && out[i].ok()) {
          SIM_CHECK(P, h.cache.puts.count(r->id), "a downloaded resource with a cache id was not offered to the cache");
        }
      }
      for (size_t j = 0; j < ex.size(); ++j)
        SIM_CHECK(P, used[j], "a request was sent that nobody asked for");
    }
    {
      sim::NoPreempt np;
      stop = true;
    }
    if (aborter.joinable()) aborter.join();
  }
}
#include "session.inc"
}  // namespace
