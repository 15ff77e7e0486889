// The client's edge to the network: the curl transport, the payload encoding,
// retry windows, and interruptible execution.
#include <curl/curl.h>
#include <curl/multi.h>
#include <string.h>
#include <zlib.h>

#include <algorithm>
#include <cmath>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/random/random.h"
#include "absl/status/status.h"
#include "absl/strings/ascii.h"
#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "fcp/base/compression.h"
#include "fcp/base/time_util.h"
#include "fcp/client/federated_protocol_util.h"
#include "fcp/client/http/curl/curl_api.h"
#include "fcp/client/http/curl/curl_http_client.h"
#include "fcp/client/http/http_client.h"
#include "fcp/client/interruptible_runner.h"
#include "fcp/client/log_manager.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "sim.h"

const char* kRealComponents[] = {
    "fcp/client/http/curl/curl_api.cc", "fcp/client/http/curl/curl_http_client.cc",
    "fcp/client/http/curl/curl_http_request_handle.cc",
    "fcp/client/http/curl/curl_header_parser.cc", "fcp/client/http/curl/curl_http_response.cc",
    "fcp/base/compression.cc", "fcp/confidentialcompute/client_payload.cc",
    "fcp/client/federated_protocol_util.cc", "fcp/base/time_util.cc",
    "fcp/client/interruptible_runner.cc", "fcp/base/future.h", "fcp/base/scheduler.cc", nullptr};
const char* kStubComponents[] = {"libcurl and the server behind it (scripted transport)",
                                 "absl synchronisation (scheduler seam)",
                                 "pthread create/join (scheduler seam)", "system clocks",
                                 "entropy source", "log manager", nullptr};

namespace {
using sim::Choose;
using sim::kData;
using sim::kFault;
using sim::kNet;
using sim::kTime;
using sim::kWork;
}  // namespace

#include "fakecurl.inc"

namespace {
using namespace fcp::client::http;  // NOLINT
constexpr int64_t kMs = 1000000;

std::string Bytes(uint64_t tag, size_t n) {
  std::string s(n, 0);
  uint64_t x = tag * 0x9e3779b97f4a7c15ull + 1;
  for (auto& c : s) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    c = static_cast<char>(x >> 56);
  }
  return s;
}

// ======================================================================== H01
struct CurlRequest : HttpRequest {
  std::string u, body;
  Method m = Method::kGet;
  HeaderList h;
  size_t pos = 0;
  int64_t fail_at = -1;
  bool failed = false;
  absl::string_view uri() const override { return u; }
  Method method() const override { return m; }
  const HeaderList& extra_headers() const override { return h; }
  bool HasBody() const override { return !body.empty(); }
  absl::StatusOr<int64_t> ReadBody(char* buffer, int64_t requested) override {
    if (fail_at >= 0 && (int64_t)pos >= fail_at) {
      failed = true;
      sim::CountFault("request_body_error");
      return absl::UnavailableError("body unavailable");
    }
    if (pos >= body.size()) return absl::OutOfRangeError("end");
    int64_t n = std::min<int64_t>({requested, (int64_t)(body.size() - pos),
                                   1 + (int64_t)Choose(kData, 50)});
    memcpy(buffer, body.data() + pos, n);
    pos += n;
    return n;
  }
};

struct CurlCase : HttpRequestCallback {
  const char* prop = "H01";
  int id = 0;
  fakecurl::Plan plan;
  CurlRequest* req = nullptr;
  std::unique_ptr<HttpRequestHandle> handle;
  HeaderList want_headers;
  int want_code = 0;
  bool sized = false;       // the request declares its length
  int refuse_at = -1;       // callback number that returns an error
  // observed
  int calls = 0;
  bool started = false, completed = false, refused = false, in_call = false;
  std::optional<absl::Status> error, body_error;
  std::string got;
  bool cancel_called = false, cancel_before = false;
  bool performing = false, performed = false, turned_down = false;

  bool terminal() const { return completed || refused || error || body_error; }
  void Enter(const char* what, const HttpRequest& r) {
    SIM_CHECK(prop, &r == req, "callback %s for another request", what);
    SIM_CHECK(prop, performing, "callback %s outside of the call that performs the request", what);
    // A cancellation may overtake callbacks that are under way.
    SIM_CHECK(prop, !terminal() || cancel_called, "callback %s after the request had ended (%s)",
              what, completed ? "completed" : refused ? "refused" : error ? "error" : "body error");
    SIM_CHECK(prop, !in_call || cancel_called, "overlapping callbacks for one request");
    calls++;
  }
  void Final() {
    SIM_CHECK(prop, !completed && !error && !body_error,
              "the end of one request is reported twice");
  }
  void CheckError(const absl::Status& e) {
    SIM_CHECK(prop, !e.ok(), "error callback with an OK status");
    SIM_CHECK(prop, plan.fault != 0 || req->failed || absl::IsCancelled(e),
              "cancelled request ends with %s", e.ToString().c_str());
  }
  bool Refuse() {
    if (calls - 1 != refuse_at) return false;
    refused = true;
    sim::CountFault("callback_refuses");
    return true;
  }
  absl::Status OnResponseStarted(const HttpRequest& r, const HttpResponse& resp) override {
    {
      sim::NoPreempt np;
      Enter("response started", r);
      SIM_CHECK(prop, !started, "response started twice");
      in_call = true;
    }
    int code = resp.code();
    HeaderList hl = resp.headers();
    {
      sim::NoPreempt np;
      SIM_CHECK(prop, code == want_code, "response has status %d instead of the final %d", code,
                want_code);
      SIM_CHECK(prop, hl.size() == want_headers.size(), "%zu response headers instead of %zu",
                hl.size(), want_headers.size());
      for (size_t i = 0; i < hl.size(); ++i)
        SIM_CHECK(prop, hl[i].first == want_headers[i].first &&
                            hl[i].second == want_headers[i].second,
                  "header %zu is '%s: %s' instead of '%s: %s'", i, hl[i].first.c_str(),
                  hl[i].second.c_str(), want_headers[i].first.c_str(),
                  want_headers[i].second.c_str());
    }
    sim::Yield("response started");
    sim::NoPreempt np;
    started = true;
    in_call = false;
    if (Refuse()) return absl::InvalidArgumentError("refused");
    return absl::OkStatus();
  }
  void OnResponseError(const HttpRequest& r, const absl::Status& e) override {
    sim::NoPreempt np;
    Enter("response error", r);
    Final();
    SIM_CHECK(prop, !started || cancel_called, "response error after the response had started");
    CheckError(e);
    error = e;
  }
  absl::Status OnResponseBody(const HttpRequest& r, const HttpResponse& resp,
                              absl::string_view d) override {
    {
      sim::NoPreempt np;
      Enter("response body", r);
      SIM_CHECK(prop, started, "response body before the response started");
      in_call = true;
    }
    std::string copy(d.data(), d.size());
    sim::Yield("response body");
    sim::NoPreempt np;
    in_call = false;
    got += copy;
    SIM_CHECK(prop, got.size() <= plan.body.size() && plan.body.compare(0, got.size(), got) == 0,
              "response body differs from what the server sent");
    if (Refuse()) return absl::InvalidArgumentError("refused");
    return absl::OkStatus();
  }
  void OnResponseBodyError(const HttpRequest& r, const HttpResponse& resp,
                           const absl::Status& e) override {
    sim::NoPreempt np;
    Enter("body error", r);
    Final();
    SIM_CHECK(prop, started || cancel_called, "body error before the response started");
    CheckError(e);
    body_error = e;
  }
  void OnResponseCompleted(const HttpRequest& r, const HttpResponse& resp) override {
    sim::NoPreempt np;
    Enter("response completed", r);
    Final();
    SIM_CHECK(prop, started, "response completed before it started");
    SIM_CHECK(prop, plan.fault == 0 && !req->failed, "a failed transfer is reported as completed");
    SIM_CHECK(prop, got == plan.body, "response completed with %zu of %zu bytes", got.size(),
              plan.body.size());
    completed = true;
  }
};

void MakeCase(CurlCase* c, int id) {
  c->id = id;
  CurlRequest* req = c->req = new CurlRequest;  // owned by the request handle
  req->u = absl::StrCat("https://host/", id);
  auto& p = c->plan;
  bool explicit_encoding = Choose(kWork, 4) == 1;
  if (explicit_encoding) req->h.push_back({"Accept-Encoding", "gzip"});
  if (Choose(kWork, 3) == 1) req->h.push_back({"X-Req", absl::StrCat("v:", id)});
  switch (Choose(kWork, 4)) {
    case 0: break;
    case 1:
    case 2: {
      bool put = Choose(kWork, 3) == 1;
      req->m = put ? HttpRequest::Method::kPut : HttpRequest::Method::kPost;
      req->body = Bytes(id + 100, Choose(kData, 300));
      c->sized = Choose(kWork, 3) != 1;
      if (c->sized) req->h.push_back({"Content-Length", absl::StrCat(req->body.size())});
      if (!req->body.empty() && Choose(kFault, 8) == 1)
        req->fail_at = Choose(kData, req->body.size());
      break;
    }
    default: req->m = HttpRequest::Method::kHead;
  }
  // Interim responses.
  int interim = Choose(kNet, 3) == 1 ? 1 + Choose(kNet, 3) : 0;
  for (int i = 0; i < interim; ++i) {
    fakecurl::Head h;
    switch (Choose(kNet, 4)) {
      case 0: h.lines = {"HTTP/1.1 301 Moved Permanently", "Location: https://other/x"}; break;
      case 1: h.lines = {"HTTP/1.1 100 Continue"}; break;
      case 2: h.lines = {"HTTP/2 103 ", "link: </a>; rel=preload"}; break;
      default: {
        static const int kCodes[] = {302, 303, 307, 308};
        h.lines = {absl::StrCat("HTTP/1.1 ", kCodes[Choose(kNet, 4)], " Moved"), "X-Old: 1",
                   "location: https://other:443/y", "Content-Length: 0"};
      }
    }
    p.interim.push_back(h);
    sim::Count("interim_response");
  }
  static const struct {
    const char* line;
    int code;
  } kStatus[] = {{"HTTP/1.1 200 OK", 200},          {"HTTP/2 200 ", 200},
                 {"HTTP/1.1 404 Not Found", 404},   {"HTTP/2 503 ", 503},
                 {"HTTP/1.1 304 Not Modified", 304}, {"HTTP/1.1 500 Internal: Error", 500},
                 {"HTTP/1.0 204 No Content", 204}};
  int s = Choose(kNet, 7);
  p.final.lines.push_back(kStatus[s].line);
  c->want_code = kStatus[s].code;
  if (req->m != HttpRequest::Method::kHead) p.body = Bytes(id + 200, Choose(kData, 200));
  static const char* const kHeaders[][2] = {
      {"Content-Type", "application/x-protobuf"},
      {"Date", "Mon, 01 Jan 2024 10:20:30 GMT"},
      {"X-Empty", ""},
      {"etag", "\"a:b:c\""},
      {"Content-Encoding", "gzip"},
      {"content-length", "17"},
      {"Set-Cookie", "k=v; path=/"},
      {"Link", "<https://h:1/p>; rel=\"x\""},
      {"X-Proto", "HTTP/1.1 200 OK"},
  };
  int nh = Choose(kNet, 6);
  for (int i = 0; i < nh; ++i) {
    auto& h = kHeaders[Choose(kNet, 9)];
    static const char* const kSep[] = {": ", ":", ":  \t", ": "};
    static const char* const kEnd[] = {"", "", "  ", "\t"};
    int sp = Choose(kNet, 4);
    p.final.lines.push_back(absl::StrCat(h[0], kSep[sp], h[1], kEnd[sp]));
    bool strip = !explicit_encoding && (absl::EqualsIgnoreCase(h[0], "Content-Encoding") ||
                                        absl::EqualsIgnoreCase(h[0], "Content-Length"));
    if (!strip) c->want_headers.push_back({h[0], h[1]});
  }
  if (!explicit_encoding && Choose(kNet, 4) == 1)
    p.final.lines.push_back(Choose(kNet, 2) ? "transfer-encoding:chunked"
                                            : "Transfer-Encoding: chunked");
  if (!p.body.empty() && Choose(kNet, 5) == 1) {
    p.trailers = {"X-Trailer: 1", "X-Checksum: a:b"};
    sim::Count("trailers");
  }
  switch (Choose(kFault, 10)) {
    case 1: p.fault = 1; break;
    case 2:
      p.fault = 2;
      p.fault_at = Choose(kFault, p.final.lines.size() + 1);
      break;
    case 3:
      p.fault = 3;
      p.fault_at = Choose(kFault, p.body.size() + 1);
      break;
    case 4:
      if (req->m == HttpRequest::Method::kPost) {
        p.fault = 4;
        p.fault_at = Choose(kFault, req->body.size() + 1);
      }
      break;
    default: break;
  }
  if (Choose(kFault, 8) == 1) c->refuse_at = Choose(kFault, 4);
}

void RunCurl() {
  const char* prop = "H01";
  sim::SwarmTuning(true);
  curl::CurlApi api;
  curl::CurlHttpClient client(&api, "");
  std::vector<std::unique_ptr<CurlCase>> cases;
  int n = 1 + Choose(kWork, 4);
  for (int i = 0; i < n; ++i) {
    cases.push_back(std::make_unique<CurlCase>());
    MakeCase(cases.back().get(), i);
  }
  fakecurl::lookup = [&](const std::string& url) {
    return &cases.at(atoi(url.c_str() + strlen("https://host/")))->plan;
  };
  bool stalls = Choose(kFault, 6) == 1;
  for (auto& c : cases) {
    c->handle = client.EnqueueRequest(std::unique_ptr<HttpRequest>(c->req));
  }
  for (auto& c : cases) {
    fakecurl::Easy* e = fakecurl::all[c->id];
    SIM_CHECK(prop, e->url == c->req->u, "request for %s goes to %s", c->req->u.c_str(),
              e->url.c_str());
    bool post = c->req->m == HttpRequest::Method::kPost;
    bool put = c->req->m == HttpRequest::Method::kPut;
    SIM_CHECK(prop, !!e->post == post && !!e->upload == put &&
                        !!e->head == (c->req->m == HttpRequest::Method::kHead) &&
                        !!e->get == (c->req->m == HttpRequest::Method::kGet),
              "request is sent with another method");
    SIM_CHECK(prop, e->field_size == (c->sized ? (long)c->req->body.size() : -1),
              "request declares a length of %ld", e->field_size);
    SIM_CHECK(prop, e->follow == 1, "redirects are not followed");
    bool explicit_encoding = false;
    for (auto& h : c->req->h) {
      if (h.first == "Accept-Encoding") explicit_encoding = true;
      if (h.first == "Content-Length") continue;
      std::string want = absl::StrCat(h.first, ": ", h.second);
      SIM_CHECK(prop, std::count(e->headers.begin(), e->headers.end(), want) == 1,
                "request header '%s' is not sent", want.c_str());
    }
    SIM_CHECK(prop, e->decode != explicit_encoding &&
                        (explicit_encoding || e->accept_encoding == "gzip"),
              "response decoding is %s although the request %s an encoding",
              e->decode ? "on" : "off", explicit_encoding ? "names" : "names no");
  }
  // Split the requests over one or two concurrent calls.
  std::vector<std::vector<CurlCase*>> groups(1 + (n > 1 && Choose(kWork, 2) == 1));
  for (auto& c : cases) groups[Choose(kWork, groups.size())].push_back(c.get());
  // A request cancelled before it is performed must not be performed.
  CurlCase* early = nullptr;
  if (Choose(kFault, 8) == 1) {
    groups.emplace_back();
    for (size_t g = 0; g < groups.size() && !early; ++g)
      if (!groups[g].empty()) {
        early = groups[g].back();
        groups[g].pop_back();
      }
    groups.back().push_back(early);
    early->handle->Cancel();
    early->cancel_before = true;
  }
  std::vector<std::thread> th;
  CurlCase* victim = nullptr;
  if (Choose(kFault, 3) == 1 || stalls) {
    victim = cases[Choose(kFault, n)].get();
    if (victim == early) victim = nullptr;
  }
  if (stalls && victim) {
    victim->plan.fault = 5;
    sim::CountFault("server_stalls");
  }
  for (auto& g : groups) {
    if (g.empty()) continue;
    th.emplace_back([&, g] {
      std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> v;
      {
        sim::NoPreempt np;
        for (auto* c : g) {
          c->performing = true;
          v.push_back({c->handle.get(), c});
        }
      }
      absl::Status s = client.PerformRequests(v);
      sim::NoPreempt np;
      for (auto* c : g) {
        c->performing = false;
        c->performed = true;
        c->turned_down = !s.ok();  // one of the group was cancelled before
      }
      if (g[0] == early) {
        SIM_CHECK(prop, !s.ok(), "a request cancelled before is performed");
        SIM_CHECK(prop, !early->started && fakecurl::all[early->id]->uploaded.empty(),
                  "a request cancelled before is sent");
        return;
      }
      bool cancelled = false;
      for (auto* c : g) cancelled |= c->cancel_called;
      SIM_CHECK(prop, s.ok() || cancelled, "performing the requests fails: %s",
                s.ToString().c_str());
    });
  }
  bool victim_was_running = false;
  if (victim) {
    th.emplace_back([&] {
      int k = Choose(kNet, 30);
      if (stalls) sim::BlockUntil([&] { return victim->performing || victim->performed; }, "cancel");
      for (int i = 0; i < k; ++i) sim::Yield("cancel");
      if (stalls) sim::SleepNs(kMs * 10);
      {
        sim::NoPreempt np;
        victim->cancel_called = true;
        victim_was_running = victim->performing && !victim->terminal();
        sim::CountFault("cancel");
      }
      victim->handle->Cancel();
    });
  }
  for (auto& t : th) t.join();
  for (auto& cp : cases) {
    CurlCase* c = cp.get();
    fakecurl::Easy* e = fakecurl::all[c->id];
    if (c == early || c->turned_down) continue;
    if (c->cancel_called) {
      sim::Count("cancelled");
      // Cancelled in time or ended otherwise, but it ended at most once (see
      // Enter) and not without telling.
      if (c->terminal() || !victim_was_running) continue;
      sim::Violation(prop, "cancelled request ends without a final callback");
    }
    SIM_CHECK(prop, c->terminal(), "request ends without a final callback");
    bool sent_ok = !c->req->failed;
    if (c->refused) {
      sim::Count("refused");
      continue;
    }
    if (c->plan.fault || !sent_ok) {
      SIM_CHECK(prop, c->error || c->body_error, "failed transfer not reported as an error");
      sim::Count("transfer_failed");
    } else {
      SIM_CHECK(prop, c->completed, "complete transfer reported as an error: %s",
                (c->error ? *c->error : *c->body_error).ToString().c_str());
      if (c->req->m == HttpRequest::Method::kPost || c->req->m == HttpRequest::Method::kPut)
        SIM_CHECK(prop, e->uploaded == c->req->body, "server received another request body");
      sim::Count("completed");
    }
    auto sr = c->handle->TotalSentReceivedBytes();
    SIM_CHECK(prop, sr.sent_bytes == (int64_t)e->uploaded.size() && sr.received_bytes == e->down,
              "byte counts %ld/%ld instead of %zu/%ld", (long)sr.sent_bytes,
              (long)sr.received_bytes, e->uploaded.size(), (long)e->down);
  }
  for (auto& c : cases) c->handle.reset();
  sim::Cover(sim::Mix(sim::Steps(), n));
}

// ======================================================================== X01
// What zlib itself says about some bytes: 1 complete, 0 incomplete, -1 bad.
int ReferenceInflate(const std::string& in, std::string* out) {
  size_t used = 0;
  out->clear();
  while (true) {
    z_stream z;
    memset(&z, 0, sizeof(z));
    if (inflateInit2(&z, 15 | 16) != Z_OK) sim::HarnessError("inflateInit2");
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data() + used));
    z.avail_in = in.size() - used;
    int r;
    char buf[8192];
    do {
      z.next_out = reinterpret_cast<Bytef*>(buf);
      z.avail_out = sizeof(buf);
      r = inflate(&z, Z_NO_FLUSH);
      out->append(buf, sizeof(buf) - z.avail_out);
    } while (r == Z_OK);
    used = in.size() - z.avail_in;
    inflateEnd(&z);
    if (r == Z_BUF_ERROR) return 0;
    if (r != Z_STREAM_END) return -1;
    if (used >= in.size()) return 1;
  }
}

void RunPayload() {
  using fcp::confidential_compute::ClientPayloadHeader;
  const char* prop = "X01";
  sim::SwarmTuning(false);
  int parties = 1 + Choose(kWork, 3);
  std::vector<std::thread> th;
  // Several uploads at once: they must not influence each other.
  for (int t = 0; t < parties; ++t) {
    th.emplace_back([t, prop] {
      static const uint32_t kSizes[] = {10, 0, 1, 100, 4000, 65535, 65536, 65537, 200000};
      std::string data;
      ClientPayloadHeader h;
      bool gzip, have_header;
      {
        sim::NoPreempt np;
        size_t n = kSizes[Choose(kWork, 9)];
        if (n > 1) n += Choose(kData, 7);
        data = Choose(kData, 2) ? Bytes(t + sim::Seed(), n) : std::string(n, 'a' + t);
        if (Choose(kData, 3) == 1 && n > 10)  // mixed
          for (size_t i = 0; i < n / 2; ++i) data[i] = "abcd"[i % 4];
        gzip = Choose(kWork, 4) != 1;
        have_header = Choose(kWork, 8) != 1;
        h.encrypted_symmetric_key = Bytes(t + 1, Choose(kData, 100));
        h.encapsulated_public_key = Bytes(t + 2, Choose(kData, 40));
        h.serialized_blob_header = Bytes(t + 3, Choose(kData, 4) == 1 ? 20000 : Choose(kData, 60));
        h.is_gzip_compressed = gzip;
      }
      std::string body = data;
      if (gzip) {
        auto c = fcp::CompressWithGzip(data);
        SIM_CHECK(prop, c.ok(), "compression fails: %s", c.status().ToString().c_str());
        body = *c;
        sim::NoPreempt np;
        std::string ref;
        SIM_CHECK(prop, ReferenceInflate(body, &ref) == 1 && ref == data,
                  "compressed data is not a gzip stream of the data");
      }
      std::string wire = have_header ? fcp::confidential_compute::EncodeClientPayload(h, body)
                                     : body;
      // The link: fragments are lost, repeated, exchanged, damaged, cut off.
      std::string arrived;
      bool damaged = false;
      {
        sim::NoPreempt np;
        std::vector<std::string> frags;
        for (size_t i = 0; i < wire.size();) {
          size_t k = std::min<size_t>(wire.size() - i,
                                      1 + (wire.size() > 5000 ? Choose(kNet, wire.size() / 3)
                                                              : Choose(kNet, 300)));
          frags.push_back(wire.substr(i, k));
          i += k;
        }
        if (!frags.empty() && Choose(kFault, 2) == 1) {
          size_t i = Choose(kFault, frags.size());
          switch (Choose(kFault, 6)) {
            case 0:
              frags[i][Choose(kFault, frags[i].size())] ^= 1 << Choose(kFault, 8);
              sim::CountFault("bit_flip");
              break;
            case 1:
              frags.erase(frags.begin() + i);
              sim::CountFault("fragment_lost");
              break;
            case 2:
              frags.insert(frags.begin() + i, frags[i]);
              sim::CountFault("fragment_repeated");
              break;
            case 3:
              std::swap(frags[i], frags[Choose(kFault, frags.size())]);
              sim::CountFault("fragments_exchanged");
              break;
            case 4:
              frags.resize(i + 1);
              frags[i].resize(Choose(kFault, frags[i].size()));
              sim::CountFault("cut_off");
              break;
            default:
              frags.push_back(Bytes(77, 1 + Choose(kFault, 40)));
              sim::CountFault("appended");
          }
        }
        for (auto& f : frags) arrived += f;
        damaged = arrived != wire;
      }
      std::string got_body = arrived;
      bool gz = gzip;
      if (have_header) {
        // Exactly sized, so that reading past the end is noticed.
        std::unique_ptr<char[]> exact(new char[arrived.size() + 1]);
        char* p = exact.get() + 1;
        memcpy(p, arrived.data(), arrived.size());
        absl::string_view view(p, arrived.size());
        auto d = fcp::confidential_compute::DecodeAndConsumeClientPayloadHeader(view);
        SIM_CHECK(prop, d.ok() || damaged, "intact payload refused: %s",
                  d.status().ToString().c_str());
        SIM_CHECK(prop, view.data() >= p && view.data() + view.size() == p + arrived.size(),
                  "the remaining data is not the end of the payload");
        if (!d.ok()) {
          SIM_CHECK(prop, view.size() == arrived.size(), "data consumed by a failed decoding");
          sim::Count("payload_refused");
          return;
        }
        SIM_CHECK(prop, arrived.compare(0, 4, "CAv1") == 0, "foreign data accepted as a payload");
        {
          // The contents begin where the declared header ends.
          uint64_t len = 0;
          size_t at = 4;
          for (int shift = 0; at < arrived.size() && shift < 64; shift += 7) {
            uint8_t b = arrived[at++];
            len |= (uint64_t)(b & 127) << shift;
            if (!(b & 128)) break;
          }
          len &= 0xffffffffu;
          SIM_CHECK(prop, len <= arrived.size() - at,
                    "payload cut off inside its header accepted (%lu of %lu header bytes)",
                    (unsigned long)(arrived.size() - at), (unsigned long)len);
          SIM_CHECK(prop, view.data() == p + at + len,
                    "contents begin %ld bytes from the end of the header",
                    (long)(view.data() - (p + at + len)));
        }
        got_body = std::string(view);
        gz = d->is_gzip_compressed;
        if (!damaged) {
          SIM_CHECK(prop, d->encrypted_symmetric_key == h.encrypted_symmetric_key &&
                              d->encapsulated_public_key == h.encapsulated_public_key &&
                              d->serialized_blob_header == h.serialized_blob_header &&
                              d->is_gzip_compressed == h.is_gzip_compressed,
                    "decoded header differs from the encoded one");
          SIM_CHECK(prop, got_body == body, "decoded contents differ from the encoded ones");
        }
        sim::Count("payload_decoded");
      }
      if (!gz) return;
      auto u = fcp::UncompressWithGzip(got_body);
      sim::NoPreempt np;
      if (!damaged) {
        SIM_CHECK(prop, u.ok(), "intact data does not uncompress: %s",
                  u.status().ToString().c_str());
        SIM_CHECK(prop, std::string(*u) == data, "uncompressed data differs");
        sim::Count("uncompressed");
        return;
      }
      std::string ref;
      int state = ReferenceInflate(got_body, &ref);
      if (u.ok()) {
        SIM_CHECK(prop, state != 0 || std::string(*u) == data,
                  "incomplete compressed data accepted as complete");
        SIM_CHECK(prop, state == 0 || std::string(*u) == data || std::string(*u) == ref,
                  "damaged compressed data accepted");
        SIM_CHECK(prop, state != -1, "invalid compressed data accepted");
      } else {
        sim::Count("damage_detected");
      }
    });
  }
  for (auto& t : th) t.join();
  sim::Cover(sim::Steps());
}

// ======================================================================== H05
using google::internal::federatedml::v2::RetryWindow;

bool ValidDuration(const google::protobuf::Duration& d) {
  if (d.nanos() <= -1000000000 || d.nanos() >= 1000000000) return false;
  if (d.seconds() > 0 && d.nanos() < 0) return false;
  if (d.seconds() < 0 && d.nanos() > 0) return false;
  return true;
}
__int128 Ns(const google::protobuf::Duration& d) {
  return (__int128)d.seconds() * 1000000000 + d.nanos();
}
google::protobuf::Duration MakeDuration() {
  static const int64_t kS[] = {60,   0,     1,       3600,    86400,      86400 * 30,
                               -1,   -3600, 1000000, 5000000, 3153600000, 7};
  google::protobuf::Duration d;
  d.set_seconds(kS[Choose(kData, 12)]);
  int32_t n = Choose(kData, 3) == 1 ? Choose(kData, 1000000000) : 0;
  d.set_nanos(d.seconds() < 0 ? -n : n);
  return d;
}
// absl durations have quarter-nanosecond resolution and the random factor is
// a double; allow for both.
__int128 Slack(__int128 width) { return 2 + (width >> 45); }

void RunRetry() {
  const char* prop = "H05";
  sim::SwarmTuning(false);
  sim::tuning().step_ns = 1000 * Choose(kTime, 50);
  absl::BitGen bitgen;
  int ops = 1 + Choose(kWork, 5);
  for (int i = 0; i < ops; ++i) {
    switch (Choose(kWork, 4)) {
      case 0: {
        // The server's window, turned into a time, turned into a delay later.
        auto min = MakeDuration(), max = MakeDuration();
        __int128 lo = std::max<__int128>(0, Ns(min)), hi = std::max(lo, Ns(max));
        int64_t before = sim::RealtimeNs();
        absl::Time t = fcp::client::PickRetryTimeFromRange(min, max, bitgen);
        int64_t after = sim::RealtimeNs();
        __int128 tn = (__int128)absl::ToUnixSeconds(t) * 1000000000 +
                      (t - absl::FromUnixSeconds(absl::ToUnixSeconds(t))) / absl::Nanoseconds(1);
        SIM_CHECK(prop, tn >= before + lo - Slack(hi) && tn <= after + hi + Slack(hi),
                  "retry time %.3f s from now, the window is [%.3f, %.3f]",
                  (double)(tn - before) / 1e9, (double)lo / 1e9, (double)hi / 1e9);
        for (int k = 0; k < 3; ++k) {
          switch (Choose(kTime, 4)) {
            case 1: sim::AdvanceNs((int64_t)Choose(kTime, 10000) * 1000000000ll); break;
            case 2:
              sim::JumpRealtimeNs(((int64_t)Choose(kTime, 20000) - 10000) * 1000000000ll);
              sim::CountFault("clock_jump");
              break;
            default: sim::AdvanceNs(Choose(kTime, 1000) * kMs);
          }
          before = sim::RealtimeNs();
          RetryWindow w = fcp::client::GenerateRetryWindowFromRetryTime(t);
          after = sim::RealtimeNs();
          SIM_CHECK(prop, Ns(w.delay_min()) == Ns(w.delay_max()), "retry window has a width");
          SIM_CHECK(prop, ValidDuration(w.delay_min()) && Ns(w.delay_min()) >= 0,
                    "retry delay is invalid or negative");
          __int128 d = Ns(w.delay_min());
          SIM_CHECK(prop, d <= std::max<__int128>(0, tn - before) + 2 &&
                              d >= std::max<__int128>(0, tn - after) - 2,
                    "retry delay %.3f s, the chosen time is %.3f s away", (double)d / 1e9,
                    (double)(tn - after) / 1e9);
          sim::Count("retry_delay");
        }
        break;
      }
      case 1: {
        static const double kJ[] = {0.2, 0, 1, 0.5, -1, 3, 0.001};
        double j = kJ[Choose(kData, 7)];
        auto target = MakeDuration();
        absl::Duration td = absl::Seconds(target.seconds()) + absl::Nanoseconds(target.nanos());
        RetryWindow w = fcp::client::GenerateRetryWindowFromTargetDelay(td, j, bitgen);
        double c = std::min(1.0, std::max(0.0, j)), x = (double)Ns(target);
        double lo = std::max(0.0, x * (1 - c)), hi = std::max(lo, x * (1 + c));
        double d = (double)Ns(w.delay_min()), eps = 3 + hi * 1e-12;
        SIM_CHECK(prop, Ns(w.delay_min()) == Ns(w.delay_max()), "retry window has a width");
        SIM_CHECK(prop, ValidDuration(w.delay_min()) && d >= 0, "retry delay is invalid");
        SIM_CHECK(prop, d >= lo - eps && d <= hi + eps,
                  "retry delay %.6f s, target %.6f s with jitter %.3f", d / 1e9, x / 1e9, j);
        sim::Count("target_delay");
        break;
      }
      case 2: {
        // A fleet that gets the same answer at the same time must spread out
        // over the whole window.
        const int kFleet = 64;
        google::protobuf::Duration min, max;
        const bool narrow = Choose(kData, 2) == 1;
        const double width = narrow ? 0.6 : 1000.0, from = narrow ? 100.3 : 100;
        min.set_seconds(100);
        max.set_seconds(narrow ? 100 : 1100);
        if (narrow) min.set_nanos(300000000), max.set_nanos(900000000);
        bool target = !narrow && Choose(kWork, 2) == 1;
        sim::tuning().step_ns = 0;
        int bucket[4] = {0, 0, 0, 0};
        std::set<int64_t> distinct;
        for (int k = 0; k < kFleet; ++k) {
          absl::BitGen device;
          int64_t now = sim::RealtimeNs();
          double d;
          if (target) {
            RetryWindow w = fcp::client::GenerateRetryWindowFromTargetDelay(absl::Seconds(600),
                                                                            500.0 / 600, device);
            d = (double)Ns(w.delay_min()) / 1e9;
          } else {
            absl::Time t = fcp::client::PickRetryTimeFromRange(min, max, device);
            d = (double)(absl::ToUnixNanos(t) - now) / 1e9;
          }
          distinct.insert((int64_t)(d * 1e6));
          int b = (int)std::floor((d - from) / width * 4);
          if (b >= 0 && b < 4) bucket[b]++;
        }
        SIM_CHECK(prop, distinct.size() > kFleet * 3 / 4, "%zu distinct delays for %d devices",
                  distinct.size(), kFleet);
        // 64 draws: an empty quarter has probability 4 * 0.75^64 < 1e-7.
        for (int b = 0; b < 4; ++b)
          SIM_CHECK(prop, bucket[b] > 0, "no delay in quarter %d of the window", b);
        sim::Count("fleet");
        break;
      }
      default: {
        // Conversions between time representations.
        int64_t s = (int64_t)Choose(kData, 2000000000) * (Choose(kData, 3) == 1 ? -1 : 1);
        if (Choose(kData, 4) == 1) s = Choose(kData, 3) - 1;
        int32_t n = Choose(kData, 3) ? Choose(kData, 1000000000) : 0;
        google::protobuf::Timestamp ts;
        ts.set_seconds(s);
        ts.set_nanos(n);
        absl::Time t = fcp::TimeUtil::ConvertProtoToAbslTime(ts);
        SIM_CHECK(prop, t == absl::FromUnixSeconds(s) + absl::Nanoseconds(n),
                  "timestamp %ld.%09d converts to another time", (long)s, n);
        auto back = fcp::TimeUtil::ConvertAbslToProtoTimestamp(t);
        SIM_CHECK(prop, back.seconds() == s && back.nanos() == n,
                  "timestamp %ld.%09d comes back as %ld.%09d", (long)s, n, (long)back.seconds(),
                  back.nanos());
        google::protobuf::Duration d;
        d.set_seconds(s);
        d.set_nanos(s < 0 ? -n : n);
        absl::Duration ad = fcp::TimeUtil::ConvertProtoToAbslDuration(d);
        SIM_CHECK(prop, ad == absl::Seconds(s) + absl::Nanoseconds(d.nanos()),
                  "duration converts to another one");
        auto db = fcp::TimeUtil::ConvertAbslToProtoDuration(ad);
        SIM_CHECK(prop, ValidDuration(db) && Ns(db) == Ns(d), "duration %ld.%09d comes back as %ld.%09d",
                  (long)s, d.nanos(), (long)db.seconds(), db.nanos());
        auto inf = fcp::TimeUtil::ConvertAbslToProtoDuration(absl::InfiniteDuration());
        auto ninf = fcp::TimeUtil::ConvertAbslToProtoDuration(-absl::InfiniteDuration());
        SIM_CHECK(prop, inf.seconds() == INT64_MAX && ninf.seconds() == INT64_MIN &&
                            inf.nanos() == 999999999 && ninf.nanos() == -999999999,
                  "infinite durations are not the extreme values");
        sim::Count("converted");
      }
    }
  }
  sim::Cover(sim::Mix(sim::Steps(), sim::RealtimeNs()));
}

// ======================================================================== H06
struct RunnerLog : fcp::client::LogManager {
  std::vector<int> diags;
  void LogDiag(fcp::client::ProdDiagCode c) override {
    sim::NoPreempt np;
    diags.push_back(c);
  }
  void LogDiag(fcp::client::DebugDiagCode) override {}
  void LogToLongHistogram(fcp::client::HistogramCounters, int, int,
                          fcp::client::engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

void RunRunner() {
  const char* prop = "H06";
  using fcp::client::InterruptibleRunner;
  sim::SwarmTuning(true);
  const bool timely = Choose(kTime, 2) == 0;  // timers are not late
  if (timely) sim::tuning().p_time = 0;
  RunnerLog log;
  struct {
    bool want_abort = false;
    int64_t abort_at = -1;
    int running = 0;
    int runs = 0;
    bool abort_called = false;
    int abort_calls = 0;
    bool released = false;
    int current = -1;
  } st;
  const int64_t poll = 10 + Choose(kData, 3) * 100, graceful = 200, extended = 1000;
  const auto kA = fcp::client::ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP;
  const auto kB = fcp::client::ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT;
  const auto kC =
      fcp::client::ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED;
  const auto kD =
      fcp::client::ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT;
  int64_t aborted_at = -1;
  bool may_exit = false;
  sim::SetExitHandler([&](int code) {
    SIM_CHECK(prop, may_exit && st.abort_calls == 1, "process exits although the work %s",
              may_exit ? "was never aborted" : "reacts to the abort");
    SIM_CHECK(prop, code == 0, "process exits with status %d", code);
    SIM_CHECK(prop, sim::NowNs() - aborted_at >= (graceful + extended) * kMs,
              "process exits %.3f s after the abort", (sim::NowNs() - aborted_at) / 1e9);
    SIM_CHECK(prop, log.diags.size() >= 2 && log.diags[log.diags.size() - 2] == kB &&
                        log.diags.back() == kD,
              "process exits without leaving the diagnosis");
    sim::Count("exited");
    sim::Finish();
  });
  {
    InterruptibleRunner runner(
        &log,
        [&] {
          sim::NoPreempt np;
          return st.want_abort || (st.abort_at >= 0 && sim::NowNs() >= st.abort_at);
        },
        {absl::Milliseconds(poll), absl::Milliseconds(graceful), absl::Milliseconds(extended)},
        {kA, kB, kC, kD});
    int calls = 1 + Choose(kWork, 4);
    for (int i = 0; i < calls; ++i) {
      // How the work behaves: its duration, and its delay after being aborted
      // (-1: does not react to an abort).
      static const int64_t kDur[] = {0, 5, 50, 400, 3000};
      static const int64_t kReact[] = {0, 50, 500, -1, 199};
      int64_t dur = kDur[Choose(kWork, 5)] * kMs, react = kReact[Choose(kFault, 5)];
      int64_t abort_in = Choose(kFault, 2) ? (int64_t)Choose(kFault, 500) * kMs : -1;
      bool hang = react < 0 && abort_in >= 0 && Choose(kFault, 3) == 1;  // never ends
      int want_code = Choose(kWork, 4);
      absl::Status want = want_code == 1   ? absl::InternalError("work failed")
                          : want_code == 2 ? absl::CancelledError("work cancelled")
                                           : absl::OkStatus();
      {
        sim::NoPreempt np;
        st.abort_called = false;
        st.abort_calls = 0;
        st.abort_at = abort_in >= 0 ? sim::NowNs() + abort_in : -1;
        st.want_abort = Choose(kFault, 8) == 1;
        st.current = i;
        may_exit = hang || react < 0 || react >= graceful + extended || !timely;
        log.diags.clear();
        aborted_at = -1;
        if (st.abort_at >= 0 || st.want_abort) sim::CountFault("abort_requested");
      }
      bool pre = st.want_abort || (st.abort_at >= 0 && sim::NowNs() >= st.abort_at);
      int runs_before = st.runs;
      bool ended = false;
      int64_t began = -1, end_time = -1;
      absl::Status got = runner.Run(
          [&, i, dur, react, hang, want] {
            {
              sim::NoPreempt np;
              SIM_CHECK(prop, st.running == 0, "two pieces of work run at once");
              SIM_CHECK(prop, st.current == i, "work of an earlier call runs");
              st.running++;
              st.runs++;
              began = sim::NowNs();
            }
            int64_t end = sim::NowNs() + dur;
            auto stop = [&] { return react >= 0 && st.abort_called; };
            if (hang) end = INT64_MAX / 4;
            sim::BlockUntilDeadline(stop, end, "work");
            if (stop() && react > 0) sim::SleepNs(react * kMs);
            sim::NoPreempt np;
            st.running--;
            ended = true;
            end_time = sim::NowNs();
            return want;
          },
          [&] {
            sim::NoPreempt np;
            st.abort_called = true;
            st.abort_calls++;
            aborted_at = sim::NowNs();
            SIM_CHECK(prop, st.abort_calls == 1, "work aborted twice");
            SIM_CHECK(prop, st.want_abort || (st.abort_at >= 0 && sim::NowNs() >= st.abort_at),
                      "work aborted although nobody asked for it");
          });
      sim::NoPreempt np;
      if (st.runs == runs_before) {
        SIM_CHECK(prop, pre || st.abort_at >= 0, "work did not run");
        SIM_CHECK(prop, absl::IsCancelled(got), "work that did not run yields %s",
                  got.ToString().c_str());
        SIM_CHECK(prop, st.abort_calls == 0, "work that did not run is aborted");
        sim::Count("refused");
        continue;
      }
      SIM_CHECK(prop, !pre, "work starts although an abort was requested before");
      SIM_CHECK(prop, st.runs == runs_before + 1, "work ran %d times", st.runs - runs_before);
      SIM_CHECK(prop, ended, "the call returns while the work is still running");
      if (st.abort_calls) {
        SIM_CHECK(prop, absl::IsCancelled(got), "aborted work yields %s", got.ToString().c_str());
        bool late = log.diags.size() == 2;
        SIM_CHECK(prop, (log.diags.size() == 1 && log.diags[0] == kA) ||
                            (late && log.diags[0] == kB && log.diags[1] == kC),
                  "wrong diagnosis for aborted work");
        if (timely) {
          SIM_CHECK(prop, late ? end_time - aborted_at >= graceful * kMs
                               : end_time - aborted_at <= graceful * kMs,
                    "diagnosis says the work ended %s the graceful period, it took %.3f s",
                    late ? "after" : "within", (end_time - aborted_at) / 1e9);
        }
        sim::Count(late ? "aborted_late" : "aborted");
      } else {
        SIM_CHECK(prop, got == want, "work yields %s instead of %s", got.ToString().c_str(),
                  want.ToString().c_str());
        SIM_CHECK(prop, log.diags.empty(), "diagnosis for work that was not aborted");
        sim::Count("finished");
      }
      // A pending request is noticed within the polling period.
      if (timely && st.abort_at >= 0 && end_time > st.abort_at + (poll + 50) * kMs)
        SIM_CHECK(prop, st.abort_calls == 1, "abort request not noticed in time");
      if (timely && aborted_at >= 0)
        SIM_CHECK(prop, st.want_abort || aborted_at <= std::max(st.abort_at, began) + (poll + 50) * kMs,
                  "abort request noticed after %.3f s", (aborted_at - st.abort_at) / 1e9);
    }
  }
  SIM_CHECK(prop, st.running == 0, "work outlives its runner");
  sim::Cover(sim::Mix(sim::Steps(), st.runs));
}

}  // namespace

void SimRun() {
  std::clog.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
  std::string p = sim::Property();
  if (p == "H01") return RunCurl();
  if (p == "X01") return RunPayload();
  if (p == "H05") return RunRetry();
  if (p == "H06") return RunRunner();
  sim::HarnessError("unknown property");
}
