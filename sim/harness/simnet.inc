// A simulated HTTP client and the network behind it. It implements the
// contract of http_client.h: every request of a group moves on in small,
// seeded steps; requests and responses are lost, damaged, delayed, hang until
// cancelled; the far side is a function the harness supplies.
namespace net {
using fcp::client::http::HeaderList;
using fcp::client::http::HttpClient;
using fcp::client::http::HttpRequest;
using fcp::client::http::HttpRequestCallback;
using fcp::client::http::HttpRequestHandle;
using fcp::client::http::HttpResponse;

struct Ex {  // one exchange, as both sides saw it
  std::string uri, raw, body;
  HttpRequest::Method method;
  HeaderList headers;
  bool gzip = false;
  std::string host, path, query;
  bool bad_encoding = false;
  // far side
  bool served = false;
  int code = 200;
  HeaderList rheaders;
  std::string rbody;
  bool declare_length = true;
  int64_t declared = -1;        // what Content-Length says if not the size
  bool unfaultable = false;
  std::shared_ptr<void> reply;  // harness data
  int kind = -1, task = -1, op = -1;
  // what the client was told
  enum { kNone, kDone, kRefused, kError } end = kNone;
  bool hung = false;            // ended by its own timeout
  bool whole = false;           // the complete body arrived
  absl::StatusCode err = absl::StatusCode::kOk;
  int64_t t_served = 0, t_end = 0, t_begin = 0;
};
struct Batch {
  std::vector<std::shared_ptr<Ex>> ex;
  int64_t t_begin = 0, t_end = -1;
  absl::Status result;
};

struct Faults {
  double lost_request = 0, lost_response = 0, body_error = 0, truncate = 0, http_error = 0,
         hang = 0, slow = 0;
};

inline std::string Find(const HeaderList& h, const std::string& name, int* count = nullptr) {
  std::string v;
  int n = 0;
  for (auto& [k, x] : h) {
    if (absl::EqualsIgnoreCase(k, name)) {
      v = x;
      n++;
    }
  }
  if (count) *count = n;
  return v;
}

struct Response : HttpResponse {
  int c = 0;
  HeaderList h;
  int code() const override { return c; }
  const HeaderList& headers() const override { return h; }
};

inline bool Gunzip(const std::string& in, std::string* out) {
  z_stream z{};
  if (inflateInit2(&z, 31) != Z_OK) return false;
  z.next_in = (Bytef*)in.data();
  z.avail_in = in.size();
  char buf[4096];
  int r = Z_OK;
  while (r == Z_OK) {
    z.next_out = (Bytef*)buf;
    z.avail_out = sizeof(buf);
    r = inflate(&z, Z_NO_FLUSH);
    out->append(buf, sizeof(buf) - z.avail_out);
    if (r == Z_OK && z.avail_in == 0 && z.avail_out != 0) break;
  }
  bool ok = r == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return ok;
}
inline std::string Gzip(const std::string& in) {
  z_stream z{};
  deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
  std::string out(deflateBound(&z, in.size()) + 64, 0);
  z.next_in = (Bytef*)in.data();
  z.avail_in = in.size();
  z.next_out = (Bytef*)&out[0];
  z.avail_out = out.size();
  deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}

struct Handle;
struct Client : HttpClient {
  const char* prop = "*";
  std::function<void(Ex&)> classify;  // before anything is lost; no effects
  std::function<void(Ex&)> serve;     // the far side acts
  Faults f;
  std::vector<std::shared_ptr<Batch>> batches;  // non-empty groups, in order
  int64_t sent = 0, received = 0;               // by finished or started requests
  int live_handles = 0, performing = 0;
  int64_t busy_since = 0, busy_ns = 0;          // time with a group under way
  int hang_s = 120;

  std::unique_ptr<HttpRequestHandle> EnqueueRequest(std::unique_ptr<HttpRequest> r) override;
  absl::Status PerformRequests(
      std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> rs) override;
};
struct Handle : HttpRequestHandle {
  Client* c;
  std::unique_ptr<HttpRequest> req;
  bool cancelled = false, performed = false, active = false;
  int64_t sent = 0, received = 0;
  Response resp;
  explicit Handle(Client* cl) : c(cl) {
    sim::NoPreempt np;
    c->live_handles++;
  }
  ~Handle() override {
    sim::NoPreempt np;
    SIM_CHECK(c->prop, !active, "a request handle was destroyed while its request was under way");
    c->live_handles--;
  }
  SentReceivedBytes TotalSentReceivedBytes() const override {
    sim::NoPreempt np;
    return {.sent_bytes = sent, .received_bytes = received};
  }
  void Cancel() override {
    sim::NoPreempt np;
    cancelled = true;
  }
};

inline std::unique_ptr<HttpRequestHandle> Client::EnqueueRequest(std::unique_ptr<HttpRequest> r) {
  auto h = std::make_unique<Handle>(this);
  h->req = std::move(r);
  return h;
}

inline void Split(Ex& e) {
  size_t p = e.uri.find("://");
  size_t s = p == std::string::npos ? 0 : p + 3;
  size_t q = e.uri.find('?');
  if (q == std::string::npos) q = e.uri.size();
  size_t slash = e.uri.find('/', s);
  if (slash == std::string::npos || slash > q) slash = q;
  e.host = e.uri.substr(s, slash - s);
  e.path = e.uri.substr(slash, q - slash);
  e.query = q < e.uri.size() ? e.uri.substr(q + 1) : "";
}

inline absl::Status Client::PerformRequests(
    std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> rs) {
  struct Tx {
    Handle* h;
    HttpRequestCallback* cb;
    std::shared_ptr<Ex> e;
    int phase = 0;
    size_t pos = 0, cut = std::string::npos;
    bool lose = false, lose_resp = false, body_err = false;
    int64_t hang_until = 0;
  };
  std::vector<Tx> tx;
  std::shared_ptr<Batch> batch;
  {
    sim::NoPreempt np;
    for (auto& [h, cb] : rs) {
      Handle* x = static_cast<Handle*>(h);
      if (x->performed || x->cancelled) return absl::InvalidArgumentError("handle used or cancelled");
    }
    if (rs.empty()) return absl::OkStatus();
    batch = std::make_shared<Batch>();
    batch->t_begin = sim::NowNs();
    for (auto& [h, cb] : rs) {
      Tx t;
      t.h = static_cast<Handle*>(h);
      t.cb = cb;
      t.h->performed = t.h->active = true;
      t.e = std::make_shared<Ex>();
      t.e->uri = std::string(t.h->req->uri());
      t.e->method = t.h->req->method();
      t.e->headers = t.h->req->extra_headers();
      t.e->t_begin = sim::NowNs();
      Split(*t.e);
      if (classify) classify(*t.e);
      batch->ex.push_back(t.e);
      tx.push_back(std::move(t));
    }
    batches.push_back(batch);
    if (performing++ == 0) busy_since = sim::NowNs();
  }
  auto finish = [&](Tx& t) {
    t.phase = 9;
    t.e->t_end = sim::NowNs();
  };
  for (;;) {
    std::vector<int> act;
    bool all_hung = true;
    int64_t soonest = INT64_MAX;
    {
      sim::NoPreempt np;
      for (size_t i = 0; i < tx.size(); ++i) {
        if (tx[i].phase == 9) continue;
        bool hung = !tx[i].h->cancelled && tx[i].hang_until > sim::NowNs();
        if (hung) {
          soonest = std::min(soonest, tx[i].hang_until);
          continue;
        }
        all_hung = false;
        act.push_back(i);
      }
    }
    if (act.empty() && soonest == INT64_MAX) break;
    if (all_hung) {
      sim::BlockUntilDeadline(
          [&] {
            for (auto& t : tx)
              if (t.phase != 9 && t.h->cancelled) return true;
            return false;
          },
          soonest, "hung request");
      continue;
    }
    Tx& t = tx[act[Choose(kNet, act.size())]];
    Ex& e = *t.e;
    if (f.slow > 0 && sim::Flip(kNet, f.slow)) {
      sim::CountFault("slow_network");
      sim::SleepNs(sim::Range(kNet, 1, 3000) * 1000000);
    } else {
      sim::Yield("net");
    }
    bool cancelled;
    {
      sim::NoPreempt np;
      cancelled = t.h->cancelled;
    }
    if (cancelled) {
      sim::Count("cancelled_in_flight");
      e.end = Ex::kError;
      e.err = absl::StatusCode::kCancelled;
      if (t.phase <= 2 || t.phase == 8) t.cb->OnResponseError(*t.h->req, absl::CancelledError("cancelled"));
      else t.cb->OnResponseBodyError(*t.h->req, t.h->resp, absl::CancelledError("cancelled"));
      finish(t);
      continue;
    }
    if (t.hang_until && t.hang_until <= sim::NowNs()) {
      e.end = Ex::kError;
      e.hung = true;
      e.err = absl::StatusCode::kDeadlineExceeded;
      if (t.phase <= 2 || t.phase == 8) t.cb->OnResponseError(*t.h->req, absl::DeadlineExceededError("hang"));
      else t.cb->OnResponseBodyError(*t.h->req, t.h->resp, absl::DeadlineExceededError("hang"));
      finish(t);
      continue;
    }
    switch (t.phase) {
      case 0: {  // the request body
        if (t.pos == 0) {
          sim::NoPreempt np;
          t.h->sent += 20 + e.uri.size();
          if (!e.unfaultable) {
            if (f.hang > 0 && sim::Flip(kFault, f.hang)) {
              sim::CountFault("hanging_request");
              t.hang_until = sim::NowNs() + hang_s * 1000000000ll;
              t.pos = 1;
              break;
            }
            if (f.lost_request > 0 && sim::Flip(kFault, f.lost_request)) t.lose = true;
          }
          t.pos = 1;
        }
        if (!t.h->req->HasBody()) {
          t.phase = 1;
          break;
        }
        char buf[512];
        int64_t want = 1 + Choose(kData, 512);
        absl::StatusOr<int64_t> n = t.h->req->ReadBody(buf, want);
        if (!n.ok()) {
          SIM_CHECK(prop, n.status().code() == absl::StatusCode::kOutOfRange,
                    "a request body could not be read");
          t.phase = 1;
          break;
        }
        SIM_CHECK(prop, *n > 0 && *n <= want, "a request body read returned %lld bytes of %lld",
                  (long long)*n, (long long)want);
        sim::NoPreempt np;
        e.raw.append(buf, *n);
        t.h->sent += *n;
        break;
      }
      case 1: {  // the far side
        sim::NoPreempt np;
        if (t.lose) {
          sim::CountFault("request_lost");
          e.end = Ex::kError;
          e.err = Choose(kFault, 3) ? absl::StatusCode::kUnavailable : absl::StatusCode::kDeadlineExceeded;
          t.phase = 8;
          break;
        }
        std::string ce = Find(e.headers, "Content-Encoding");
        if (ce == "gzip") {
          e.gzip = true;
          if (!Gunzip(e.raw, &e.body)) e.bad_encoding = true;
        } else {
          e.body = e.raw;
        }
        int n = 0;
        std::string cl = Find(e.headers, "Content-Length", &n);
        SIM_CHECK(prop, n == (e.raw.empty() ? 0 : 1) && (n == 0 || cl == std::to_string(e.raw.size())),
                  "a request declared a body of '%s' bytes and sent %zu", cl.c_str(), e.raw.size());
        SIM_CHECK(prop, !e.bad_encoding && (ce.empty() || ce == "gzip"),
                  "a request body was not what its encoding header says");
        if (!e.unfaultable && f.http_error > 0 && sim::Flip(kFault, f.http_error)) {
          static const int kCodes[] = {503, 500, 404, 429, 409, 400, 403, 401, 499, 501, 504, 418, 599, 302, 304};
          e.code = kCodes[Choose(kFault, 15)];
          e.rbody = "no";
          sim::CountFault("http_error_status");
        } else {
          e.served = true;
          e.t_served = sim::NowNs();
          serve(e);
        }
        if (!e.unfaultable && f.lost_response > 0 && sim::Flip(kFault, f.lost_response)) {
          sim::CountFault("response_lost");
          e.end = Ex::kError;
          e.err = absl::StatusCode::kUnavailable;
          t.phase = 8;
          break;
        }
        if (!e.unfaultable && !e.rbody.empty()) {
          if (f.body_error > 0 && sim::Flip(kFault, f.body_error)) {
            t.body_err = true;
            t.cut = Choose(kFault, e.rbody.size());
          } else if (e.declare_length && e.declared < 0 && f.truncate > 0 && sim::Flip(kFault, f.truncate)) {
            sim::CountFault("response_truncated");
            t.cut = Choose(kFault, e.rbody.size());
          }
        }
        t.phase = 2;
        break;
      }
      case 8: {  // failed before the response headers
        t.phase = 2;
        t.cb->OnResponseError(*t.h->req, absl::Status(e.err, "simulated"));
        finish(t);
        break;
      }
      case 2: {
        {
          sim::NoPreempt np;
          t.h->resp.c = e.code;
          t.h->resp.h = e.rheaders;
          if (e.declare_length) {
            t.h->resp.h.push_back(
                {"Content-Length", std::to_string(e.declared >= 0 ? e.declared : (int64_t)e.rbody.size())});
          }
          t.h->received += 30;
          t.pos = 0;
          t.phase = 3;
        }
        absl::Status s = t.cb->OnResponseStarted(*t.h->req, t.h->resp);
        if (!s.ok()) {
          e.end = Ex::kRefused;
          e.err = s.code();
          finish(t);
        }
        break;
      }
      case 3: {
        size_t limit = std::min(t.cut, e.rbody.size());
        if (t.pos < limit) {
          size_t n = std::min<size_t>(limit - t.pos, 1 + Choose(kNet, 700));
          {
            sim::NoPreempt np;
            t.h->received += n;
          }
          std::string piece = e.rbody.substr(t.pos, n);
          absl::Status s = t.cb->OnResponseBody(*t.h->req, t.h->resp, piece);
          t.pos += n;
          if (!s.ok()) {
            e.end = Ex::kRefused;
            e.err = s.code();
            finish(t);
          }
          break;
        }
        if (t.body_err) {
          sim::CountFault("response_body_error");
          e.end = Ex::kError;
          e.err = absl::StatusCode::kUnavailable;
          t.cb->OnResponseBodyError(*t.h->req, t.h->resp, absl::UnavailableError("simulated"));
          finish(t);
          break;
        }
        e.end = Ex::kDone;
        e.whole = t.pos == e.rbody.size();
        t.cb->OnResponseCompleted(*t.h->req, t.h->resp);
        finish(t);
        break;
      }
    }
  }
  sim::NoPreempt np;
  for (auto& t : tx) {
    t.h->active = false;
    sent += t.h->sent;
    received += t.h->received;
  }
  if (--performing == 0) busy_ns += sim::NowNs() - busy_since;
  batch->t_end = sim::NowNs();
  return absl::OkStatus();
}
}  // namespace net
