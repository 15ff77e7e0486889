// A simulated libcurl: the part of its interface the client uses, on top of a
// scripted server. All transfers of a multi handle progress inside
// curl_multi_perform, a seeded number of steps at a time.
namespace fakecurl {

struct Head {
  std::vector<std::string> lines;  // without the terminating empty line
};
struct Plan {
  std::vector<Head> interim;  // informational responses and followed redirects
  Head final;
  std::string body;
  std::vector<std::string> trailers;
  // 0: none, 1: before the final head, 2: inside the final head,
  // 3: inside the body, 4: while sending the request, 5: the server stalls
  int fault = 0;
  uint32_t fault_at = 0;
  bool has_request_body = false;
};
std::function<Plan*(const std::string&)> lookup;

struct Easy {
  std::string url;
  size_t (*header)(char*, size_t, size_t, void*) = nullptr;
  size_t (*write)(void*, size_t, size_t, void*) = nullptr;
  size_t (*read)(char*, size_t, size_t, void*) = nullptr;
  int (*progress)(void*, curl_off_t, curl_off_t, curl_off_t, curl_off_t) = nullptr;
  void *hd = nullptr, *wd = nullptr, *rd = nullptr, *pd = nullptr, *priv = nullptr;
  long noprogress = 1, follow = 0, get = 0, head = 0, post = 0, upload = 0;
  long field_size = -1;
  std::string accept_encoding;
  bool decode = false;
  std::vector<std::string> headers;
  char* errbuf = nullptr;
  // transfer
  Plan* plan = nullptr;
  bool active = false, in_multi = false;
  bool finished = false;
  int phase = 0;  // 0 upload, 1 interim, 2 final head, 3 body
  size_t pos = 0, line = 0;
  std::string uploaded;
  int64_t down = 0;
};
struct Multi {
  std::vector<Easy*> easies;
  std::deque<CURLMsg> msgs;
  CURLMsg current;
};
std::vector<Easy*> all;

void Done(Multi* m, Easy* e, CURLcode r) {
  e->active = false;
  e->finished = true;
  CURLMsg msg;
  memset(&msg, 0, sizeof(msg));
  msg.msg = CURLMSG_DONE;
  msg.easy_handle = reinterpret_cast<CURL*>(e);
  msg.data.result = r;
  m->msgs.push_back(msg);
}

// Sends one header line; false if the application refused it.
bool Line(Easy* e, const std::string& l) {
  std::string buf = l + "\r\n";
  e->down += 0;
  return e->header(&buf[0], 1, buf.size(), e->hd) == buf.size();
}

void Step(Multi* m, Easy* e) {
  Plan& p = *e->plan;
  if (!e->noprogress && e->progress(e->pd, 0, e->down, 0, e->uploaded.size()) != 0)
    return Done(m, e, CURLE_ABORTED_BY_CALLBACK);
  switch (e->phase) {
    case 0: {
      if (!(e->post || e->upload)) {
        e->phase = 1;
        return;
      }
      if (p.fault == 4 && e->uploaded.size() >= p.fault_at) {
        sim::CountFault("connection_lost");
        return Done(m, e, CURLE_SEND_ERROR);
      }
      if (e->field_size >= 0 && (long)e->uploaded.size() >= e->field_size) {
        e->phase = 1;
        return;
      }
      char buf[64];
      size_t want = 1 + sim::Choose(sim::kNet, 64);
      if (e->field_size >= 0) want = std::min<size_t>(want, e->field_size - e->uploaded.size());
      size_t n = e->read(buf, 1, want, e->rd);
      if (n == CURL_READFUNC_ABORT) return Done(m, e, CURLE_ABORTED_BY_CALLBACK);
      if (n > want) sim::Violation(nullptr, "upload callback returned more than asked for");
      if (n == 0) {
        e->phase = 1;
        return;
      }
      e->uploaded.append(buf, n);
      return;
    }
    case 1: {
      if (p.fault == 1) {
        sim::CountFault("connection_lost");
        return Done(m, e, CURLE_GOT_NOTHING);
      }
      if (p.fault == 5) return;  // stalls
      if (e->pos >= p.interim.size()) {
        e->phase = 2;
        e->pos = 0;
        return;
      }
      const Head& h = p.interim[e->pos];
      const std::string l = e->line < h.lines.size() ? h.lines[e->line] : "";
      if (e->line++ >= h.lines.size()) {
        e->line = 0;
        e->pos++;
      }
      if (!Line(e, l)) Done(m, e, CURLE_WRITE_ERROR);
      return;
    }
    case 2: {
      if (p.fault == 2 && e->pos >= p.fault_at) {
        sim::CountFault("connection_lost");
        return Done(m, e, CURLE_RECV_ERROR);
      }
      bool last = e->pos >= p.final.lines.size();
      const std::string l = last ? "" : p.final.lines[e->pos];
      e->pos++;
      if (last) {
        e->phase = 3;
        e->pos = 0;
      }
      if (!Line(e, l)) Done(m, e, CURLE_WRITE_ERROR);
      return;
    }
    default: {
      if (p.fault == 3 && e->pos >= p.fault_at) {
        sim::CountFault("connection_lost");
        return Done(m, e, CURLE_PARTIAL_FILE);
      }
      if (e->pos >= p.body.size() || e->head) {
        if (e->line >= p.trailers.size()) return Done(m, e, CURLE_OK);
        if (!Line(e, p.trailers[e->line++])) Done(m, e, CURLE_WRITE_ERROR);
        return;
      }
      size_t n = std::min<size_t>(p.body.size() - e->pos, 1 + sim::Choose(sim::kNet, 40));
      if (p.fault == 3) n = std::min<size_t>(n, p.fault_at - e->pos);
      // An exact copy, so that reading past the chunk is noticed.
      std::unique_ptr<char[]> chunk(new char[n]);
      memcpy(chunk.get(), p.body.data() + e->pos, n);
      e->pos += n;
      e->down += n;
      if (e->write(chunk.get(), 1, n, e->wd) != n) Done(m, e, CURLE_WRITE_ERROR);
      return;
    }
  }
}
}  // namespace fakecurl

extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
CURL* curl_easy_init() {
  sim::NoPreempt np;
  auto* e = new fakecurl::Easy;
  fakecurl::all.push_back(e);
  return reinterpret_cast<CURL*>(e);
}
void curl_easy_cleanup(CURL* c) {
  sim::NoPreempt np;
  auto* e = reinterpret_cast<fakecurl::Easy*>(c);
  fakecurl::all.erase(std::find(fakecurl::all.begin(), fakecurl::all.end(), e));
  delete e;
}
#undef curl_easy_setopt
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  auto* e = reinterpret_cast<fakecurl::Easy*>(c);
  va_list ap;
  va_start(ap, o);
  CURLcode r = CURLE_OK;
  switch (o) {
    case CURLOPT_URL: e->url = va_arg(ap, char*); break;
    case CURLOPT_ERRORBUFFER: e->errbuf = va_arg(ap, char*); break;
    case CURLOPT_FOLLOWLOCATION: e->follow = va_arg(ap, long); break;
    case CURLOPT_HEADERFUNCTION: e->header = va_arg(ap, decltype(e->header)); break;
    case CURLOPT_HEADERDATA: e->hd = va_arg(ap, void*); break;
    case CURLOPT_WRITEFUNCTION: e->write = va_arg(ap, decltype(e->write)); break;
    case CURLOPT_WRITEDATA: e->wd = va_arg(ap, void*); break;
    case CURLOPT_READFUNCTION: e->read = va_arg(ap, decltype(e->read)); break;
    case CURLOPT_READDATA: e->rd = va_arg(ap, void*); break;
    case CURLOPT_XFERINFOFUNCTION: e->progress = va_arg(ap, decltype(e->progress)); break;
    case CURLOPT_XFERINFODATA: e->pd = va_arg(ap, void*); break;
    case CURLOPT_NOPROGRESS: e->noprogress = va_arg(ap, long); break;
    case CURLOPT_PRIVATE: e->priv = va_arg(ap, void*); break;
    case CURLOPT_HTTPGET: e->get = va_arg(ap, long); break;
    case CURLOPT_NOBODY: e->head = va_arg(ap, long); break;
    case CURLOPT_POST: e->post = va_arg(ap, long); break;
    case CURLOPT_UPLOAD: e->upload = va_arg(ap, long); break;
    case CURLOPT_POSTFIELDSIZE:
    case CURLOPT_INFILESIZE: e->field_size = va_arg(ap, long); break;
    case CURLOPT_ACCEPT_ENCODING: {
      const char* s = va_arg(ap, char*);
      e->decode = s != nullptr;
      e->accept_encoding = s ? s : "";
      break;
    }
    case CURLOPT_HTTPHEADER: {
      e->headers.clear();
      for (auto* l = va_arg(ap, curl_slist*); l; l = l->next) e->headers.push_back(l->data);
      break;
    }
    default: break;
  }
  va_end(ap);
  return r;
}
#undef curl_easy_getinfo
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
  auto* e = reinterpret_cast<fakecurl::Easy*>(c);
  va_list ap;
  va_start(ap, i);
  void* out = va_arg(ap, void*);
  va_end(ap);
  switch (i) {
    case CURLINFO_PRIVATE: *static_cast<void**>(out) = e->priv; break;
    case CURLINFO_SIZE_UPLOAD_T: *static_cast<curl_off_t*>(out) = e->uploaded.size(); break;
    case CURLINFO_SIZE_DOWNLOAD_T: *static_cast<curl_off_t*>(out) = e->down; break;
    default: return CURLE_UNKNOWN_OPTION;
  }
  return CURLE_OK;
}
const char* curl_easy_strerror(CURLcode) { return "curl error"; }
const char* curl_multi_strerror(CURLMcode) { return "curl multi error"; }
curl_slist* curl_slist_append(curl_slist* l, const char* s) {
  auto* n = new curl_slist{strdup(s), nullptr};
  if (!l) return n;
  curl_slist* p = l;
  while (p->next) p = p->next;
  p->next = n;
  return l;
}
void curl_slist_free_all(curl_slist* l) {
  while (l) {
    curl_slist* n = l->next;
    free(l->data);
    delete l;
    l = n;
  }
}
CURLM* curl_multi_init() { return reinterpret_cast<CURLM*>(new fakecurl::Multi); }
CURLMcode curl_multi_cleanup(CURLM* c) {
  auto* m = reinterpret_cast<fakecurl::Multi*>(c);
  for (auto* e : m->easies) e->in_multi = false;
  delete m;
  return CURLM_OK;
}
CURLMcode curl_multi_add_handle(CURLM* c, CURL* h) {
  auto* m = reinterpret_cast<fakecurl::Multi*>(c);
  auto* e = reinterpret_cast<fakecurl::Easy*>(h);
  if (e->in_multi) return CURLM_ADDED_ALREADY;
  e->in_multi = e->active = true;
  {
    sim::NoPreempt np;
    e->plan = fakecurl::lookup(e->url);
  }
  m->easies.push_back(e);
  return CURLM_OK;
}
CURLMcode curl_multi_remove_handle(CURLM* c, CURL* h) {
  auto* m = reinterpret_cast<fakecurl::Multi*>(c);
  auto* e = reinterpret_cast<fakecurl::Easy*>(h);
  auto it = std::find(m->easies.begin(), m->easies.end(), e);
  if (it == m->easies.end()) return CURLM_BAD_EASY_HANDLE;
  m->easies.erase(it);
  e->in_multi = e->active = false;
  return CURLM_OK;
}
CURLMcode curl_multi_perform(CURLM* c, int* running) {
  auto* m = reinterpret_cast<fakecurl::Multi*>(c);
  std::vector<fakecurl::Easy*> act;
  for (auto* e : m->easies)
    if (e->active) act.push_back(e);
  int steps = act.empty() ? 0 : 1 + sim::Choose(sim::kNet, 4 * act.size());
  for (int i = 0; i < steps && !act.empty(); ++i) {
    auto* e = act[sim::Choose(sim::kNet, act.size())];
    fakecurl::Step(m, e);
    if (!e->active) act.erase(std::find(act.begin(), act.end(), e));
    sim::Yield("transfer");
  }
  *running = act.size();
  return CURLM_OK;
}
CURLMcode curl_multi_poll(CURLM*, curl_waitfd*, unsigned int, int timeout_ms, int*) {
  sim::SleepNs(1000000ll * (1 + sim::Choose(sim::kTime, std::max(1, timeout_ms / 100))));
  return CURLM_OK;
}
CURLMsg* curl_multi_info_read(CURLM* c, int* left) {
  auto* m = reinterpret_cast<fakecurl::Multi*>(c);
  if (m->msgs.empty()) return nullptr;
  m->current = m->msgs.front();
  m->msgs.pop_front();
  *left = m->msgs.size();
  return &m->current;
}
}  // extern "C"
