// Secure aggregation: a real server and real clients over a simulated network.
#include <algorithm>
#include <atomic>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "fcp/base/scheduler.h"
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/client/send_to_server_interface.h"
#include "fcp/secagg/client/state_transition_listener_interface.h"
#include "fcp/secagg/server/experiments_interface.h"
#include "fcp/secagg/server/secagg_scheduler.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/server/secagg_server_enums.pb.h"
#include "fcp/secagg/server/secagg_server_messages.pb.h"
#include "fcp/secagg/server/send_to_clients_interface.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"
#include "fcp/secagg/shared/input_vector_specification.h"
#include "fcp/secagg/shared/secagg_messages.pb.h"
#include "fcp/secagg/shared/secagg_vector.h"
#include "sim.h"

const char* kRealComponents[] = {
    "fcp/secagg/server/*", "fcp/secagg/client/*", "fcp/secagg/shared/*",
    "fcp/base/scheduler.cc", "fcp/tracing/*", "BoringSSL", nullptr};
const char* kStubComponents[] = {
    "network between clients and server (simulated)",
    "absl synchronisation (scheduler seam)", "system clocks", "entropy source",
    "log output", nullptr};

namespace {
using sim::Choose;
using sim::Flip;
using sim::kData;
using sim::kFault;
using sim::kNet;
using sim::kSched;
using sim::kWork;
using namespace fcp::secagg;  // NOLINT
using C2S = ClientToServerWrapperMessage;
using S2C = ServerToClientWrapperMessage;

std::string P() { return sim::Property(); }
bool In(const char* ids) { return std::string(ids).find(P()) != std::string::npos; }
// Reports under the property being checked if it is one of `ids`.
#define CHK(ids, cond, ...)                                   \
  do {                                                        \
    if (In(ids) && !(cond)) sim::Violation(sim::Property(), __VA_ARGS__); \
  } while (0)

enum C2SKind { kAdvertise, kShare, kMasked, kUnmask, kCAbort, kCNone };
enum S2CKind { kShareReq, kMaskReq, kUnmaskReq, kSAbort, kSEarly, kSNone };
C2SKind KindOf(const C2S& m) {
  if (m.has_abort()) return kCAbort;
  if (m.has_advertise_keys()) return kAdvertise;
  if (m.has_share_keys_response()) return kShare;
  if (m.has_masked_input_response()) return kMasked;
  if (m.has_unmasking_response()) return kUnmask;
  return kCNone;
}
S2CKind KindOf(const S2C& m) {
  if (m.has_abort()) return m.abort().early_success() ? kSEarly : kSAbort;
  if (m.has_share_keys_request()) return kShareReq;
  if (m.has_masked_input_request()) return kMaskReq;
  if (m.has_unmasking_request()) return kUnmaskReq;
  return kSNone;
}
const char* Name(C2SKind k) {
  static const char* n[] = {"advertise", "share", "masked", "unmask", "abort", "none"};
  return n[k];
}
const char* Name(S2CKind k) {
  static const char* n[] = {"share_req", "mask_req", "unmask_req", "abort", "early", "none"};
  return n[k];
}

struct Tampered { bool detectable = false; bool undetectable = false; };
struct OutMsg { C2S m; Tampered t; int author; };

class Experiments : public ExperimentsInterface {
 public:
  std::set<std::string> on;
  bool IsEnabled(absl::string_view n) override {
    return on.count(std::string(n)) > 0;
  }
};

struct Cl;
struct Session;

// What one client put on the wire, and what its listener saw.
struct Cl {
  int id = 0;
  std::unique_ptr<SecAggClient> client;
  std::deque<OutMsg> out;
  std::deque<S2C> in;
  bool crashed = false;    // process gone; never acts again
  bool input_set = false;  // offered to the client
  int accepted = 0;        // inputs the client took
  bool lost = false;       // something to/from it was lost or damaged
  std::map<std::string, std::vector<uint64_t>> input;
  int sent[6] = {0, 0, 0, 0, 0, 0};
  int last_kind = -1;
  bool terminal_seen = false;
  std::vector<int> transitions;
  std::map<int, int> share_kinds;   // peer index -> revealed kinds bitmask
  std::string noise_pk, enc_pk;
  std::set<int> dead_told;          // neighbours the server declared dead
  int alive_peers_r1 = -1, alive_peers_r2 = -1;
  std::vector<bool> alive_idx;      // by neighbour index, after mask request
  int self_idx = -1;
  std::vector<S2C> history;         // messages the server really sent
  std::string abort_reason;
  bool app_aborted = false;         // application called Abort
};

class ToServer : public SendToServerInterface {
 public:
  ToServer(Session* s, int id) : s_(s), id_(id) {}
  void Send(C2S* m) override;
 private:
  Session* s_;
  int id_;
};
class Listener : public StateTransitionListenerInterface {
 public:
  Listener(Session* s, int id) : s_(s), id_(id) {}
  void Transition(ClientState st) override;
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t) override {}
 private:
  Session* s_;
  int id_;
};
class ToClients : public SendToClientsInterface {
 public:
  explicit ToClients(Session* s) : s_(s) {}
  void Send(uint32_t id, const S2C& m) override;
 private:
  Session* s_;
};

// Reference model of the server, from the documented contract only.
struct Model {
  enum { R0, R1, R2, R3, PRNG, DONE, ABORTED };
  int state = R0;
  int n = 0, min = 0;
  std::vector<int> got;       // accepted messages so far (round index)
  std::vector<int> died_in;     // round in which the client dropped out
  std::vector<char> dead, masked, unmasked, gone_after_unmask;
  int failed_before = 0, failed_after = 0, terminated = 0;
  int received = 0, ready = 0;
  std::multimap<int, S2CKind> expect;  // messages the current call must send

  int Alive() const { return n - failed_before - failed_after - terminated; }
  bool NeedsAbort() const {
    if (state <= R2) return Alive() < min;
    if (state == R3) return Alive() - ready + received < min;
    return false;
  }
  bool Ready() const {
    if (state <= R2) return ready >= min || NeedsAbort();
    if (state == R3) return received >= min || NeedsAbort();
    return false;
  }
  int Included() const {
    if (state == R2) return received;
    if (state == R3 || state == PRNG || state == DONE) {
      int k = 0;
      for (char c : masked) k += c;
      return k;
    }
    return 0;
  }
  void Kill(int c, bool notify, bool early = false) {
    if (dead[c]) return;
    dead[c] = 1;
    died_in[c] = state;
    if (notify) expect.emplace(c, early ? kSEarly : kSAbort);
    if (state == PRNG) return;
    if (state == R3) {
      if (unmasked[c]) { gone_after_unmask[c] = 1; return; }
      if (early) terminated++; else failed_after++;
      return;
    }
    bool counted = got[c] == state + 1;
    if (counted) ready--;
    if (state == R2 && counted) failed_after++;
    else failed_before++;
  }
  void Receive(int c, C2SKind k, bool valid) {
    if (dead[c]) return;
    if (k == kCAbort) { Kill(c, false); return; }
    if (state == PRNG) { Kill(c, true); return; }
    bool ok = got[c] == state && static_cast<int>(k) == state && valid;
    if (!ok) { Kill(c, true); return; }
    got[c] = state + 1;
    received++;
    ready++;
    if (state == R2) masked[c] = 1;
    if (state == R3) unmasked[c] = 1;
  }
  void Proceed() {
    if (NeedsAbort()) {
      for (int i = 0; i < n; i++) if (!dead[i]) expect.emplace(i, kSAbort);
      state = ABORTED;
      return;
    }
    for (int i = 0; i < n; i++) {
      if (dead[i]) continue;
      if (got[i] != state + 1) Kill(i, true, state == R3);
      else if (state < R3) expect.emplace(i, static_cast<S2CKind>(state));
    }
    state++;
    received = 0;
    ready = 0;
  }
  void Abort() {
    for (int i = 0; i < n; i++) if (!dead[i]) expect.emplace(i, kSAbort);
    state = ABORTED;
  }
};

struct Session {
  int n = 0, min_given = 0, min_eff = 0;
  bool async = false, subgraph = false;
  std::vector<InputVectorSpecification> specs;
  std::vector<std::unique_ptr<Cl>> cl;
  std::unique_ptr<fcp::Scheduler> par, seq;
  std::unique_ptr<ToClients> to_clients;
  std::unique_ptr<SecAggServer> server;
  Model m;
  std::multimap<int, S2CKind> sent_now;
  bool honest_wire = true;      // no forged content accepted so far
  bool forged = false;          // undetectable forgery was injected
  int cb_pending = 0, cb_fired = 0;
  bool cb_registered = false;
  std::map<std::string, int> by_key;   // noise public key -> client
  std::vector<std::vector<int>> nbr;   // neighbour lists (from share requests)
  std::vector<std::set<int>> shares_for;  // responders per client
  int committed_included = -1;
  bool quiet = false;           // faults have stopped
  double lie_rate = 0;
  std::set<std::string> all_keys, genuine_any;
  // ciphertext of a key share -> (author's, addressee's) encryption key
  std::map<std::string, std::pair<std::string, std::string>> made;

  Cl& C(int i) { return *cl[i]; }
};

// The client's knowledge, rebuilt from the delivered requests alone.
struct View {
  std::vector<int> st;  // by index: 0 in the group, 1 gone before masking, 2 dropped while masking
  int self = -1;
  bool mask_req_done = false;
  std::vector<std::string> shares_told;
};
std::map<int, View> views;  // by client

void ToServer::Send(C2S* m) {
  sim::NoPreempt np;
  Cl& c = s_->C(id_);
  C2SKind k = KindOf(*m);
  sim::Event("client %d sends %s", id_, Name(k));
  CHK("S02 S07", k != kCNone, "client sent an empty message");
  // Every kind at most once, in protocol order, nothing after a terminal one.
  CHK("S02 S07", c.sent[k] == 0, "client sent message kind %s twice", Name(k));
  CHK("S07 S02", static_cast<int>(k) > c.last_kind,
      "client sent %s after message kind %d", Name(k), c.last_kind);
  CHK("S07 S02", c.last_kind != kCAbort && c.last_kind != kUnmask,
      "client sent %s after it had finished", Name(k));
  if (c.crashed) return;  // its process is gone
  c.sent[k]++;
  c.last_kind = k;
  if (k == kAdvertise) {
    c.noise_pk = m->advertise_keys().pair_of_public_keys().noise_pk();
    c.enc_pk = m->advertise_keys().pair_of_public_keys().enc_pk();
    s_->by_key[c.noise_pk] = id_;
    s_->all_keys.insert(c.noise_pk);
    s_->all_keys.insert(c.enc_pk);
  }
  if (k == kShare && In("S08")) {
    // Which ciphertext this client made for whom, by what it was told.
    auto& r = m->share_keys_response();
    View& v = views[id_];
    CHK("S08", r.encrypted_key_shares_size() == (int)v.st.size(), "wrong number of key shares");
    for (int i = 0; i < r.encrypted_key_shares_size(); i++) {
      CHK("S08", r.encrypted_key_shares(i).empty() == (v.st[i] != 0 || i == v.self),
          "key share present for somebody outside the group, or missing for a member");
      if (r.encrypted_key_shares(i).empty()) continue;
      CHK("S08", !s_->genuine_any.count(r.encrypted_key_shares(i)), "the same ciphertext was sent twice");
      s_->genuine_any.insert(r.encrypted_key_shares(i));
      s_->made[r.encrypted_key_shares(i)] = {c.enc_pk, v.shares_told[i]};
    }
  }
  if (k == kUnmask && In("S08")) {
    auto& u = m->unmasking_response();
    View& v = views[id_];
    CHK("S08", u.noise_or_prf_key_shares_size() == (int)v.st.size(), "wrong number of shares revealed");
    for (int i = 0; i < u.noise_or_prf_key_shares_size(); i++) {
      auto cs = u.noise_or_prf_key_shares(i).oneof_shares_case();
      auto want = v.st[i] == 0 ? NoiseOrPrfKeyShare::kPrfSkShare
                  : v.st[i] == 2 ? NoiseOrPrfKeyShare::kNoiseSkShare
                                 : NoiseOrPrfKeyShare::ONEOF_SHARES_NOT_SET;
      CHK("S08", cs == want, "wrong kind of share (%d) revealed for a peer with status %d", (int)cs, v.st[i]);
    }
  }
  if (k == kMasked) {
    CHK("S02", c.alive_peers_r2 >= s_->server->MinimumSurvivingNeighborsForReconstruction(),
        "client sent its masked input although only %d of its group are alive",
        c.alive_peers_r2);
    CHK("S02 S07", c.input_set, "client sent a masked input before it had one");
    for (auto& [name, v] : m->masked_input_response().vectors()) {
      auto it = c.input.find(name);
      CHK("S02", it != c.input.end(), "masked input has a vector nobody supplied");
      const InputVectorSpecification* sp = nullptr;
      for (auto& s : s_->specs) if (s.name() == name) sp = &s;
      if (!sp || it == c.input.end()) continue;
      // The wire must not carry the plain value (probability of a chance match
      // is below 2^-40 for the sizes tested).
      double bits = double(SecAggVector::GetBitWidth(sp->modulus())) * sp->length();
      if (bits >= 48) {
        SecAggVector plain(it->second, sp->modulus());
        CHK("S02", plain.GetAsPackedBytes() != v.encoded_vector(),
            "client sent its input unmasked");
      }
      for (auto& o : s_->cl) {
        if (o->id == id_ || bits < 48 || !In("S02")) continue;
        for (auto& q : o->out) {
          if (KindOf(q.m) != kMasked || q.author != o->id) continue;
          auto f = q.m.masked_input_response().vectors().find(name);
          if (f == q.m.masked_input_response().vectors().end()) continue;
          // Equal masks on two clients would make the difference public.
          SecAggVector a(v.encoded_vector(), sp->modulus(), sp->length());
          SecAggVector b(f->second.encoded_vector(), sp->modulus(), sp->length());
          auto av = a.GetAsUint64Vector(), bv = b.GetAsUint64Vector();
          auto& ai = it->second;
          auto& bi = o->input[name];
          if (bi.size() != ai.size()) continue;
          bool same = true;
          for (size_t i = 0; i < av.size() && same; i++) {
            uint64_t M = sp->modulus();
            same = (av[i] + M - ai[i]) % M == (bv[i] + M - bi[i]) % M;
          }
          CHK("S02", !same, "two clients used the same mask");
        }
      }
    }
  }
  if (k == kUnmask) {
    auto& u = m->unmasking_response();
    int revealed_self = 0;
    for (int i = 0; i < u.noise_or_prf_key_shares_size(); i++) {
      auto cs = u.noise_or_prf_key_shares(i).oneof_shares_case();
      if (cs == NoiseOrPrfKeyShare::kNoiseSkShare) {
        CHK("S02", c.dead_told.count(i),
            "client revealed the pairwise key share of a live neighbour %d", i);
        CHK("S02", i != c.self_idx, "client revealed its own pairwise key share");
        c.share_kinds[i] |= 1;
      } else if (cs == NoiseOrPrfKeyShare::kPrfSkShare) {
        CHK("S02", !c.dead_told.count(i),
            "client revealed the self-mask share of a dropped neighbour %d", i);
        CHK("S02", i < (int)c.alive_idx.size() && c.alive_idx[i],
            "client revealed a share for neighbour %d that was never in", i);
        c.share_kinds[i] |= 2;
        revealed_self++;
      }
    }
    CHK("S02", revealed_self >= s_->server->MinimumSurvivingNeighborsForReconstruction(),
        "client answered an unmasking request naming only %d survivors", revealed_self);
  }
  OutMsg o;
  o.m.Swap(m);
  o.author = id_;
  // With a lying server nobody can say what its own books will make of this.
  o.t.undetectable = In("S08");
  c.out.push_back(std::move(o));
}

void Listener::Transition(ClientState st) {
  sim::NoPreempt np;
  Cl& c = s_->C(id_);
  int v = static_cast<int>(st);
  if (!c.transitions.empty()) {
    int last = c.transitions.back();
    CHK("S07", last != (int)ClientState::ABORTED && last != (int)ClientState::COMPLETED,
        "client left a final state (%d -> %d)", last, v);
    CHK("S07", v >= last, "client state went back (%d -> %d)", last, v);
    CHK("S07", v <= last + 1 || v >= (int)ClientState::COMPLETED,
        "client skipped a round (%d -> %d)", last, v);
  }
  c.transitions.push_back(v);
}

void ToClients::Send(uint32_t id, const S2C& m) {
  sim::NoPreempt np;
  S2CKind k = KindOf(m);
  sim::Event("server sends %s to %u", Name(k), id);
  CHK("S03 S04 S05", (int)id < s_->n, "server sent a message to unknown client %u", id);
  CHK("S04 S05", k != kSNone, "server sent an empty message");
  s_->sent_now.emplace(id, k);
  Cl& c = s_->C(id);
  if (!c.crashed) c.in.push_back(m);
  c.history.push_back(m);
  if (k == kShareReq) {
    auto& r = m.share_keys_request();
    for (int i = 0; i < r.pairs_of_public_keys_size(); i++) {
      auto it = s_->by_key.find(r.pairs_of_public_keys(i).noise_pk());
      s_->nbr[id].push_back(it == s_->by_key.end() ? -1 : it->second);
    }
  }
}

// ------------------------------------------------------------------ set-up
uint64_t PickModulus() {
  switch (Choose(kWork, 8)) {
    case 0: return 256;
    case 1: return 2;
    case 2: return 3;
    case 3: return 1ull << 32;
    case 4: return SecAggVector::kMaxModulus;
    case 5: return SecAggVector::kMaxModulus - 1;
    case 6: return 2 + Choose(kWork, 1000);
    default: return 2 + (sim::Rand64() % (1ull << (2 + Choose(kWork, 59))));
  }
}

void SetUp(Session& s, int max_n) {
  s.subgraph = Choose(kWork, 4) == 3;
  s.n = s.subgraph ? 6 + Choose(kWork, std::max(1, max_n - 5)) : 3 + Choose(kWork, std::max(1, max_n - 2));
  s.min_given = 2 + Choose(kWork, s.n - 1);
  double dropouts[] = {0.9, 0.5, 0.3, 0.0, 0.25, 0.6};
  double rate = dropouts[Choose(kWork, 6)];
  s.async = Choose(kWork, 2);
  int nspec = 1 + Choose(kWork, 3);
  for (int i = 0; i < nspec; i++) {
    static const int lens[] = {4, 1, 9, 17, 40, 2};
    int len = lens[Choose(kWork, 6)];
    // Now and then longer than the random generators' buffers.
    if (i == 0 && In("S01 S06") && Choose(kWork, 48) == 47) len = 200 + Choose(kWork, 3000);
    s.specs.emplace_back("v" + std::to_string(i), len, PickModulus());
  }
  auto exp = std::make_unique<Experiments>();
  exp->on.insert(s.subgraph ? "FORCE_SUBGRAPH_SECAGG_FOR_TEST" : "FULLGRAPH_SECAGG");
  if (s.async) exp->on.insert("secagg_async_round_2");
  SecureAggregationRequirements tm;
  tm.set_adversary_class(Choose(kWork, 2) ? AdversaryClass::CURIOUS_SERVER : AdversaryClass::NONE);
  tm.set_adversarial_client_rate(0);
  tm.set_estimated_dropout_rate(rate);
  s.par = fcp::CreateThreadPoolScheduler(1 + Choose(kWork, 3));
  s.seq = fcp::CreateThreadPoolScheduler(1);
  s.to_clients = std::make_unique<ToClients>(&s);
  auto srv = SecAggServer::Create(
      s.min_given, s.n, s.specs, s.to_clients.get(), nullptr,
      std::make_unique<SecAggScheduler>(s.par.get(), s.seq.get()), std::move(exp), tm);
  if (!srv.ok()) sim::Violation(sim::Property(), "server rejected a legal configuration");
  s.server = std::move(srv.value());
  // Documented: at least the given minimum and at least the number of clients
  // that must remain under the assumed dropout rate.
  s.min_eff = std::max(s.min_given, (int)std::ceil(s.n * (1. - rate)));
  s.m.n = s.n;
  s.m.min = s.min_eff;
  s.m.got.assign(s.n, 0);
  s.m.dead.assign(s.n, 0);
  s.m.died_in.assign(s.n, -1);
  s.m.masked.assign(s.n, 0);
  s.m.unmasked.assign(s.n, 0);
  s.m.gone_after_unmask.assign(s.n, 0);
  s.nbr.resize(s.n);
  s.shares_for.resize(s.n);
  for (int i = 0; i < s.n; i++) {
    auto c = std::make_unique<Cl>();
    c->id = i;
    s.cl.push_back(std::move(c));
  }
  bool same_inputs = Choose(kWork, 4) == 3;
  for (int i = 0; i < s.n; i++) {
    Cl& c = s.C(i);
    for (size_t sp = 0; sp < s.specs.size(); sp++) {
      std::vector<uint64_t> v(s.specs[sp].length());
      for (auto& x : v) {
        switch (Choose(kData, 3)) {
          case 0: x = sim::Rand64() % s.specs[sp].modulus(); break;
          case 1: x = s.specs[sp].modulus() - 1; break;
          default: x = 0;
        }
      }
      if (same_inputs && i > 0) v = s.C(0).input[s.specs[sp].name()];
      c.input[s.specs[sp].name()] = v;
    }
    c.client = std::make_unique<SecAggClient>(
        s.server->NumberOfNeighbors(),
        s.server->MinimumSurvivingNeighborsForReconstruction(), s.specs,
        std::make_unique<CryptoRandPrng>(), std::make_unique<ToServer>(&s, i),
        std::make_unique<Listener>(&s, i), std::make_unique<AesCtrPrngFactory>());
  }
}

std::unique_ptr<SecAggVectorMap> InputFor(Session& s, int i) {
  auto map = std::make_unique<SecAggVectorMap>();
  for (auto& sp : s.specs)
    map->emplace(sp.name(), SecAggVector(s.C(i).input[sp.name()], sp.modulus()));
  return map;
}

// -------------------------------------------------------------- comparisons
void CheckServer(Session& s, const char* after) {
  sim::NoPreempt np;
  Model& m = s.m;
  SecAggServer& sv = *s.server;
  // Messages of this call.
  CHK("S03 S04 S05", s.sent_now == m.expect,
      "after %s: server sent %zu messages where %zu were due, or to other clients", after,
      s.sent_now.size(), m.expect.size());
  s.sent_now.clear();
  m.expect.clear();
  const char* ids = "S04 S05";
  CHK(ids, (int)sv.State() != 0 || true, "unreachable");
  CHK("S03 S04 S05", sv.IsAborted() == (m.state == Model::ABORTED),
      "after %s: IsAborted is %d, expected %d", after, sv.IsAborted(), m.state == Model::ABORTED);
  CHK("S03 S04 S05", sv.IsCompletedSuccessfully() == (m.state == Model::DONE),
      "after %s: IsCompletedSuccessfully is %d", after, sv.IsCompletedSuccessfully());
  static const SecAggServerStateKind kinds[] = {
      SecAggServerStateKind::R0_ADVERTISE_KEYS, SecAggServerStateKind::R1_SHARE_KEYS,
      SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION, SecAggServerStateKind::R3_UNMASKING,
      SecAggServerStateKind::PRNG_RUNNING, SecAggServerStateKind::COMPLETED,
      SecAggServerStateKind::ABORTED};
  CHK("S03 S04 S05", sv.State() == kinds[m.state], "after %s: server in state %d, model in %d", after,
      (int)sv.State(), m.state);
  auto dead = sv.AbortedClientIds();
  for (int i = 0; i < s.n; i++)
    CHK(ids, dead.contains(i) == (bool)m.dead[i],
        "after %s: client aborted=%d, expected %d", after, (int)dead.contains(i), (int)m.dead[i]);
  CHK(ids, (int)dead.size() <= s.n, "unknown aborted client");
  CHK(ids, sv.NumberOfAliveClients() == m.Alive(), "after %s: %d alive, expected %d", after,
      sv.NumberOfAliveClients(), m.Alive());
  CHK("S05", sv.NumberOfClientsFailedBeforeSendingMaskedInput() == m.failed_before,
      "after %s: %d failed before masked input, expected %d", after,
      sv.NumberOfClientsFailedBeforeSendingMaskedInput(), m.failed_before);
  CHK("S05", sv.NumberOfClientsFailedAfterSendingMaskedInput() == m.failed_after,
      "after %s: %d failed after masked input, expected %d", after,
      sv.NumberOfClientsFailedAfterSendingMaskedInput(), m.failed_after);
  CHK("S05", sv.NumberOfClientsTerminatedWithoutUnmasking() == m.terminated,
      "after %s: %d terminated without unmasking, expected %d", after,
      sv.NumberOfClientsTerminatedWithoutUnmasking(), m.terminated);
  CHK("S05 S01", sv.NumberOfIncludedInputs() == m.Included(),
      "after %s: %d included inputs, expected %d", after, sv.NumberOfIncludedInputs(), m.Included());
  bool committed = m.state >= Model::R3;
  CHK("S05", sv.IsNumberOfIncludedInputsCommitted() == committed,
      "after %s: included inputs committed=%d in state %d", after,
      sv.IsNumberOfIncludedInputsCommitted(), m.state);
  if (committed && m.state != Model::ABORTED) {
    if (s.committed_included < 0) s.committed_included = sv.NumberOfIncludedInputs();
    CHK("S05 S01", s.committed_included == sv.NumberOfIncludedInputs(),
        "the committed number of included inputs changed from %d to %d", s.committed_included,
        sv.NumberOfIncludedInputs());
  }
  int pending = m.state <= Model::R3 ? m.Alive() - m.ready : 0;
  CHK("S05", sv.NumberOfPendingClients() == pending, "after %s: %d pending, expected %d", after,
      sv.NumberOfPendingClients(), pending);
  auto rd = sv.NumberOfClientsReadyForNextRound();
  auto rc = sv.NumberOfMessagesReceivedInThisRound();
  auto mn = sv.MinimumMessagesNeededForNextRound();
  bool term = m.state >= Model::DONE;
  CHK("S05", rd.ok() == !term && rc.ok() == !term && mn.ok() == !term,
      "round statistics availability is wrong in state %d", m.state);
  if (!term && m.state <= Model::R3) {
    CHK("S05", rd.value() == m.ready, "after %s: %d ready, expected %d", after, rd.value(), m.ready);
    CHK("S05", rc.value() == m.received, "after %s: %d received in this round, expected %d", after,
        rc.value(), m.received);
    int need = std::max(0, m.min - (m.state == Model::R3 ? m.received : m.ready));
    CHK("S05 S02", mn.value() == need, "after %s: %d more messages needed, expected %d", after,
        mn.value(), need);
    auto ready = sv.ReadyForNextRound();
    CHK("S02 S03 S05", ready.ok(), "readiness unavailable in an active round");
    if (ready.ok()) {
      if (ready.value())
        CHK("S02 S03 S05", m.Ready(), "after %s: server ready for the next round too early", after);
      else if (!(s.async && m.state == Model::R2))
        CHK("S03 S05", !m.Ready(), "after %s: server not ready although it should be", after);
    }
  }
  sim::Cover(sim::Mix(sim::Mix(m.state, m.Alive() * 100 + m.ready),
                      m.failed_after * 10000 + m.received * 100 + m.min));
}

bool Reconstructible(Session& s) {
  int t = s.server->MinimumSurvivingNeighborsForReconstruction();
  for (int i = 0; i < s.n; i++) {
    bool self = s.m.masked[i];
    bool pair = !self && s.m.dead[i] && s.m.died_in[i] == Model::R2;  // shared its keys, then dropped out
    if (!self && !pair) continue;
    if ((int)s.shares_for[i].size() < t) return false;
  }
  return true;
}

void CheckResult(Session& s) {
  sim::NoPreempt np;
  int included = 0;
  for (int i = 0; i < s.n; i++) included += s.m.masked[i];
  CHK("S01 S02 S05", included >= s.min_eff,
      "the server completed with %d inputs, below the required %d", included, s.min_eff);
  auto r = s.server->Result();
  CHK("S01 S03 S06", r.ok(), "completed server has no result");
  if (!r.ok()) return;
  CHK("S01 S06", r.value() != nullptr, "completed server has a null result");
  CHK("S01 S06", r.value()->size() == s.specs.size(), "result has %zu vectors, expected %zu",
      r.value()->size(), s.specs.size());
  if (!s.forged) {
    for (auto& sp : s.specs) {
      auto it = r.value()->find(sp.name());
      CHK("S01 S04 S06", it != r.value()->end(), "result lacks a vector");
      if (it == r.value()->end()) return;
      CHK("S01 S06", it->second.modulus() == sp.modulus(), "result has another modulus");
      auto got = it->second.GetAsUint64Vector();
      CHK("S01 S04 S06", (int)got.size() == sp.length(), "result has length %zu", got.size());
      for (int k = 0; k < sp.length(); k++) {
        unsigned __int128 sum = 0;
        for (int i = 0; i < s.n; i++)
          if (s.m.masked[i]) sum += s.C(i).input[sp.name()][k];
        uint64_t want = (uint64_t)(sum % sp.modulus());
        CHK("S01 S04 S06", got[k] == want,
            "result differs from the sum of the included inputs (vector %s, element %d)",
            sp.name().c_str(), k);
      }
    }
    sim::Count("results compared");
  }
  auto again = s.server->Result();
  CHK("S01", !again.ok() && again.status().code() == absl::StatusCode::kUnavailable,
      "the result was handed out twice");
}

// -------------------------------------------------------------------- steps
void NoteAccepted(Session& s, int c, const C2S& m) {
  if (KindOf(m) != kUnmask) return;
  auto& u = m.unmasking_response();
  for (int i = 0; i < u.noise_or_prf_key_shares_size() && i < (int)s.nbr[c].size(); i++)
    if (u.noise_or_prf_key_shares(i).oneof_shares_case() !=
            NoiseOrPrfKeyShare::ONEOF_SHARES_NOT_SET && s.nbr[c][i] >= 0)
      s.shares_for[s.nbr[c][i]].insert(c);
}

void DeliverToServer(Session& s, int c, OutMsg o) {
  C2SKind k = KindOf(o.m);
  int before = s.m.got[c];
  int st0 = s.m.state;
  bool was_dead = s.m.dead[c];
  sim::Event("server receives %s from %d%s", Name(k), c,
             o.t.detectable ? " (damaged)" : o.t.undetectable ? " (forged)" : "");
  C2S copy = o.m;
  auto r = s.server->ReceiveMessage(c, std::make_unique<C2S>(std::move(o.m)));
  sim::NoPreempt np;
  if (st0 >= Model::DONE) {
    CHK("S03 S04 S05", !r.ok() && r.status().code() == absl::StatusCode::kFailedPrecondition,
        "a finished server accepted a message");
    CheckServer(s, "message after the end");
    return;
  }
  CHK("S03 S04 S05", r.ok(), "ReceiveMessage failed in state %d: %s", st0,
      std::string(r.status().message()).c_str());
  bool valid = !o.t.detectable;
  // The server may or may not be able to tell a forgery; either is fine.
  if (valid && o.t.undetectable) valid = !s.server->AbortedClientIds().contains(c);
  s.m.Receive(c, k, valid);
  if (!was_dead && s.m.got[c] > before) {
    if (o.t.undetectable) s.forged = true;
    NoteAccepted(s, c, copy);
  }
  CheckServer(s, "message");
}

// ------------------------------------------------- a misbehaving server (S08)
// What the client must make of a message, given all it was told before.
enum Verdict { kAnswer, kRefuse, kIgnore, kLeave, kFinish, kEither };
const char* Name(Verdict v) {
  static const char* n[] = {"answer", "refuse", "ignore", "leave", "finish", "either"};
  return n[v];
}

Verdict Judge(Session& s, int c, const S2C& m, View& v) {
  Cl& cl = s.C(c);
  const int min = s.server->MinimumSurvivingNeighborsForReconstruction();
  const int max = s.server->NumberOfNeighbors();
  if (m.has_abort()) return m.abort().early_success() ? kFinish : kLeave;
  if (!cl.sent[kShare]) {
    if (!m.has_share_keys_request()) return kIgnore;
    auto& r = m.share_keys_request();
    int n = r.pairs_of_public_keys_size(), alive = 0, self = 0;
    bool doubt = false;
    if (n < min || n > max || r.session_id().size() != 32) return kRefuse;
    v = View();
    for (int i = 0; i < n; i++) {
      auto& p = r.pairs_of_public_keys(i);
      if (p.enc_pk().empty() || p.noise_pk().empty()) { v.st.push_back(1); continue; }
      if (p.enc_pk().size() != 33 || p.noise_pk().size() != 33) return kRefuse;
      alive++;
      v.st.push_back(0);
      if (p.enc_pk() == cl.enc_pk && p.noise_pk() == cl.noise_pk) { self++; v.self = i; }
      else if (!s.all_keys.count(p.enc_pk()) || !s.all_keys.count(p.noise_pk())) doubt = true;
    }
    if (self != 1 || alive < min) return kRefuse;
    return doubt ? kEither : kAnswer;
  }
  if (!v.mask_req_done) {
    if (!m.has_masked_input_request()) return kIgnore;
    auto& r = m.masked_input_request();
    if (r.encrypted_key_shares_size() != (int)v.st.size()) return kRefuse;
    int alive = 0;
    std::vector<int> st = v.st;
    for (int i = 0; i < (int)st.size(); i++) {
      if (i == v.self) { alive++; continue; }
      auto& e = r.encrypted_key_shares(i);
      if (st[i] != 0) { if (!e.empty()) return kRefuse; continue; }
      if (e.empty()) { st[i] = 1; continue; }
      // Only what that peer encrypted for this client may be accepted.
      auto g = s.made.find(e);
      if (g == s.made.end() || g->second.second != cl.enc_pk || g->second.first != v.shares_told[i])
        return kRefuse;
      alive++;
    }
    if (alive < min) return kRefuse;
    v.st = st;
    v.mask_req_done = true;
    return kAnswer;
  }
  if (!cl.sent[kMasked]) return kIgnore;  // waits for its input
  if (!m.has_unmasking_request()) return kIgnore;
  std::vector<int> st = v.st;
  for (uint32_t id1 : m.unmasking_request().dead_3_client_ids()) {
    int64_t i = int64_t(id1) - 1;
    if (i < 0 || i >= (int)st.size() || i == v.self || st[i] != 0) return kRefuse;
    st[i] = 2;
  }
  int alive = 0;
  for (int x : st) alive += x == 0;
  if (alive < min) return kRefuse;
  v.st = st;
  return kAnswer;
}

// What a client that speaks to a lying server may receive instead of m.
void Lie(Session& s, int c, S2C& m) {
  auto junk = [&](size_t n) { std::string x(n, 0); sim::RandBytes(&x[0], n); return x; };
  sim::CountFault("server message falsified");
  if (Choose(kFault, 8) == 7) {  // something else altogether
    switch (Choose(kFault, 4)) {
      case 0: {
        int o = Choose(kFault, s.n);
        auto& h = s.C(o).history;
        if (!h.empty()) m = h[Choose(kFault, h.size())];
        return;
      }
      case 1: m.Clear(); return;
      case 2: m.Clear(); m.mutable_abort()->set_early_success(true); return;
      default: {
        auto& h = s.C(c).history;
        if (!h.empty()) m = h[Choose(kFault, h.size())];
        return;
      }
    }
  }
  int times = 1 + Choose(kFault, 2);
  for (int t = 0; t < times; t++) {
    if (m.has_share_keys_request()) {
      auto* r = m.mutable_share_keys_request();
      int n = r->pairs_of_public_keys_size();
      if (n == 0) return;
      auto* k = r->mutable_pairs_of_public_keys(Choose(kFault, n));
      switch (Choose(kFault, 11)) {
        case 0: r->mutable_pairs_of_public_keys()->RemoveLast(); break;
        case 1: k->Clear(); break;
        case 2: k->clear_enc_pk(); break;
        case 3: k->clear_noise_pk(); break;
        case 4: k->set_noise_pk(junk(Choose(kFault, 2) ? 33 : 1 + Choose(kFault, 70))); break;
        case 5: k->set_enc_pk(junk(Choose(kFault, 2) ? 33 : 1 + Choose(kFault, 70))); break;
        case 6: k->set_enc_pk(s.C(c).enc_pk); k->set_noise_pk(s.C(c).noise_pk); break;
        case 7: { auto x = *k; *r->add_pairs_of_public_keys() = x; break; }
        case 8: r->set_session_id(junk(Choose(kFault, 40))); break;
        case 9: { auto x = *k; auto* l = r->mutable_pairs_of_public_keys(n - 1); *k = *l; *l = x; break; }
        case 10: { int keep = Choose(kFault, n + 1); while (r->pairs_of_public_keys_size() > keep) r->mutable_pairs_of_public_keys()->RemoveLast(); break; }
      }
    } else if (m.has_masked_input_request()) {
      auto* r = m.mutable_masked_input_request();
      int n = r->encrypted_key_shares_size();
      if (n == 0) return;
      int i = Choose(kFault, n), j = Choose(kFault, n);
      switch (Choose(kFault, 7)) {
        case 0: r->set_encrypted_key_shares(i, ""); break;
        case 1: r->set_encrypted_key_shares(i, junk(1 + Choose(kFault, 120))); break;
        case 2: r->mutable_encrypted_key_shares()->RemoveLast(); break;
        case 3: r->add_encrypted_key_shares(junk(60)); break;
        case 4: r->mutable_encrypted_key_shares()->SwapElements(i, j); break;
        case 5: { auto* e = r->mutable_encrypted_key_shares(i); if (!e->empty()) (*e)[Choose(kFault, e->size())] ^= 1 << Choose(kFault, 8); break; }
        case 6: for (int q = 0; q < n; q++) if (Choose(kFault, 2)) r->set_encrypted_key_shares(q, ""); break;
      }
    } else if (m.has_unmasking_request()) {
      auto* r = m.mutable_unmasking_request();
      int n = s.nbr[c].size();
      switch (Choose(kFault, 6)) {
        case 0: case 1: r->add_dead_3_client_ids(1 + Choose(kFault, n + 1)); break;
        case 2: r->add_dead_3_client_ids(Choose(kFault, 2) ? 0 : 0xffffffffu); break;
        case 3: if (r->dead_3_client_ids_size()) r->add_dead_3_client_ids(r->dead_3_client_ids(0)); break;
        case 4: r->clear_dead_3_client_ids(); break;
        case 5: for (int q = 1; q <= n; q++) if (Choose(kFault, 2)) r->add_dead_3_client_ids(q); break;
      }
    }
  }
}

void DeliverToClient(Session& s, int c) {
  Cl& cl = s.C(c);
  S2C m = std::move(cl.in.front());
  cl.in.pop_front();
  if (cl.crashed) return;
  Verdict verdict = kEither;
  int sent0[6];
  std::string state0;
  if (In("S08")) {
    sim::NoPreempt np;
    if (!s.quiet && Flip(kFault, s.lie_rate)) Lie(s, c, m);
    bool final_already = cl.client->IsAborted() || cl.client->IsCompletedSuccessfully();
    View& v = views[c];
    View v2 = v;
    verdict = final_already ? kIgnore : Judge(s, c, m, v2);
    if (!final_already && !cl.sent[kShare] && m.has_share_keys_request()) {
      v2.shares_told.clear();
      for (auto& p : m.share_keys_request().pairs_of_public_keys()) v2.shares_told.push_back(p.enc_pk());
    }
    if (verdict == kAnswer || verdict == kEither) v = v2;
    memcpy(sent0, cl.sent, sizeof sent0);
    state0 = cl.client->State();
  }
  S2CKind k = KindOf(m);
  {
    sim::NoPreempt np;
    sim::Event("client %d receives %s", c, Name(k));
    std::string st = cl.client->State();
    if (k == kShareReq && cl.sent[kShare] == 0) {
      cl.alive_peers_r1 = 0;
      cl.self_idx = -1;
      cl.alive_idx.clear();
      for (int i = 0; i < m.share_keys_request().pairs_of_public_keys_size(); i++) {
        auto& p = m.share_keys_request().pairs_of_public_keys(i);
        bool alive = !p.noise_pk().empty() && !p.enc_pk().empty();
        cl.alive_idx.push_back(alive);
        cl.alive_peers_r1 += alive;
        if (p.noise_pk() == cl.noise_pk) cl.self_idx = i;
      }
    }
    if (k == kMaskReq && cl.sent[kMasked] == 0 && cl.alive_peers_r2 < 0 && cl.sent[kShare]) {
      auto& r = m.masked_input_request();
      cl.alive_peers_r2 = 0;
      for (int i = 0; i < r.encrypted_key_shares_size() && i < (int)cl.alive_idx.size(); i++) {
        if (i != cl.self_idx && r.encrypted_key_shares(i).empty()) cl.alive_idx[i] = false;
        cl.alive_peers_r2 += cl.alive_idx[i];
      }
    }
    if (k == kUnmaskReq && cl.sent[kMasked] && !cl.sent[kUnmask]) {
      cl.dead_told.clear();
      for (uint32_t id : m.unmasking_request().dead_3_client_ids()) cl.dead_told.insert(id - 1);
    }
  }
  bool was_final = cl.client->IsAborted() || cl.client->IsCompletedSuccessfully();
  auto r = cl.client->ReceiveMessage(m);
  bool aborted = cl.client->IsAborted(), done = cl.client->IsCompletedSuccessfully();
  sim::NoPreempt np;
  if (In("S08")) {
    int new_msgs = 0;
    for (int i = 0; i < 5; i++) new_msgs += cl.sent[i] - sent0[i];
    int told_abort = cl.sent[kCAbort] - sent0[kCAbort];
    sim::Count((std::string("verdict ") + Name(verdict)).c_str());
    sim::Cover(sim::Mix(sim::Hash64(state0.data(), state0.size()), sim::Mix(verdict, k)));
    switch (verdict) {
      case kIgnore:
        CHK("S08", !r.ok(), "client in state %s accepted a %s message", state0.c_str(), Name(k));
        CHK("S08", new_msgs == 0, "client answered a message of the wrong kind for state %s", state0.c_str());
        CHK("S08", cl.client->State() == state0, "a message of the wrong kind changed the client's state");
        break;
      case kRefuse:
        CHK("S08", aborted && told_abort == 1 && new_msgs == 1,
            "client in state %s did not refuse an inconsistent %s message", state0.c_str(), Name(k));
        break;
      case kLeave:
        CHK("S08", aborted && new_msgs == 0, "client did not leave when told to abort");
        break;
      case kFinish:
        CHK("S08", done && new_msgs == 0, "client did not finish on early success");
        break;
      case kAnswer:
        CHK("S08", !aborted && told_abort == 0, "client in state %s refused a consistent %s message",
            state0.c_str(), Name(k));
        if (k == kShareReq) CHK("S08", cl.sent[kShare] == 1 && new_msgs == 1, "no key shares sent");
        if (k == kMaskReq) CHK("S08", cl.sent[kMasked] == (cl.accepted > 0) && new_msgs == (cl.accepted > 0), "wrong answer to the masked input request");
        if (k == kUnmaskReq) CHK("S08", cl.sent[kUnmask] == 1 && new_msgs == 1 && done, "wrong answer to the unmasking request");
        break;
      case kEither:
        CHK("S08", aborted ? (told_abort == 1 && new_msgs == 1) : told_abort == 0, "client half refused a message");
        break;
    }
  }
  CHK("S07", !(aborted && done), "client both aborted and completed");
  if (was_final) {
    CHK("S07", !r.ok(), "a finished client accepted a message");
  } else if (r.ok()) {
    bool goes_on = r.value();
    if (goes_on) { /* may have been aborted concurrently since */ }
    else CHK("S07", aborted || done, "client reported the end but is still active");
    if (k == kSAbort) CHK("S07 S03", aborted, "client ignored the server's abort");
    if (k == kSEarly) CHK("S07 S03", done || cl.app_aborted, "client ignored early success");
  }
}

Tampered Damage(Session& s, C2S& m, int c) {
  Tampered t;
  sim::CountFault("message damaged");
  auto junk = [&](size_t n) { std::string x(n, 0); sim::RandBytes(&x[0], n); return x; };
  int st = s.m.state;
  switch (KindOf(m)) {
    case kAdvertise: {
      auto* p = m.mutable_advertise_keys()->mutable_pair_of_public_keys();
      switch (Choose(kFault, 5)) {
        case 0: p->clear_enc_pk(); t.detectable = true; break;
        case 1: p->clear_noise_pk(); t.detectable = true; break;
        case 2: *p->mutable_noise_pk() += "x"; t.detectable = true; break;
        case 3: p->set_enc_pk(junk(1 + Choose(kFault, 32))); p->set_noise_pk(p->enc_pk()); t.detectable = true; break;
        case 4: p->set_enc_pk(junk(33)); p->set_noise_pk(junk(33)); t.undetectable = true; break;
      }
      break;
    }
    case kShare: {
      auto* sh = m.mutable_share_keys_response();
      int n = sh->encrypted_key_shares_size();
      int full = -1, empty = -1;
      for (int i = 0; i < n; i++) (sh->encrypted_key_shares(i).empty() ? empty : full) = i;
      switch (Choose(kFault, 5)) {
        case 0: sh->add_encrypted_key_shares("zz"); t.detectable = true; break;
        case 1: sh->mutable_encrypted_key_shares()->RemoveLast(); t.detectable = true; break;
        case 2: if (full >= 0) { sh->set_encrypted_key_shares(full, ""); t.detectable = true; } break;
        case 3: if (empty >= 0) { sh->set_encrypted_key_shares(empty, "zz"); t.detectable = true; } break;
        case 4: if (full >= 0) { sh->set_encrypted_key_shares(full, junk(1 + Choose(kFault, 90))); t.undetectable = true; } break;
      }
      break;
    }
    case kMasked: {
      auto* v = m.mutable_masked_input_response()->mutable_vectors();
      if (v->empty()) break;
      switch (Choose(kFault, 6)) {
        case 0: v->erase(v->begin()); t.detectable = true; break;
        case 1: (*v)["extra"].set_encoded_vector("a"); t.detectable = true; break;
        case 2: { auto x = v->begin()->second; v->erase(v->begin()); (*v)["other"] = x; t.detectable = true; break; }
        case 3: v->begin()->second.mutable_encoded_vector()->append("b"); t.detectable = true; break;
        case 4: v->begin()->second.mutable_encoded_vector()->pop_back(); t.detectable = true; break;
        case 5: { auto& e = *v->begin()->second.mutable_encoded_vector(); e = junk(e.size()); t.undetectable = true; break; }
      }
      break;
    }
    case kUnmask: {
      auto* u = m.mutable_unmasking_response();
      int n = u->noise_or_prf_key_shares_size();
      int full = -1, empty = -1;
      for (int i = 0; i < n; i++)
        (u->noise_or_prf_key_shares(i).oneof_shares_case() == NoiseOrPrfKeyShare::ONEOF_SHARES_NOT_SET ? empty : full) = i;
      switch (Choose(kFault, 7)) {
        case 0: if (full >= 0) { u->mutable_noise_or_prf_key_shares(full)->Clear(); t.detectable = true; } break;
        case 1: if (empty >= 0) { u->mutable_noise_or_prf_key_shares(empty)->set_prf_sk_share(junk(36)); t.detectable = true; } break;
        case 2: if (full >= 0) {
          auto* k = u->mutable_noise_or_prf_key_shares(full);
          if (k->has_noise_sk_share()) k->set_prf_sk_share(junk(36)); else k->set_noise_sk_share(junk(36));
          t.detectable = true; } break;
        case 3: if (n > 0) { u->mutable_noise_or_prf_key_shares()->RemoveLast(); t.detectable = true; } break;
        case 4: u->clear_noise_or_prf_key_shares(); t.detectable = n > 0; break;
        case 5: case 6: if (full >= 0) {
          auto* k = u->mutable_noise_or_prf_key_shares(full);
          static const int sizes[] = {36, 20, 35, 1, 4, 40, 400, 0, 32, 16};
          std::string x = junk(sizes[Choose(kFault, 10)]);
          if (k->has_noise_sk_share()) k->set_noise_sk_share(x); else k->set_prf_sk_share(x);
          t.undetectable = true; } break;
      }
      break;
    }
    default: break;
  }
  (void)st; (void)c;
  return t;
}

void TryProceed(Session& s) {
  if (s.m.state >= Model::DONE) {
    auto st = s.server->ProceedToNextRound();
    CHK("S03 S05", st.code() == absl::StatusCode::kFailedPrecondition,
        "a finished server proceeded to another round");
    CheckServer(s, "proceed after the end");
    return;
  }
  auto ready = s.server->ReadyForNextRound();
  if (!ready.ok()) sim::Violation(sim::Property(), "readiness unavailable in an active round");
  bool prng = s.m.state == Model::PRNG;
  bool model_ready = s.m.Ready();
  auto st = s.server->ProceedToNextRound();
  sim::NoPreempt np;
  sim::Event("proceed from %d: %d", s.m.state, (int)st.code());
  if (ready.value()) {
    CHK("S03 S05 S06", st.ok(), "server was ready but did not proceed from state %d", s.m.state);
  }
  if (!st.ok()) {
    CHK("S03 S05", st.code() == absl::StatusCode::kUnavailable,
        "proceeding too early gave code %d", (int)st.code());
    bool may_be_busy = prng || (s.async && s.m.state == Model::R2);
    if (!may_be_busy)
      CHK("S03 S05", !model_ready, "server does not proceed although enough clients answered");
    CheckServer(s, "refused proceed");
    return;
  }
  if (prng) {
    bool ok = s.server->IsCompletedSuccessfully();
    if (!s.forged) {
      bool can = Reconstructible(s);
      CHK("S01 S03 S06", ok == can,
          "keys reconstructible: %d, but server %s", can, ok ? "completed" : "aborted");
    }
    s.m.state = ok ? Model::DONE : Model::ABORTED;
    CheckServer(s, "completion");
    if (ok) CheckResult(s);
    return;
  }
  CHK("S02 S03 S05", model_ready, "server proceeded from state %d with %d of %d required answers",
      s.m.state, s.m.ready, s.m.min);
  s.m.Proceed();
  CheckServer(s, "proceed");
}

void RegisterCallback(Session& s) {
  bool armed;
  {
    sim::NoPreempt np;
    if (s.cb_registered) return;
    s.cb_registered = true;
    armed = s.cb_pending > 0;
  }
  (void)armed;
  Session* sp = &s;
  bool r = s.server->SetAsyncCallback([sp] {
    sim::NoPreempt np;
    CHK("S06", sp->cb_registered, "the completion callback ran twice");
    sp->cb_registered = false;
    sp->cb_fired++;
    sim::Event("async callback");
  });
  sim::NoPreempt np;
  if (!r) s.cb_registered = false;
  int st = s.m.state;
  if (!(st == Model::PRNG || (st == Model::R2 && s.async)))
    CHK("S06", !r, "a callback was accepted in state %d without asynchronous work", st);
  if (st == Model::PRNG) CHK("S06", r, "no completion callback accepted while unmasking");
}

bool ClientUsable(Session& s, int c) {
  return !s.C(c).crashed && !s.C(c).client->IsAborted() && !s.C(c).client->IsCompletedSuccessfully();
}

void DoSetInput(Session& s, int c) {
  Cl& cl = s.C(c);
  if (cl.crashed) return;
  bool fin = cl.client->IsAborted() || cl.client->IsCompletedSuccessfully();
  if (P() == "S07" && Choose(kFault, 4) == 1) {
    // A wrong input must be refused and change nothing.
    auto bad = InputFor(s, c);
    switch (Choose(kFault, 3)) {
      case 0: bad->erase(bad->begin()); break;
      case 1: bad->emplace("zz", SecAggVector(std::vector<uint64_t>{1}, 4)); break;
      case 2: {
        std::string nm = s.specs[0].name();
        std::vector<uint64_t> v(s.specs[0].length() + 1, 0);
        bad->erase(nm);
        bad->emplace(nm, SecAggVector(v, s.specs[0].modulus()));
        break;
      }
    }
    auto st = cl.client->SetInput(std::move(bad));
    sim::NoPreempt np;
    CHK("S07", !st.ok(), "client accepted an input that does not match its specification");
    return;
  }
  bool before = cl.input_set;
  if (!before) cl.input_set = true;  // the message may go out inside the call
  auto st = cl.client->SetInput(InputFor(s, c));
  sim::NoPreempt np;
  if (!st.ok() && !before && P() != "S07") cl.input_set = false;
  cl.accepted += st.ok();
  CHK("S07", cl.accepted <= 1, "client accepted a second input");
  if (fin) CHK("S07", !st.ok(), "a finished client accepted an input");
  if (!before && !fin && !cl.app_aborted && P() != "S07")
    CHK("S07 S03", st.ok() || cl.client->IsAborted(), "client refused its input");
  sim::Event("client %d input: %d", c, (int)st.code());
}

void CrashClient(Session& s, int c) {
  sim::NoPreempt np;
  Cl& cl = s.C(c);
  if (cl.crashed) return;
  cl.crashed = true;
  cl.in.clear();
  if (Choose(kFault, 2)) cl.out.clear();  // in-flight messages lost too
  sim::CountFault("client crash");
  sim::Event("client %d crashes", c);
}

void ServerAbortClient(Session& s, int c, ClientAbortReason why) {
  bool term = s.m.state >= Model::DONE;
  sim::Event("server told to abort client %d (%d)", c, (int)why);
  auto st = s.server->AbortClient(c, why);
  sim::NoPreempt np;
  if (term) {
    CHK("S03 S05", st.code() == absl::StatusCode::kFailedPrecondition, "AbortClient worked after the end");
  } else {
    CHK("S03 S05", st.ok(), "AbortClient failed");
    s.m.Kill(c, why == ClientAbortReason::INVALID_MESSAGE);
  }
  CheckServer(s, "AbortClient");
}

void AbortServer(Session& s) {
  sim::CountFault("server abort");
  auto st = s.server->Abort();
  {
    sim::NoPreempt np;
    sim::Event("server abort");
    CHK("S03 S05 S06", st.ok(), "server abort failed");
    s.m.Abort();
    CheckServer(s, "abort");
  }
  // A user may drop the server right after aborting it.
  if (P() == "S06" && Choose(kFault, 2)) {
    s.server.reset();
    s.par->WaitUntilIdle();
    s.seq->WaitUntilIdle();
    sim::Count("server destroyed after abort");
    sim::Finish();
  }
}

int PickNonEmpty(Session& s, bool out) {
  std::vector<int> v;
  for (int i = 0; i < s.n; i++)
    if (out ? !s.C(i).out.empty() : (!s.C(i).in.empty() && !s.C(i).crashed)) v.push_back(i);
  if (v.empty()) return -1;
  return v[Choose(kNet, v.size())];
}

void RunSession(int max_n) {
  auto sp = std::make_unique<Session>();
  Session& s = *sp;
  bool threads = In("S06 S07");
  sim::SwarmTuning(threads);
  // Cryptography dominates the instrumented accesses; preempt sparsely.
  if (sim::tuning().mem_gap > 0) sim::tuning().mem_gap *= 20;
  sim::tuning().max_steps = 400000;
  SetUp(s, max_n);
  bool damage = In("S04");
  bool dup = In("S04 S05 S03 S07 S08");
  if (In("S08")) {
    s.lie_rate = sim::ConfigChoose(5) == 0 ? 0.0 : 0.05 + 0.4 * sim::ConfigUniform();
    s.forged = true;
  }
  double fault_rate = sim::ConfigUniform() < 0.3 ? 0.0 : 0.02 + 0.15 * sim::ConfigUniform();
  bool late_inputs = Choose(kWork, 2);
  bool allow_server_abort = In("S03 S05 S06") && Choose(kWork, P() == "S06" ? 2 : 4) == 1;
  std::vector<std::thread> app;
  for (int i = 0; i < s.n; i++) {
    auto st = s.C(i).client->Start();
    CHK("S03 S07", st.ok(), "client does not start");
    if (!late_inputs || Choose(kWork, 3) == 0) DoSetInput(s, i);
  }
  // S07: the application acts on some clients from its own threads.
  std::atomic<bool> stop{false};
  if (In("S07")) {
    int k = 1 + Choose(kWork, 2);
    for (int j = 0; j < k && j < s.n; j++) {
      int what = Choose(kWork, 3);
      int delay = Choose(kWork, 60);
      app.emplace_back([&s, j, what, delay] {
        for (int i = 0; i < delay; i++) sim::Yield("app");
        Cl& c = s.C(j);
        if (what == 0 || what == 2) {
          { sim::NoPreempt np; c.input_set = true; }
          auto st = c.client->SetInput(InputFor(s, j));
          sim::NoPreempt np;
          c.accepted += st.ok();
          CHK("S07", c.accepted <= 1, "client accepted a second input");
        }
        if (what >= 1) {
          std::string reason = "app reason " + std::to_string(j);
          { sim::NoPreempt np; c.app_aborted = true; c.abort_reason = reason; }
          sim::CountFault("client aborted by application");
          auto st = c.client->Abort(reason);
          bool a = c.client->IsAborted(), d = c.client->IsCompletedSuccessfully();
          sim::NoPreempt np;
          CHK("S07", st.ok(), "Abort failed");
          CHK("S07", a || d, "client still active after Abort returned");
        }
      });
    }
  }
  int budget = 30 + Choose(kWork, 170);
  // ------------------------------------------------ faulty phase
  for (int step = 0; step < budget && s.m.state < Model::DONE; step++) {
    if (fault_rate > 0 && Flip(kFault, fault_rate)) {
      int c = Choose(kFault, s.n);
      Cl& cl = s.C(c);
      switch (Choose(kFault, 10)) {
        case 0: CrashClient(s, c); break;
        case 1: CrashClient(s, c); ServerAbortClient(s, c, ClientAbortReason::CONNECTION_DROPPED); break;
        case 2: if (!cl.out.empty()) { cl.out.pop_front(); cl.lost = true; sim::CountFault("message to server lost"); } break;
        case 3: if (!cl.in.empty()) { cl.in.pop_front(); cl.lost = true; sim::CountFault("message to client lost"); } break;
        case 4: if (dup && !cl.out.empty()) { cl.out.push_back(cl.out.front()); sim::CountFault("message to server duplicated"); } break;
        case 5: if (dup && !cl.in.empty()) { cl.in.push_back(cl.in.front()); cl.lost = true; sim::CountFault("message to client duplicated"); } break;
        case 6: if (dup && cl.in.size() > 1) { std::swap(cl.in[0], cl.in[1]); cl.lost = true; sim::CountFault("messages to client reordered"); }
                else if (dup && cl.out.size() > 1) { std::swap(cl.out[0], cl.out[1]); sim::CountFault("messages to server reordered"); } break;
        case 7: {
          static const ClientAbortReason why[] = {ClientAbortReason::INVALID_MESSAGE, ClientAbortReason::CONNECTION_DROPPED, ClientAbortReason::NOT_CHECKED_IN};
          cl.lost = true;
          sim::CountFault("client dropped by server");
          ServerAbortClient(s, c, why[Choose(kFault, 3)]);
          break;
        }
        case 8: if (ClientUsable(s, c)) {
          cl.app_aborted = true; sim::CountFault("client aborted by application");
          auto st = cl.client->Abort("leaving");
          CHK("S07", st.ok() && cl.client->IsAborted(), "client abort failed");
          CHK("S07", cl.sent[kCAbort] == 1, "client did not tell the server that it left");
          } break;
        case 9:
          if (damage) {
            if (!cl.out.empty() && (cl.out.front().t.detectable || cl.out.front().t.undetectable)) {
              // damaged once already
            } else if (!cl.out.empty()) {
              auto t = Damage(s, cl.out.front().m, c);
              cl.out.front().t.detectable |= t.detectable;
              cl.out.front().t.undetectable |= t.undetectable;
            } else {
              // Someone else's message under this client's identity, or noise.
              OutMsg o;
              o.author = -1;
              int from = PickNonEmpty(s, true);
              if (from >= 0 && Choose(kFault, 2)) { o = s.C(from).out.front(); if (from != c) o.t.undetectable = true; }
              else o.t.detectable = true;
              sim::CountFault("forged message");
              cl.out.push_back(o);
            }
          } else if (allow_server_abort && Choose(kFault, 3) == 0 && s.m.state < Model::DONE) {
            AbortServer(s);
          } else if (In("S05 S04")) {
            uint32_t bad = s.n + Choose(kFault, 3);
            auto msg = std::make_unique<C2S>();
            msg->mutable_abort();
            auto r = s.server->ReceiveMessage(bad, std::move(msg));
            sim::NoPreempt np;
            sim::CountFault("unknown sender");
            CHK("S04 S05", !r.ok(), "a message from an unknown client was accepted");
            CheckServer(s, "unknown sender");
          }
          break;
      }
      continue;
    }
    switch (Choose(kWork, 8)) {
      case 0: case 1: case 2: {
        int c = PickNonEmpty(s, true);
        if (c >= 0) { OutMsg o = s.C(c).out.front(); s.C(c).out.pop_front(); DeliverToServer(s, c, std::move(o)); }
        break;
      }
      case 3: case 4: case 5: {
        int c = PickNonEmpty(s, false);
        if (c >= 0) DeliverToClient(s, c);
        break;
      }
      case 6:
        if (late_inputs || Choose(kWork, 4) == 1) {
          int c = Choose(kWork, s.n);
          if (s.C(c).accepted == 0 || P() == "S07") DoSetInput(s, c);
        }
        if (s.m.state == Model::PRNG || s.m.state == Model::R2) RegisterCallback(s);
        sim::Yield("driver");
        break;
      case 7:
        if (allow_server_abort && P() == "S06" && s.m.state >= Model::R2 && Choose(kFault, 8) == 7)
          AbortServer(s);
        else
          TryProceed(s);
        break;
    }
  }
  // ------------------------------------------------ faults stop: progress
  sim::tuning().p_time = 0;
  s.quiet = true;
  for (auto& t : app) t.join();
  for (int i = 0; i < s.n; i++)
    if (!s.C(i).crashed && s.C(i).accepted == 0 && ClientUsable(s, i)) DoSetInput(s, i);
  int rounds = 0;
  for (; rounds < 12 && s.m.state < Model::DONE; rounds++) {
    bool any = true;
    int guard = 0;
    while (any && guard++ < 1000) {
      any = false;
      for (int i = 0; i < s.n; i++) {
        while (!s.C(i).out.empty()) {
          OutMsg o = s.C(i).out.front(); s.C(i).out.pop_front();
          DeliverToServer(s, i, std::move(o)); any = true;
        }
        while (!s.C(i).in.empty() && !s.C(i).crashed) { DeliverToClient(s, i); any = true; }
      }
    }
    if (s.m.state >= Model::DONE) break;
    if (s.m.state == Model::PRNG || (s.m.state == Model::R2 && s.async)) {
      RegisterCallback(s);
      s.par->WaitUntilIdle();
      s.seq->WaitUntilIdle();
      sim::NoPreempt np;
      CHK("S06 S03", !s.cb_registered, "asynchronous work ended without its callback");
    }
    if (s.m.state < Model::PRNG && !s.m.Ready()) {
      // Whoever has not answered by now will not: connections time out.
      for (int i = 0; i < s.n && !s.m.Ready(); i++)
        if (!s.m.dead[i] && s.m.got[i] != s.m.state + 1) {
          s.C(i).lost = true;
          ServerAbortClient(s, i, ClientAbortReason::CONNECTION_DROPPED);
        }
    }
    bool want = s.m.state == Model::PRNG || s.m.Ready();
    int before = s.m.state;
    TryProceed(s);
    if (want)
      CHK("S03 S06", s.m.state != before, "server is stuck in state %d after faults stopped", before);
  }
  CHK("S03 S06", s.m.state >= Model::DONE, "server did not finish within %d rounds", rounds);
  // Deliver what is still under way, then compare the clients' views.
  for (int i = 0; i < s.n; i++) {
    while (!s.C(i).in.empty() && !s.C(i).crashed) DeliverToClient(s, i);
    Cl& c = s.C(i);
    if (c.crashed || c.lost) continue;
    bool a = c.client->IsAborted(), d = c.client->IsCompletedSuccessfully();
    sim::NoPreempt np;
    CHK("S03", a || d || (s.m.dead[i] && c.sent[kCAbort] == 0 && false),
        "client %d was left waiting after the server finished", i);
    if (s.m.state == Model::DONE && s.m.masked[i] && !c.app_aborted && !s.forged && !damage)
      CHK("S03", d || !s.m.unmasked[i], "client whose part was complete ended aborted");
  }
  sim::Count(s.m.state == Model::DONE ? "sessions completed" : "sessions aborted");
  for (int i = 0; i < s.n; i++) {
    Cl& c = s.C(i);
    if (c.client->IsAborted()) {
      auto e = c.client->ErrorMessage();
      CHK("S07", e.ok() && !e.value().empty(), "aborted client has no error message");
    } else {
      CHK("S07", !c.client->ErrorMessage().ok(), "client that did not abort reports an error");
    }
  }
  s.server.reset();
  s.par->WaitUntilIdle();
  s.seq->WaitUntilIdle();
  s.cl.clear();
}
}  // namespace

void SimRun() {
  std::clog.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);  // trace text is not looked at
  RunSession(P() == "S06" || P() == "S07" ? 6 : 7);
  sim::Finish();
}
