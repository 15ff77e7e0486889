// Confidential messages between devices, an untrusted intermediary and
// recipients, and the signed key tokens they exchange.
#include <string.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <tuple>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "fcp/protos/confidentialcompute/confidential_transform.pb.h"
#include "google/protobuf/struct.pb.h"
#include "openssl/hpke.h"
#include "sim.h"

const char* kRealComponents[] = {"fcp/confidentialcompute/crypto.cc", "fcp/confidentialcompute/cose.cc",
                                 "fcp/base/digest.cc", "BoringSSL", nullptr};
const char* kStubComponents[] = {"network and intermediary between the parties (simulated)",
                                 "CBOR library (minimal implementation of the used interface)",
                                 "entropy source", nullptr};

namespace {
using namespace fcp::confidential_compute;  // NOLINT
using sim::Choose;
using sim::kData;
using sim::kFault;
using sim::kNet;
using sim::kWork;
using absl::StatusCode;

std::string Rnd(size_t n) {
  std::string s(n, 0);
  for (auto& c : s) c = (char)Choose(kData, 256);
  return s;
}
std::string SomeBytes() {
  switch (Choose(kData, 5)) {
    case 0: return "";
    case 1: return Rnd(1 + Choose(kData, 40));
    case 2: return std::string(Choose(kData, 600), 'a');
    case 3: return Rnd(16);
    default: return Rnd(1 + Choose(kData, 200));
  }
}

// ---------------------------------------------------------------- X02
struct Blob {
  std::string ct, ct_aad, key, key_aad, enc, nonce;
  int to = 0;
  bool plain = false;
  std::tuple<std::string, std::string, std::string, std::string, std::string> Tuple() const {
    return {ct, ct_aad, key, key_aad, enc};
  }
};
struct Party {
  std::unique_ptr<MessageDecryptor> dec;
  std::unique_ptr<NonceChecker> checker;
  std::unique_ptr<NonceGenerator> gen;
  std::string token, x;
  uint32_t next = 0;
  std::map<std::tuple<std::string, std::string, std::string, std::string, std::string>, std::string> genuine;
};

std::string NonceOf(const std::string& session, uint32_t n) {
  std::string s = session;
  for (int i = 0; i < 4; ++i) s += (char)(n >> (8 * i));
  return s;
}

void Damage(Blob& b, const std::vector<Blob>& all) {
  std::string* f[] = {&b.ct, &b.ct_aad, &b.key, &b.key_aad, &b.enc, &b.nonce};
  int i = Choose(kFault, 6);
  std::string& s = *f[i];
  const Blob& o = all[Choose(kFault, all.size())];
  const std::string* g[] = {&o.ct, &o.ct_aad, &o.key, &o.key_aad, &o.enc, &o.nonce};
  switch (Choose(kFault, 6)) {
    case 0:
      if (!s.empty()) s[Choose(kFault, s.size())] ^= 1 << Choose(kFault, 8);
      sim::CountFault("bit_flip");
      break;
    case 1:
      if (!s.empty()) s.resize(Choose(kFault, s.size()));
      sim::CountFault("truncated");
      break;
    case 2: s += (char)Choose(kFault, 256); sim::CountFault("extended"); break;
    case 3: s = *g[i]; sim::CountFault("swapped_field"); break;
    case 4: s.clear(); sim::CountFault("emptied"); break;
    default:
      b.ct = o.ct;
      b.ct_aad = o.ct_aad;
      sim::CountFault("swapped_message");
      break;
  }
}

void RunX02() {
  sim::SwarmTuning(sim::ConfigChoose(2) == 0);
  int np = 1 + Choose(kWork, 2);
  std::vector<Party> ps(np);
  for (auto& p : ps) {
    google::protobuf::Struct cfg;
    (*cfg.mutable_fields())["id"].set_number_value(Choose(kData, 100));
    p.dec = std::make_unique<MessageDecryptor>(cfg);
    auto t = p.dec->GetPublicKey([](absl::string_view) -> absl::StatusOr<std::string> {
      return absl::AbortedError("signer down"); }, -7);
    SIM_CHECK("X02", t.status().code() == StatusCode::kAborted, "a token without a signature");
    std::string signed_data;
    t = p.dec->GetPublicKey([&](absl::string_view d) -> absl::StatusOr<std::string> {
      signed_data = std::string(d);
      return "signed"; }, -7);
    SIM_CHECK("X02", t.ok(), "no public key");
    p.token = *t;
    auto c = OkpCwt::Decode(p.token);
    SIM_CHECK("X02", c.ok() && c->public_key, "public key token cannot be decoded");
    SIM_CHECK("X02", c->signature == "signed" && c->algorithm == -7 &&
                         c->config_properties.SerializeAsString() == cfg.SerializeAsString(),
              "a public key token with another signature, algorithm or configuration");
    auto sd = OkpCwt::GetSigStructureForVerifying(p.token, "");
    SIM_CHECK("X02", sd.ok() && *sd == signed_data, "something else than the token was signed");
    p.x = c->public_key->x;
    p.checker = std::make_unique<NonceChecker>();
    SIM_CHECK("X02", p.checker->GetSessionNonce().size() == 16, "session nonce of another size");
    p.gen = std::make_unique<NonceGenerator>(p.checker->GetSessionNonce());
  }
  for (int i = 1; i < np; ++i)
    SIM_CHECK("X02", ps[i].checker->GetSessionNonce() != ps[0].checker->GetSessionNonce() && ps[i].x != ps[0].x,
              "two recipients share a session nonce or a key");
  // The intermediary, to which devices encrypt when keys are to be rewrapped.
  bssl::ScopedEVP_HPKE_KEY lkey;
  EVP_HPKE_KEY_generate(lkey.get(), EVP_hpke_x25519_hkdf_sha256());
  OkpCwt lc;
  lc.algorithm = -7;
  lc.public_key = OkpKey{.key_id = "l", .algorithm = crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm,
                         .curve = crypto_internal::kX25519, .x = std::string(32, 0)};
  size_t len = 0;
  EVP_HPKE_KEY_public_key(lkey.get(), (uint8_t*)&lc.public_key->x[0], &len, 32);
  std::string ltoken = *lc.Encode();

  MessageEncryptor enc;  // one for all devices
  int nmsg = 1 + Choose(kWork, 6), nth = 1 + Choose(kWork, 3);
  std::vector<std::string> plain(nmsg), aad(nmsg);
  std::vector<int> to(nmsg);
  std::vector<bool> via(nmsg);
  std::vector<absl::StatusOr<EncryptMessageResult>> out(nmsg, absl::UnknownError(""));
  for (int i = 0; i < nmsg; ++i) {
    plain[i] = i && Choose(kData, 3) == 0 ? plain[0] : SomeBytes();
    aad[i] = i && Choose(kData, 3) == 0 ? aad[0] : SomeBytes();
    to[i] = Choose(kWork, np);
    via[i] = Choose(kWork, 2);
  }
  {
    std::vector<std::thread> th;
    for (int t = 0; t < nth; ++t)
      th.emplace_back([&, t] {
        for (int i = t; i < nmsg; i += nth) {
          auto r = enc.Encrypt(plain[i], via[i] ? ltoken : ps[to[i]].token, aad[i]);
          sim::NoPreempt np2;
          out[i] = std::move(r);
        }
      });
    for (auto& t : th) t.join();
  }
  // Keys are fresh for every message.
  std::set<std::string> seen;
  std::vector<Blob> sent;
  for (int i = 0; i < nmsg; ++i) {
    SIM_CHECK("X02", out[i].ok(), "encryption failed with %d", (int)out[i].status().code());
    auto& r = *out[i];
    SIM_CHECK("X02", seen.insert(r.encapped_key).second, "an encapsulated key was used twice");
    SIM_CHECK("X02", seen.insert(r.ciphertext).second, "the same ciphertext came out twice");
    if (plain[i].size() >= 8)
      SIM_CHECK("X02", r.ciphertext.find(plain[i]) == std::string::npos, "the ciphertext shows the message");
    Blob b;
    b.ct = r.ciphertext;
    b.ct_aad = aad[i];
    b.to = to[i];
    Party& p = ps[to[i]];
    b.key = r.encrypted_symmetric_key;
    b.enc = r.encapped_key;
    b.key_aad = aad[i];
    auto n = p.gen->GetNextBlobNonce();
    SIM_CHECK("X02", n.ok(), "no nonce");
    b.nonce = *n;
    if (via[i]) {
      auto k = crypto_internal::UnwrapSymmetricKey(lkey.get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(),
                                                   b.key, b.enc, aad[i]);
      SIM_CHECK("X02", k.ok(), "the intermediary cannot unwrap the key");
      // Not with other associated data.
      auto k2 = crypto_internal::UnwrapSymmetricKey(lkey.get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(),
                                                    b.key, b.enc, aad[i] + "x");
      SIM_CHECK("X02", k2.status().code() == StatusCode::kInvalidArgument, "a key was unwrapped for other data");
      b.key_aad = "rewrapped" + b.nonce;
      auto w = crypto_internal::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(),
                                                 EVP_hpke_aes_128_gcm(), *k, p.x, b.key_aad);
      SIM_CHECK("X02", w.ok(), "the intermediary cannot wrap the key");
      // The right key under the name of another algorithm is of no use.
      auto sk = SymmetricKey::Decode(*k);
      SIM_CHECK("X02", sk.ok(), "the wrapped key cannot be decoded");
      sk->algorithm = *sk->algorithm + 1;
      if (Choose(kFault, 2)) sk->algorithm.reset();
      auto w2 = crypto_internal::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(),
                                                  EVP_hpke_aes_128_gcm(), *sk->Encode(), p.x, b.key_aad);
      SIM_CHECK("X02", w2.ok(), "the intermediary cannot wrap the key");
      SIM_CHECK("X02", !p.dec->Decrypt(b.ct, b.ct_aad, w2->encrypted_symmetric_key, b.key_aad, w2->encapped_key).ok(),
                "a key for another algorithm was used");
      b.key = w->encrypted_symmetric_key;
      b.enc = w->encapped_key;
    }
    p.genuine[b.Tuple()] = plain[i];
    sent.push_back(b);
  }
  // The network: loses, repeats, reorders, damages and misdelivers.
  std::vector<Blob> wire = sent;
  double p_bad = sim::ConfigChoose(3) ? sim::ConfigUniform() * 0.7 : 0;
  double p_dup = sim::ConfigChoose(3) == 0 ? 0.3 : 0, p_loss = sim::ConfigChoose(3) == 0 ? 0.2 : 0;
  bool reorder = sim::ConfigChoose(3) == 0;
  std::vector<Blob> in;
  for (auto& b : sent) {
    if (p_loss && sim::Flip(kNet, p_loss)) {
      sim::CountFault("lost");
      continue;
    }
    int copies = p_dup && sim::Flip(kNet, p_dup) ? 2 : 1;
    if (copies > 1) sim::CountFault("duplicated");
    for (int c = 0; c < copies; ++c) {
      Blob x = b;
      if (p_bad && sim::Flip(kFault, p_bad)) {
        Damage(x, sent);
        if (Choose(kFault, 4) == 3) Damage(x, sent);
      }
      if (p_bad && sim::Flip(kFault, p_bad * 0.2)) {
        x.to = Choose(kFault, np);
        sim::CountFault("misdelivered");
      }
      if (p_bad && sim::Flip(kFault, 0.05)) {
        Blob u;
        u.plain = true;
        u.to = Choose(kFault, np);
        in.push_back(u);
      }
      in.push_back(x);
    }
  }
  if (reorder && in.size() > 1) {
    sim::CountFault("reordered");
    for (size_t i = in.size() - 1; i > 0; --i) std::swap(in[i], in[Choose(kNet, i + 1)]);
  }
  // Decryptors are shared by threads; the nonce check is one session's.
  auto deliver = [&](const Blob& b) {
    Party& p = ps[b.to];
    fcp::confidentialcompute::BlobMetadata m;
    if (b.plain) m.mutable_unencrypted();
    else m.mutable_hpke_plus_aead_data()->mutable_rewrapped_symmetric_key_associated_data()->set_nonce(b.nonce);
    absl::Status s = p.checker->CheckBlobNonce(m);
    bool want = b.plain || b.nonce == NonceOf(p.checker->GetSessionNonce(), p.next);
    SIM_CHECK("X02", s.code() == (want ? StatusCode::kOk : StatusCode::kPermissionDenied),
              "nonce of message %u %s", p.next, s.ok() ? "accepted although it is not the next one" : "refused");
    if (want && !b.plain) p.next++;
    sim::Count(want ? "nonce_ok" : "nonce_refused");
  };
  auto open = [&](const Blob& b) {
    if (b.plain) return;
    Party& p = ps[b.to];
    auto r = p.dec->Decrypt(b.ct, b.ct_aad, b.key, b.key_aad, b.enc);
    sim::NoPreempt np2;
    auto it = p.genuine.find(b.Tuple());
    if (it == p.genuine.end()) {
      SIM_CHECK("X02", !r.ok(), "a message was accepted that nobody sent to this recipient in this form");
      SIM_CHECK("X02", r.status().code() == StatusCode::kInvalidArgument, "a bad message gave code %d",
                (int)r.status().code());
      sim::Count("refused");
    } else {
      SIM_CHECK("X02", r.ok(), "a genuine message was refused with %d", (int)r.status().code());
      SIM_CHECK("X02", *r == it->second, "a message was decrypted to something else");
      sim::Count("decrypted");
    }
  };
  for (auto& b : in) deliver(b);
  std::vector<std::thread> th;
  for (int t = 0; t < nth; ++t)
    th.emplace_back([&, t] {
      for (size_t i = t; i < in.size(); i += nth) open(in[i]);
    });
  for (auto& t : th) t.join();
  // Whoever wraps something else than a good key gets nowhere.
  {
    const Blob& b = sent[Choose(kFault, sent.size())];
    Party& p = ps[b.to];
    SymmetricKey sk;
    int k = Choose(kFault, 5);
    sk.algorithm = k == 0 ? 1 : crypto_internal::kAeadAes128GcmSivFixedNonce;
    sk.k = Rnd(k == 1 ? Choose(kData, 2) ? 15 : 17 : k == 2 ? 32 : 16);
    std::string raw = k == 4 ? Rnd(Choose(kData, 30)) : *sk.Encode();
    auto w = crypto_internal::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(),
                                               EVP_hpke_aes_128_gcm(), raw, p.x, b.key_aad);
    SIM_CHECK("X02", w.ok(), "the intermediary cannot wrap the key");
    auto r = p.dec->Decrypt(b.ct, b.ct_aad, w->encrypted_symmetric_key, b.key_aad, w->encapped_key);
    SIM_CHECK("X02", !r.ok(), "a message was decrypted with a forged key");
    sim::CountFault("forged_key");
  }
  // Nothing goes to a key that is not usable.
  OkpCwt bad = lc;
  int k = Choose(kWork, 5);
  if (k == 0) bad.public_key->algorithm = -65538;
  if (k == 1) bad.public_key->curve = 5;
  if (k == 2) bad.public_key.reset();
  if (k == 3) bad.public_key->x = Rnd(Choose(kData, 2) ? 31 : 33);
  if (k == 4) bad.public_key->curve.reset();
  auto r = enc.Encrypt("data", *bad.Encode(), "");
  SIM_CHECK("X02", r.status().code() == StatusCode::kInvalidArgument, "encryption to an unusable key gave %d",
            (int)r.status().code());
  r = enc.Encrypt("data", Rnd(Choose(kData, 60)), "");
  SIM_CHECK("X02", r.status().code() == StatusCode::kInvalidArgument, "encryption to no key gave %d",
            (int)r.status().code());
}

// ---------------------------------------------------------------- X03
// A CBOR value tree, its encoding, and what a token reader must make of it.
struct Node {
  enum T { kInt, kBytes, kText, kArray, kMap, kBool, kNull } t = kInt;
  int64_t i = 0;
  std::string s;
  std::vector<Node> c;  // array elements; map: key, value, key, value, ...
  bool tail = false;    // followed by a stray byte
};
Node Int(int64_t v) { Node n; n.i = v; return n; }
Node Bytes(std::string s) { Node n; n.t = Node::kBytes; n.s = std::move(s); return n; }
Node Text(std::string s) { Node n; n.t = Node::kText; n.s = std::move(s); return n; }
Node Arr(std::vector<Node> c) { Node n; n.t = Node::kArray; n.c = std::move(c); return n; }
Node MapOf(std::vector<Node> c) { Node n; n.t = Node::kMap; n.c = std::move(c); return n; }
void Head(std::string* o, int major, uint64_t v) {
  int bytes = v < 24 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v <= 0xffffffffull ? 4 : 8;
  int info = bytes == 0 ? (int)v : bytes == 1 ? 24 : bytes == 2 ? 25 : bytes == 4 ? 26 : 27;
  *o += (char)(major << 5 | info);
  for (int i = bytes - 1; i >= 0; --i) *o += (char)(v >> (8 * i));
}
void Enc(std::string* o, const Node& n) {
  switch (n.t) {
    case Node::kInt:
      if (n.i >= 0) Head(o, 0, n.i);
      else Head(o, 1, ~(uint64_t)n.i);
      break;
    case Node::kBytes: Head(o, 2, n.s.size()); *o += n.s; break;
    case Node::kText: Head(o, 3, n.s.size()); *o += n.s; break;
    case Node::kArray:
      Head(o, 4, n.c.size());
      for (auto& x : n.c) Enc(o, x);
      break;
    case Node::kMap:
      Head(o, 5, n.c.size() / 2);
      for (auto& x : n.c) Enc(o, x);
      break;
    case Node::kBool: *o += (char)(n.i ? 0xf5 : 0xf4); break;
    case Node::kNull: *o += (char)0xf6; break;
  }
}
std::string Enc(const Node& n) {
  std::string o;
  Enc(&o, n);
  if (n.tail) o += '\x01';
  return o;
}

struct Key {  // expected
  std::string kid, x;
  std::optional<int64_t> alg, crv;
};
struct Tok {
  std::optional<int64_t> alg, iat, exp;
  std::optional<Key> key;
  google::protobuf::Struct cfg;
  bool has_cfg = false;
  std::string sig;
};
int64_t SomeInt() {
  switch (Choose(kData, 6)) {
    case 0: return Choose(kData, 24);
    case 1: return -(int64_t)Choose(kData, 100000);
    case 2: return 1700000000 + Choose(kData, 1000000);
    case 3: return (int64_t)Choose(kData, 70000);
    case 4: return -65536 - (int64_t)Choose(kData, 3);
    default: return (int64_t)(sim::Rand64() >> (1 + Choose(kData, 40)));
  }
}

// Each embedded map is kept as a tree so that damage can reach it.
struct Parts {
  Node hdr, unprot, key, payload, sig;
  bool sign1 = true, has_key = false, oak = false;
  Node sig_hdr, sig_unprot;
  int extra_sigs = 0;
  std::string cfg;
};
bool HasInt(const Node& n) { return n.t == Node::kInt; }

// The reference reader; nullopt when the token has to be refused.
std::optional<Key> RefKey(const Node& n) {
  if (n.t != Node::kMap || n.tail) return {};
  Key k;
  std::optional<int64_t> kty;
  for (size_t i = 0; i + 1 < n.c.size(); i += 2) {
    const Node &a = n.c[i], &v = n.c[i + 1];
    if (a.t != Node::kInt) continue;
    if (a.i == 1 || a.i == 3 || a.i == -1) {
      if (v.t != Node::kInt) return {};
      (a.i == 1 ? kty : a.i == 3 ? k.alg : k.crv) = v.i;
    } else if (a.i == 2 || a.i == -2) {
      if (v.t != Node::kBytes) return {};
      (a.i == 2 ? k.kid : k.x) = v.s;
    }
  }
  if (!kty || *kty != 1) return {};
  return k;
}
bool RefHeader(const Node& n, Tok* t) {
  if (n.t != Node::kMap || n.tail) return false;
  for (size_t i = 0; i + 1 < n.c.size(); i += 2) {
    if (n.c[i].t != Node::kInt || n.c[i].i != 1) continue;
    if (n.c[i + 1].t != Node::kInt) return false;
    t->alg = n.c[i + 1].i;
  }
  return true;
}

Node Junk() {
  switch (Choose(kFault, 8)) {
    case 0: return Int(SomeInt());
    case 1: return Bytes(Rnd(Choose(kData, 8)));
    case 2: return Text("abc");
    case 3: return Arr({});
    case 4: return MapOf({});
    case 5: { Node n; n.t = Node::kBool; n.i = 1; return n; }
    case 6: { Node n; n.t = Node::kNull; return n; }
    default: return Arr({Int(1), Bytes("x"), Arr({Text("t")})});
  }
}
void Mutate(Node* n) {
  sim::CountFault("malformed_structure");
  if ((n->t == Node::kArray || n->t == Node::kMap) && !n->c.empty() && Choose(kFault, 3)) {
    int k = Choose(kFault, 4);
    size_t i = Choose(kFault, n->c.size());
    if (k == 0) {
      Mutate(&n->c[i]);
    } else if (k == 1) {
      if (n->t == Node::kMap) i &= ~size_t{1};
      n->c.erase(n->c.begin() + i, n->c.begin() + i + (n->t == Node::kMap ? 2 : 1));
    } else if (k == 2) {
      n->c[i] = Junk();
    } else {
      n->c.push_back(Junk());
      if (n->t == Node::kMap) n->c.push_back(Junk());
    }
    return;
  }
  *n = Junk();
}

google::protobuf::Struct SomeConfig() {
  google::protobuf::Struct s;
  int n = Choose(kData, 3);
  for (int i = 0; i < n; ++i) {
    auto& v = (*s.mutable_fields())["k" + std::to_string(i)];
    if (Choose(kData, 2)) v.set_string_value("v" + std::to_string(Choose(kData, 10)));
    else v.set_number_value(Choose(kData, 10));
  }
  return s;
}

void Compare(const OkpCwt& c, const Tok& t, const char* what) {
  auto sec = [](const std::optional<absl::Time>& x) {
    return x ? std::optional<int64_t>(absl::ToUnixSeconds(*x)) : std::nullopt;
  };
  SIM_CHECK("X03", c.algorithm == t.alg, "%s: another algorithm", what);
  SIM_CHECK("X03", sec(c.issued_at) == t.iat, "%s: another issue time", what);
  SIM_CHECK("X03", sec(c.expiration_time) == t.exp, "%s: another expiry time", what);
  SIM_CHECK("X03", c.signature == t.sig, "%s: another signature", what);
  SIM_CHECK("X03", c.public_key.has_value() == t.key.has_value(), "%s: key appeared or vanished", what);
  if (t.key)
    SIM_CHECK("X03", c.public_key->key_id == t.key->kid && c.public_key->x == t.key->x &&
                         c.public_key->algorithm == t.key->alg && c.public_key->curve == t.key->crv,
              "%s: another key", what);
  std::map<std::string, std::string> a, b;
  for (auto& [k, v] : c.config_properties.fields()) a[k] = v.SerializeAsString();
  for (auto& [k, v] : t.cfg.fields()) b[k] = v.SerializeAsString();
  SIM_CHECK("X03", a == b, "%s: other configuration", what);
}

void RunX03() {
  google::protobuf::SetLogHandler(nullptr);
  sim::SwarmTuning(false);
  // A token, as a signer builds it.
  OkpCwt c;
  Tok t;
  if (Choose(kData, 4)) c.algorithm = t.alg = SomeInt();
  if (Choose(kData, 2)) {
    t.iat = SomeInt() % (1ll << 40);
    c.issued_at = absl::FromUnixSeconds(*t.iat);
  }
  if (Choose(kData, 2)) {
    t.exp = SomeInt() % (1ll << 40);
    c.expiration_time = absl::FromUnixSeconds(*t.exp);
  }
  if (Choose(kData, 4)) {
    OkpKey k;
    t.key.emplace();
    if (Choose(kData, 2)) k.key_id = t.key->kid = Rnd(1 + Choose(kData, 300));
    if (Choose(kData, 2)) k.algorithm = t.key->alg = SomeInt();
    if (Choose(kData, 2)) k.curve = t.key->crv = SomeInt();
    if (Choose(kData, 2)) k.x = t.key->x = Rnd(32);
    c.public_key = k;
  }
  t.cfg = SomeConfig();
  c.config_properties = t.cfg;
  std::string aad = SomeBytes();
  auto signer = EcdsaP256R1Signer::Create();
  auto s1 = c.BuildSigStructureForSigning(aad);
  SIM_CHECK("X03", s1.ok(), "no signature structure");
  c.signature = t.sig = signer.Sign(*s1);
  SIM_CHECK("X03", t.sig.size() == 64, "a signature of another size");
  auto enc = c.Encode();
  SIM_CHECK("X03", enc.ok(), "token cannot be encoded");
  auto d = OkpCwt::Decode(*enc);
  SIM_CHECK("X03", d.ok(), "a token cannot be decoded");
  Compare(*d, t, "decoded token");
  auto s2 = OkpCwt::GetSigStructureForVerifying(*enc, aad);
  SIM_CHECK("X03", s2.ok() && *s2 == *s1, "the verified structure is not the signed one");
  auto ver = EcdsaP256R1SignatureVerifier::Create(signer.GetPublicKey());
  SIM_CHECK("X03", ver.ok(), "no verifier");
  SIM_CHECK("X03", ver->Verify(*s2, t.sig).ok(), "a good signature was refused");
  auto other = EcdsaP256R1SignatureVerifier::Create(EcdsaP256R1Signer::Create().GetPublicKey());
  auto bad = [&](absl::Status s, const char* what) {
    SIM_CHECK("X03", s.code() == StatusCode::kInvalidArgument, "%s: code %d", what, (int)s.code());
  };
  bad(other->Verify(*s2, t.sig), "signature checked with another key");
  bad(ver->Verify(*OkpCwt::GetSigStructureForVerifying(*enc, aad + "x"), t.sig), "signature over other context");
  std::string sg = t.sig;
  switch (Choose(kFault, 4)) {
    case 0: sg[Choose(kFault, 64)] ^= 1 << Choose(kFault, 8); break;
    case 1: sg.resize(Choose(kFault, 64)); break;
    case 2: sg += '\0'; break;
    default: sg = std::string(64, '\0');
  }
  bad(ver->Verify(*s2, sg), "damaged signature");
  std::string pk = signer.GetPublicKey();
  SIM_CHECK("X03", EcdsaP256R1SignatureVerifier::Create(pk.substr(0, Choose(kFault, pk.size())))
                           .status().code() == StatusCode::kInvalidArgument, "a cut-off key was accepted");

  // The token on its way: whatever verifies still says what was signed.
  std::string w = *enc;
  int flips = 1 + Choose(kFault, 3);
  for (int i = 0; i < flips; ++i) {
    switch (Choose(kFault, 4)) {
      case 0: w.resize(Choose(kFault, w.size() + 1)); break;
      case 1: w.insert(w.begin() + Choose(kFault, w.size() + 1), (char)Choose(kFault, 256)); break;
      default:
        if (!w.empty()) w[Choose(kFault, w.size())] ^= 1 << Choose(kFault, 8);
    }
  }
  sim::CountFault("damaged_token");
  auto dw = OkpCwt::Decode(w);
  auto sw = OkpCwt::GetSigStructureForVerifying(w, aad);
  if (!dw.ok()) bad(dw.status(), "damaged token");
  if (!sw.ok()) bad(sw.status(), "damaged token");
  if (dw.ok() && sw.ok() && ver->Verify(*sw, dw->signature).ok()) {
    Tok t2 = t;
    t2.sig = dw->signature;
    Compare(*dw, t2, "verified token");
    sim::Count("verified_after_damage");
  } else {
    sim::Count("refused_after_damage");
  }

  // Tokens of other makers: any structure, either kind of signature.
  Parts p;
  Tok e;
  p.hdr = MapOf({});
  if (Choose(kData, 3)) p.hdr.c = {Int(1), Int(SomeInt())};
  p.unprot = MapOf({});
  if (Choose(kData, 3) == 0) p.unprot.c = {Int(4), Bytes("kid")};
  Node keymap = MapOf({Int(1), Int(1), Int(3), Int(SomeInt()), Int(-1), Int(4), Int(-2), Bytes(Rnd(32))});
  if (Choose(kData, 3) == 0) keymap.c.insert(keymap.c.end(), {Text("note"), Int(4), Int(99), Text("more")});
  if (Choose(kData, 2)) keymap.c.insert(keymap.c.end(), {Int(2), Bytes(Rnd(5))});
  auto damage = [&](Node* n) {
    if (Choose(kFault, 8) == 7) Mutate(n);
    if (Choose(kFault, 16) == 15) n->tail = true;
  };
  damage(&keymap);
  Node payload = MapOf({});
  int64_t keyclaim = Choose(kData, 2) ? -65537 : -4670552;
  if (Choose(kData, 3)) payload.c.insert(payload.c.end(), {Int(keyclaim), Bytes(Enc(keymap))});
  bool has_key = !payload.c.empty();
  if (Choose(kData, 2)) payload.c.insert(payload.c.end(), {Int(6), Int(SomeInt() % (1ll << 40))});
  if (Choose(kData, 2)) payload.c.insert(payload.c.end(), {Int(4), Int(SomeInt() % (1ll << 40))});
  if (Choose(kData, 3) == 0) payload.c.insert(payload.c.end(), {Text("x"), Bytes("y"), Int(1), Text("issuer")});
  google::protobuf::Struct cfg = SomeConfig();
  std::string cfgs = cfg.SerializeAsString();
  bool cfg_bad = Choose(kFault, 12) == 11;
  if (cfg_bad) cfgs = "\xff\xff\xff";
  bool has_cfg = Choose(kData, 2);
  if (has_cfg) payload.c.insert(payload.c.end(), {Int(-65538), Bytes(cfgs)});
  size_t entries = payload.c.size();
  bool payload_damaged = Choose(kFault, 8) == 7;
  if (payload_damaged) Mutate(&payload);
  if (Choose(kFault, 16) == 15) payload.tail = true;
  damage(&p.hdr);
  bool sign = Choose(kData, 2);
  Node sig_hdr = MapOf({Int(1), Int(SomeInt())});
  damage(&sig_hdr);
  std::string sig = Rnd(64);
  Node one = Arr({Bytes(Enc(sig_hdr)), MapOf({}), Bytes(sig)});
  Node sigs = Arr({one});
  if (Choose(kData, 3) == 0) sigs.c.push_back(Arr({Bytes(""), MapOf({}), Bytes("other")}));
  Node root = Arr({Bytes(Enc(p.hdr)), p.unprot, Bytes(Enc(payload)), sign ? sigs : Bytes(sig)});
  bool outer_damaged = Choose(kFault, 3) == 2;
  if (outer_damaged) Mutate(&root);
  std::string tok = Enc(root);
  int tail = Choose(kFault, 12) == 11;
  if (tail) tok += "\x01";
  (void)entries;

  // What has to come out, from the tree alone.
  bool ok = !tail, sig_ok = !tail;
  auto is = [](const Node& n, Node::T t) { return n.t == t; };
  const Node* h = nullptr;
  bool shape = is(root, Node::kArray) && root.c.size() == 4 && is(root.c[0], Node::kBytes) &&
               is(root.c[2], Node::kBytes);
  bool first = shape && is(root.c[3], Node::kArray) && !root.c[3].c.empty() && is(root.c[3].c[0], Node::kArray) &&
               root.c[3].c[0].c.size() == 3 && is(root.c[3].c[0].c[0], Node::kBytes);
  sig_ok = sig_ok && shape && (!is(root.c[3], Node::kArray) || first);
  ok = ok && shape && is(root.c[1], Node::kMap);
  if (ok) {
    if (is(root.c[3], Node::kBytes)) {
      e.sig = root.c[3].s;
      h = &root.c[0];
    } else {
      ok = first && is(root.c[3].c[0].c[2], Node::kBytes);
      if (ok) {
        e.sig = root.c[3].c[0].c[2].s;
        h = &root.c[3].c[0].c[0];
      }
    }
  }
  // The embedded maps are known by their encoding; damage elsewhere may put
  // other bytes in their place, which then are not a map.
  if (ok) {
    if (h->s == Enc(p.hdr)) ok = RefHeader(p.hdr, &e);
    else if (h->s == Enc(sig_hdr)) ok = RefHeader(sig_hdr, &e);
    else ok = false;
  }
  bool unsure = false;
  if (ok) {
    if (root.c[2].s != Enc(payload) || payload.t != Node::kMap || payload.tail) {
      ok = false;
    } else {
      for (size_t i = 0; ok && i + 1 < payload.c.size(); i += 2) {
        const Node &k = payload.c[i], &v = payload.c[i + 1];
        if (k.t != Node::kInt) continue;
        if (k.i == 4 || k.i == 6) {
          if (v.t != Node::kInt) ok = false;
          else (k.i == 4 ? e.exp : e.iat) = v.i;
          if (v.t == Node::kInt && (v.i > (1ll << 40) || v.i < -(1ll << 40))) unsure = true;
        } else if (k.i == -65537 || k.i == -4670552) {
          if (v.t != Node::kBytes || v.s != Enc(keymap)) ok = false;
          else if (auto rk = RefKey(keymap)) e.key = *rk;
          else ok = false;
        } else if (k.i == -65538) {
          if (v.t != Node::kBytes) ok = false;
          else if (v.s == cfgs && !cfg_bad) e.cfg = cfg;
          else if (cfg_bad && v.s == cfgs) ok = false;
          else unsure = true;
        }
      }
    }
  }
  (void)has_key;
  (void)has_cfg;
  auto r = OkpCwt::Decode(tok);
  auto rs = OkpCwt::GetSigStructureForVerifying(tok, aad);
  if (!r.ok()) bad(r.status(), "foreign token");
  if (!rs.ok()) bad(rs.status(), "foreign token");
  if (!unsure) {
    SIM_CHECK("X03", r.ok() == ok, ok ? "a well-formed token was refused" : "a malformed token was accepted");
    if (ok) Compare(*r, e, "foreign token");
  }
  SIM_CHECK("X03", rs.ok() == sig_ok, sig_ok ? "no signature structure for a well-formed token"
                                             : "a signature structure for a malformed token");
  if (sig_ok) {
    Node want = Arr({Text(first ? "Signature" : "Signature1"), root.c[0]});
    if (first) want.c.push_back(root.c[3].c[0].c[0]);
    want.c.push_back(Bytes(aad));
    want.c.push_back(root.c[2]);
    SIM_CHECK("X03", *rs == Enc(want), "another structure than the one to be signed");
  }
  sim::Count(ok ? "foreign_ok" : "foreign_refused");
  // Keys on their own.
  auto k1 = OkpKey::Decode(Enc(keymap));
  auto rk = RefKey(keymap);
  SIM_CHECK("X03", k1.ok() == rk.has_value(), "key accepted or refused wrongly");
  if (rk) SIM_CHECK("X03", k1->x == rk->x && k1->key_id == rk->kid && k1->algorithm == rk->alg && k1->curve == rk->crv,
                    "another key");
  auto k2 = SymmetricKey::Decode(Enc(keymap));
  if (rk) SIM_CHECK("X03", !k2.ok(), "a public key was taken for a symmetric one");
  SymmetricKey sk;
  sk.k = Rnd(1 + Choose(kData, 40));
  if (Choose(kData, 2)) sk.algorithm = SomeInt();
  auto back = SymmetricKey::Decode(*sk.Encode());
  SIM_CHECK("X03", back.ok() && back->k == sk.k && back->algorithm == sk.algorithm, "symmetric key changed");
  SIM_CHECK("X03", !OkpKey::Decode(*sk.Encode()).ok(), "a symmetric key was taken for a public one");
}
}  // namespace

void SimRun() {
  std::string p = sim::Property();
  if (p == "X02") RunX02();
  else if (p == "X03") RunX03();
  else sim::HarnessError("no such property");
}
