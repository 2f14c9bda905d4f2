// C16: QUIC packet protection: key schedule, AEADs, header protection.
#include "bnlx.hpp"
#include "quicref.hpp"
#include "fake/tls.hpp"
#include <openssl/aead.h>
#include <openssl/hkdf.h>
#include <bnl/quic/crypto.hpp>

using quic::crypto;
using qerr = quic::error;
const char *const RULE = "each case picks a cipher suite, derives initial secrets, packet protection keys and updated secrets from random connection ids, salts and secrets of edge-biased sizes, protects and unprotects packets of 0 to 2000 bytes in exactly sized, larger and too small destinations and in place, damages them in one bit, and makes header protection masks; the RFC 9001 vectors come first; non-trivial: every case; distinct by keys and texts";
void harness_init() { base::logger = nullptr; }

static crypto::aead A(int i) { return i == 0 ? crypto::aead::aes_128_gcm : i == 1 ? crypto::aead::aes_256_gcm : crypto::aead::chacha20_poly1305; }
static crypto::hash H(bool b) { return b ? crypto::hash::sha384 : crypto::hash::sha256; }

static bytes random_bytes(Rng &g, size_t n)
{
  bytes b;
  while (b.size() < n) b += (char) g.next();
  // Edges: runs of zeros or ones at either end.
  if (n && g.chance(1, 6)) {
    size_t k = std::min(n, (size_t) 1 + g.below(g.chance(1, 4) ? n : 4));
    b.replace(g.chance(1, 2) ? 0 : n - k, k, bytes(k, g.chance(1, 2) ? '\0' : '\xff'));
  }
  return b;
}

// A view over memory of exactly this size, so that one byte more is seen.
struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Exact(const bytes &b) : p(new uint8_t[b.size()]), n(b.size()) { std::copy(b.begin(), b.end(), (char *) p.get()); }
  explicit Exact(size_t k) : p(new uint8_t[k]), n(k) { memset(p.get(), 0xa5, k); }
  operator base::buffer_view() const { return base::buffer_view(p.get(), n); }
  base::buffer_view_mut mut() { return base::buffer_view_mut(p.get(), n); }
  bytes get() const { return bytes((char *) p.get(), n); }
};

#define VALUE(var, expr, what)                                                                     \
  auto var##_r = (expr);                                                                           \
  CHECK(var##_r, "derive-failed", "%s failed", what);                                              \
  auto var = std::move(var##_r).value()

static void same(const char *key, const char *what, const bytes &got, const bytes &want)
{
  CHECK(got == want, key, "%s is %s, expected %s", what, hex(got).c_str(), hex(want).c_str());
}

static void schedule(Ctx &c, ref::suite s, const bytes &dcid, const bytes &salt, const bytes &secret)
{
  crypto k(A(s.aead), H(s.sha384));
  CHECK(k.aead_overhead() == 16, "overhead", "aead_overhead() is %zu", k.aead_overhead());
  VALUE(is, k.initial_secret(Exact(dcid), Exact(salt)), "initial_secret");
  bytes want = ref::initial(s, dcid, salt);
  same("initial-secret", "the initial secret", str(is), want);
  VALUE(ci, k.client_initial_secret(is), "client_initial_secret");
  same("client-secret", "the client's initial secret", str(ci), ref::expand_label(s.sha384, want, "client in", s.hash()));
  VALUE(si, k.server_initial_secret(is), "server_initial_secret");
  same("server-secret", "the server's initial secret", str(si), ref::expand_label(s.sha384, want, "server in", s.hash()));
  for (const bytes &sec : { str(ci), str(si), secret }) {
    VALUE(key, k.packet_protection_key(Exact(sec)), "packet_protection_key");
    ref::keyset w = ref::protection(s, sec);
    same("key", "the key", str(key.data()), w.key);
    same("iv", "the IV", str(key.iv()), w.iv);
    same("hp", "the header protection key", str(key.hp()), w.hp);
    crypto::key moved = std::move(key);
    crypto::key_view view = moved;
    same("key", "the moved key", str(view.data()), w.key);
    same("iv", "the moved IV", str(view.iv()), w.iv);
    same("hp", "the moved header protection key", str(view.hp()), w.hp);
    c.stat("keys-derived");
  }
  bytes chain = secret;
  base::buffer b = buf(secret);
  for (int i = 0; i < 3; i++) {
    auto r = k.update_secret(b);
    if (chain.size() == 0) break;
    CHECK(r, "derive-failed", "update_secret failed for %zu bytes", chain.size());
    chain = ref::expand_label(s.sha384, chain, "traffic upd", chain.size());
    b = std::move(r).value();
    same("update", "the updated secret", str(b), chain);
    c.stat("secrets-updated");
  }
}

static void packets(Ctx &c, ref::suite s)
{
  Rng &g = c.rng;
  crypto k(A(s.aead), H(s.sha384));
  bytes key = random_bytes(g, s.key()), nonce = random_bytes(g, 12), ad = random_bytes(g, g.chance(1, 5) ? 0 : g.chance(1, 6) ? g.pick(std::vector<size_t>{ 127, 128, 255, 256, 257, 300, 512, 1200, 4096 }) : g.chance(1, 300) ? 65530 + g.below(300) : g.below(60));
  if (ad.size() > 255) c.stat("long-associated-data");
  bytes plain = random_bytes(g, g.chance(1, 6) ? 0 : g.chance(1, 4) ? g.below(40) : g.chance(1, 60) ? 65400 + g.below(300) : g.below(2000));
  bytes want = ref::seal(s.aead, key, nonce, ad, plain);
  {
    Exact d(plain.size() + 16);
    auto r = k.encrypt(d.mut(), Exact(plain), Exact(key), Exact(nonce), Exact(ad));
    CHECK(r, "encrypt-failed", "encrypting %zu bytes failed", plain.size());
    same("ciphertext", "the ciphertext", d.get(), want);
    c.stat("packets-protected");
  }
  {
    size_t more = 1 + g.below(40);
    Exact d(plain.size() + 16 + more);
    auto r = k.encrypt(d.mut(), Exact(plain), Exact(key), Exact(nonce), Exact(ad));
    CHECK(r, "encrypt-failed", "encrypting %zu bytes into a larger destination failed", plain.size());
    same("ciphertext", "the ciphertext in a larger destination", d.get(), want + bytes(more, (char) 0xa5));
  }
  {
    // In place, as QUIC implementations do it.
    Exact d(plain + bytes(16, 'x'));
    auto r = k.encrypt(d.mut(), base::buffer_view(d.p.get(), plain.size()), Exact(key), Exact(nonce), Exact(ad));
    CHECK(r, "encrypt-failed", "encrypting %zu bytes in place failed", plain.size());
    same("ciphertext", "the ciphertext made in place", d.get(), want);
    auto q = k.decrypt(base::buffer_view_mut(d.p.get(), d.n), base::buffer_view(d.p.get(), d.n), Exact(key), Exact(nonce), Exact(ad));
    CHECK(q, "decrypt-failed", "decrypting %zu bytes in place failed", plain.size());
    same("plaintext", "the plaintext made in place", d.get().substr(0, plain.size()), plain);
  }
  {
    Exact d(g.below(plain.size() + 16));
    auto r = k.encrypt(d.mut(), Exact(plain), Exact(key), Exact(nonce), Exact(ad));
    CHECK(!r && r.error() == qerr::crypto, "encrypt-small", "encrypting %zu bytes into %zu bytes did not fail", plain.size(), d.n);
    c.stat("small-destinations");
  }
  {
    size_t more = g.chance(1, 2) ? 0 : g.below(30);
    Exact d(plain.size() + more);
    auto r = k.decrypt(d.mut(), Exact(want), Exact(key), Exact(nonce), Exact(ad));
    CHECK(r, "decrypt-failed", "decrypting %zu bytes failed", want.size());
    same("plaintext", "the plaintext", d.get().substr(0, plain.size()), plain);
    c.stat("packets-unprotected");
  }
  if (!plain.empty()) {
    Exact d(g.below(plain.size()));
    auto r = k.decrypt(d.mut(), Exact(want), Exact(key), Exact(nonce), Exact(ad));
    CHECK(!r && r.error() == qerr::crypto, "decrypt-small", "decrypting %zu bytes into %zu bytes did not fail", want.size(), d.n);
    c.stat("small-destinations");
  }
  for (int i = 0; i < 4; i++) {
    bytes t = want, a = ad, n = nonce, ky = key;
    int what = (int) g.below(5);
    bytes &m = what == 0 ? a : what == 1 ? n : what == 2 ? ky : t;
    if (what == 4) t = t.substr(0, g.below(t.size()));
    else if (m.empty()) m += 'x';
    else m[g.below(m.size())] ^= (char) (1 << g.below(8));
    Exact d(plain.size());
    auto r = k.decrypt(d.mut(), Exact(t), Exact(ky), Exact(n), Exact(a));
    CHECK(!r && r.error() == qerr::crypto, "forgery", "a packet with %s changed was accepted", what == 0 ? "the associated data" : what == 1 ? "the nonce" : what == 2 ? "the key" : "the ciphertext");
    c.stat("forgeries-refused");
  }
  {
    // Keys and nonces of other sizes are errors.
    bytes bad = random_bytes(g, g.pick(std::vector<size_t>{ 0, 8, 15, 17, 24, 31, 33, 48, s.key() == 16 ? size_t(32) : size_t(16) }));
    bytes badn = random_bytes(g, g.pick(std::vector<size_t>{ 0, 1, 8, 11 }));
    Exact d(plain.size() + 16), e(plain.size() + 16);
    auto r = k.encrypt(d.mut(), Exact(plain), Exact(bad), Exact(nonce), Exact(ad));
    CHECK(!r && r.error() == qerr::crypto, "bad-key", "a key of %zu bytes was accepted", bad.size());
    auto q = k.decrypt(e.mut(), Exact(want), Exact(bad), Exact(nonce), Exact(ad));
    CHECK(!q && q.error() == qerr::crypto, "bad-key", "a key of %zu bytes was accepted", bad.size());
    auto n = k.encrypt(d.mut(), Exact(plain), Exact(key), Exact(badn), Exact(ad));
    CHECK(!n && n.error() == qerr::crypto, "bad-nonce", "a nonce of %zu bytes was accepted", badn.size());
  }
  c.observe(want);
}

static void header(Ctx &c, ref::suite s, const bytes &key, const bytes &sample)
{
  crypto k(A(s.aead), H(s.sha384));
  Exact d(16);
  auto r = k.hp_mask(d.mut(), Exact(key), Exact(sample));
  CHECK(r, "mask-failed", "hp_mask failed");
  same("mask", "the header protection mask", d.get().substr(0, 5), ref::mask(s.aead, key, sample));
  c.stat("masks");
}

// Each call into the cryptographic library fails once: that is reported.
template<typename F> static void faults(Ctx &c, const char *what, F &&f)
{
  struct Reset { ~Reset() { fake_crypto_countdown = 0; fake_crypto_failed = false; } } reset;
  for (int n = 1; n < 50; n++) {
    fake_crypto_failed = false;
    fake_crypto_countdown = n;
    auto r = f();
    if (!fake_crypto_failed) {
      CHECK(n > 1, "harness", "%s does not call the cryptographic library", what);
      CHECK(r, "derive-failed", "%s failed", what);
      return;
    }
    CHECK(!r && r.error() == qerr::crypto, "failure-lost", "call %d of %s into the cryptographic library failed but %s", n, what, r ? "nothing was reported" : "another error was reported");
    c.stat("failures-reported");
  }
}

static void failures(Ctx &c, ref::suite s)
{
  Rng &g = c.rng;
  crypto k(A(s.aead), H(s.sha384));
  bytes secret = random_bytes(g, s.hash()), salt = random_bytes(g, 20), key = random_bytes(g, s.key()), nonce = random_bytes(g, 12), ad = random_bytes(g, g.below(60)), plain = random_bytes(g, g.below(200));
  bytes sealed = ref::seal(s.aead, key, nonce, ad, plain);
  faults(c, "initial_secret", [&] { return k.initial_secret(Exact(secret), Exact(salt)); });
  faults(c, "update_secret", [&] { return k.update_secret(Exact(secret)); });
  faults(c, "client_initial_secret", [&] { return k.client_initial_secret(Exact(secret)); });
  faults(c, "server_initial_secret", [&] { return k.server_initial_secret(Exact(secret)); });
  faults(c, "packet_protection_key", [&] { return k.packet_protection_key(Exact(secret)); });
  faults(c, "encrypt", [&] {
    Exact d(plain.size() + 16);
    return k.encrypt(d.mut(), Exact(plain), Exact(key), Exact(nonce), Exact(ad));
  });
  faults(c, "decrypt", [&] {
    Exact d(plain.size());
    return k.decrypt(d.mut(), Exact(sealed), Exact(key), Exact(nonce), Exact(ad));
  });
  if (s.aead != 2) {
    bytes bad = random_bytes(g, g.pick(std::vector<size_t>{ 0, 8, 15, 17, 31, 33, 48 }));
    Exact d(16);
    auto r = k.hp_mask(d.mut(), Exact(bad), Exact(random_bytes(g, 16)));
    CHECK(!r && r.error() == qerr::crypto, "bad-key", "a header protection key of %zu bytes was accepted", bad.size());
  }
}

static void vectors(Ctx &c)
{
  using ref::unhex;
  ref::suite s{ 0, false };
  crypto k(A(0), H(false));
  VALUE(is, k.initial_secret(buf(unhex("8394c8f03e515708")), buf(unhex("38762cf7f55934b34d179ae6a4c80cadccbb7f0a"))), "initial_secret");
  same("initial-secret", "RFC 9001 A.1 initial_secret", str(is), unhex("7db5df06e7a69e432496adedb00851923595221596ae2ae9fb8115c1e9ed0a44"));
  VALUE(ci, k.client_initial_secret(is), "client_initial_secret");
  same("client-secret", "RFC 9001 A.1 client_initial_secret", str(ci), unhex("c00cf151ca5be075ed0ebfb5c80323c42d6b7db67881289af4008f1f6c357aea"));
  VALUE(key, k.packet_protection_key(ci), "packet_protection_key");
  same("key", "RFC 9001 A.1 key", str(key.data()), unhex("1f369613dd76d5467730efcbe3b1a22d"));
  same("iv", "RFC 9001 A.1 iv", str(key.iv()), unhex("fa044b2f42a3fd3b46fb255c"));
  same("hp", "RFC 9001 A.1 hp", str(key.hp()), unhex("9f50449e04a0e810283a1e9933adedd2"));
  Exact d(16);
  CHECK(k.hp_mask(d.mut(), key.hp(), buf(unhex("d1b1c98dd7689fb8ec11d242b123dc9b"))), "mask-failed", "hp_mask failed");
  same("mask", "RFC 9001 A.2 mask", d.get().substr(0, 5), unhex("437b9aec36"));
  crypto p(A(2), H(false));
  VALUE(ck, p.packet_protection_key(buf(unhex("9ac312a7f877468ebe69422748ad00a15443f18203a07d6060f688f30f21632b"))), "packet_protection_key");
  same("key", "RFC 9001 A.5 key", str(ck.data()), unhex("c6d98ff3441c3fe1b2182094f69caa2ed4b716b65488960a7a984979fb23e1c8"));
  same("iv", "RFC 9001 A.5 iv", str(ck.iv()), unhex("e0459b3474bdd0e44a41c144"));
  same("hp", "RFC 9001 A.5 hp", str(ck.hp()), unhex("25a282b9e82f06f21f488917a4fc8f1b73573685608597d0efcb076b0ab7a7a4"));
  Exact e(16);
  CHECK(p.hp_mask(e.mut(), ck.hp(), buf(unhex("5e5cd55c41f69080575d7999c25a5bfb"))), "mask-failed", "hp_mask failed");
  same("mask", "RFC 9001 A.5 mask", e.get().substr(0, 5), unhex("aefefe7d03"));
  c.stat("vectors");
}

void run_case(Ctx &c)
{
  Rng &g = c.rng;
  if (c.idx < 8) vectors(c);
  ref::suite s{ (int) g.below(3), g.chance(1, 2) };
  // Secrets have the size of the hash; other sizes must work as well, up to
  // what an expansion can produce.
  size_t n = g.chance(3, 4) ? s.hash() : g.chance(1, 3) ? g.pick(std::vector<size_t>{ 1, 31, 33, 64, 254, 255, 256, 257, 300, 510, 511, 512, 765, 1000 }) : 1 + g.below(600);
  schedule(c, s, random_bytes(g, g.chance(1, 2) ? 8 + g.below(11) : g.below(30)), random_bytes(g, g.chance(3, 4) ? 20 : 1 + g.below(80)), random_bytes(g, n));
  packets(c, s);
  packets(c, s);
  for (int i = 0; i < 8; i++) header(c, s, random_bytes(g, s.key()), random_bytes(g, 16));
  failures(c, s);
  c.interesting();
  if (c.want_sample()) c.sample(strf("suite %d/%s, secret of %zu bytes", s.aead, s.sha384 ? "SHA384" : "SHA256", n));
}
