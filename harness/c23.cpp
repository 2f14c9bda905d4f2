// C23: the QUIC client's handshake: keys, handshake data, failures.
#include "quicx.hpp"
const char *const RULE = "each case runs the client's handshake with a random cipher suite, host name, flights in random pieces, with and without early data, delivered and acknowledged in random pieces while packets are written, followed by session tickets and key updates; about a third of the cases make TLS, a key installation or a transport parameter fail at some point; non-trivial: handshake keys were installed; distinct by secrets and flights";
void harness_init() { base::logger = nullptr; }

namespace {

struct Run {
  Ctx &c;
  Rng &g;
  std::string host;
  std::string inject; // made before the connection
  Quic q;
  ref::suite suite;
  bool failed = false;

  static std::string any_host(Rng &g)
  {
    std::string h;
    for (size_t i = 0, n = 1 + g.below(g.chance(1, 4) ? 200 : 30); i < n; i++) h += "abcdefghijklmnopqrstuvwxyz0123456789-."[g.below(38)];
    return h;
  }
  static fake::script scripted(Rng &g, std::string &inject)
  {
    fake::script s = any_script(g);
    if (g.chance(1, 3)) {
      inject = g.pick(std::vector<std::string>{ "hello", "flight", "provide", "post", "cipher", "tp", "keys", "crypto", "submit" });
      if (inject == "cipher") s.cipher = g.pick(std::vector<uint32_t>{ 0x03001304, 0x03001300, 0x0300c02f, 0 });
      else if (inject == "tp") s.peer_tp = vec(g.chance(1, 2) ? bytes() : any_raw(g, 3 + g.below(20)) + "\x01");
      else if (inject != "keys" && inject != "crypto" && inject != "submit") s.fail = inject;
    }
    return s;
  }

  explicit Run(Ctx &c)
    : c(c)
    , g(c.rng)
    , host(any_host(c.rng))
    , q(scripted(c.rng, inject), quic::params(), quic::path(v4("\x7f\x01\x02\x03", 1), v4("\x0a\x01\x02\x03", 2)), host)
  {
    suite = q.script.cipher == 0x03001301 ? ref::suite{ 0, false } : q.script.cipher == 0x03001302 ? ref::suite{ 1, true } : ref::suite{ 2, false };
    q.e->pol.rng.seed(g.next());
    q.e->pol.partial = g.chance(1, 2) ? 40 : 0;
  }

  void installed(size_t &i, const char *what, ref::suite s, const bytes &secret, bool hp = true)
  {
    CHECK(i < q.e->keys.size(), "keys", "%s was not called", what);
    const fake::keys &k = q.e->keys[i++];
    CHECK(k.what == what, "keys", "%s was called instead of %s", k.what.c_str(), what);
    ref::keyset w = ref::protection(s, secret);
    CHECK(str(k.key) == w.key, "keys", "%s: key %s, expected %s", what, hex(str(k.key)).c_str(), hex(w.key).c_str());
    CHECK(str(k.iv) == w.iv, "keys", "%s: IV %s, expected %s", what, hex(str(k.iv)).c_str(), hex(w.iv).c_str());
    if (hp) CHECK(str(k.hp) == w.hp, "keys", "%s: header protection key %s, expected %s", what, hex(str(k.hp)).c_str(), hex(w.hp).c_str());
    c.stat("keys-checked");
  }

  // The calls that install keys may come in either order of direction.
  void both(size_t &i, const char *tx, const char *rx, ref::suite s, const bytes &write, const bytes &read, bool hp = true)
  {
    if (i < q.e->keys.size() && q.e->keys[i].what == rx) {
      installed(i, rx, s, read, hp);
      installed(i, tx, s, write, hp);
    } else {
      installed(i, tx, s, write, hp);
      installed(i, rx, s, read, hp);
    }
  }

  // Everything installed so far is what the key schedule says.
  void schedule(unsigned updates = 0)
  {
    size_t i = 0;
    ref::suite in{ 0, false };
    bytes salt = unhex_salt();
    bytes secret = ref::initial(in, bytes((char *) q.e->dcid.data, q.e->dcid.datalen), salt);
    both(i, "install_initial_tx_keys", "install_initial_rx_keys", in, ref::expand_label(false, secret, "client in", 32), ref::expand_label(false, secret, "server in", 32));
    const fake::script &s = q.script;
    bool known = q.ssl->cipher_known && inject != "cipher";
    if (known && s.early && q.ssl->state >= 1) installed(i, "install_early_keys", suite, str(s.early_secret));
    if (known && q.ssl->state >= 2) both(i, "install_handshake_tx_keys", "install_handshake_rx_keys", suite, str(s.hs_write), str(s.hs_read));
    if (known && q.ssl->state >= 3) both(i, "install_tx_keys", "install_rx_keys", suite, str(s.app_write), str(s.app_read));
    bytes w = str(s.app_write), r = str(s.app_read);
    for (unsigned u = 0; u < updates; u++) {
      w = ref::expand_label(suite.sha384, w, "traffic upd", suite.hash());
      r = ref::expand_label(suite.sha384, r, "traffic upd", suite.hash());
      both(i, "update_tx", "update_rx", suite, w, r, false);
      c.stat("key-updates");
    }
    CHECK(i == q.e->keys.size(), "keys", "%s was called without reason", q.e->keys[i].what.c_str());
    if (known && q.ssl->state >= 2) {
      CHECK(q.e->aead_overhead == 16, "overhead", "the AEAD overhead was set to %zu", q.e->aead_overhead);
      c.interesting();
    }
  }
  static bytes unhex_salt() { return ref::unhex("c3eef712c72ebb5a11a7d2432bb46365bef9f502"); }

  // Handshake data went to the engine as TLS made it.
  void flights()
  {
    auto check = [&](int level, const std::vector<fake::bytes> &pieces, bool made, const char *what) {
      bytes want;
      if (made)
        for (auto &p : pieces) want += str(p);
      bytes got = str(q.e->crypto[level].all);
      CHECK(got == want, "flight", "the %s went to QUIC as %s, TLS made %s", what, hex(got).c_str(), hex(want).c_str());
    };
    check(NGTCP2_CRYPTO_LEVEL_INITIAL, q.script.hello, q.ssl->state >= 1, "client hello");
    check(NGTCP2_CRYPTO_LEVEL_HANDSHAKE, q.script.finished, q.ssl->state >= 3, "client's finished");
    check(NGTCP2_CRYPTO_LEVEL_EARLY, {}, false, "early data");
    check(NGTCP2_CRYPTO_LEVEL_APP, {}, false, "application data");
    q.e->check();
    q.rules();
    c.stat("flights-checked");
  }

  // Packets until there are none: the bytes the engine made.
  void write()
  {
    for (int i = 0; i < 500; i++) {
      q.e->last.clear();
      auto r = q.c->send();
      q.rules();
      if (!r) {
        if (r.error() == qerr::idle) return;
        CHECK(!inject.empty(), "send-failed", "send() failed: %s", qname(r.error()));
        failed = true;
        return;
      }
      bytes b = str(r.value());
      CHECK(!b.empty() && b == str(q.e->last), "packet", "send() returned %s, the packet is %s", hex(b).c_str(), hex(str(q.e->last)).c_str());
      std::vector<fake::frame> fs;
      CHECK(fake::parse((const uint8_t *) b.data(), b.size(), fs), "packet", "send() returned a damaged packet");
      for (auto &f : fs)
        if (f.kind == 'C') wire[f.level] += str(f.data);
      c.stat("packets");
    }
    fail("endless", "send() is never idle");
  }
  std::map<int, bytes> wire;

  // One packet of the peer. True if it went well.
  bool read(const std::vector<fake::frame> &fs)
  {
    size_t before = q.e->crypto_results.size();
    auto r = q.recv(Quic::packet(fs));
    q.rules();
    CHECK(r, "recv-failed", "recv() failed: %s", qname(r.error()));
    bool bad = false;
    for (size_t i = before; i < q.e->crypto_results.size(); i++) bad |= q.e->crypto_results[i] != 0;
    unsigned errors = 0;
    quic::client::generator gen = std::move(r).value();
    while (gen.next()) {
      auto e = gen.get();
      CHECK(!e, "event", "a stream event came during the handshake");
      CHECK(e.error() == qerr::ngtcp2, "event", "recv() reports %s", qname(e.error()));
      errors++;
    }
    CHECK(errors <= 1, "event", "%u errors for one packet", errors);
    CHECK(bad == (errors == 1) || errors == 1, "event", "the packet failed in a callback but recv() reports nothing");
    if (errors) {
      std::string fr;
      for (auto &f : fs) fr += strf(" %c%u+%zu", f.kind, f.level, f.data.size());
      CHECK(!inject.empty(), "handshake-failed", "a packet of a correct handshake failed:%s (%s)", fr.c_str(), bad ? "in recv_crypto_data" : "elsewhere");
      failed = true;
    }
    return errors == 0;
  }

  void run()
  {
    // TLS was set up.
    SSL *s = q.ssl;
    CHECK(s->client && s->min == TLS1_3_VERSION && s->max == TLS1_3_VERSION && s->method, "setup", "TLS is not set up as a TLS 1.3 client for QUIC");
    CHECK(str(s->alpn) == "\x05h3-23", "setup", "ALPN is %s", hex(str(s->alpn)).c_str());
    CHECK(s->host == host, "setup", "the server name is %s, not %s", s->host.c_str(), host.c_str());
    schedule();
    CHECK(q.e->crypto[0].all.empty(), "setup", "handshake data was made before anything was sent");

    if (inject == "keys") q.e->fail_install = 1 + (int) g.below(4);
    struct Reset { ~Reset() { fake_crypto_countdown = 0; fake_crypto_failed = false; } } reset;
    if (inject == "crypto") fake_crypto_countdown = 1 + (int) g.below(15);
    if (inject == "submit") {
      q.e->fail_code = g.chance(1, 2) ? NGTCP2_ERR_NOBUF : NGTCP2_ERR_INVALID_ARGUMENT;
      if (g.chance(1, 2)) q.e->fail_api = "submit_crypto_data";
    }
    bytes post;
    write();
    if (!failed && inject != "crypto" && inject != "submit") {
      flights();
      schedule();
    }
    if (inject == "submit" && !failed) {
      // The end of the handshake instead of its beginning.
      CHECK(q.e->fail_api.empty(), "harness", "no handshake data was made");
      q.e->fail_api = "submit_crypto_data";
    }
    bool injected_keys = inject == "keys" || inject == "crypto" || inject == "submit";
    // The handshake.
    for (int i = 0; i < 2000 && !q.done() && !failed; i++) {
      q.now += 1000;
      std::vector<fake::frame> fs;
      fake::frame f;
      if (g.chance(3, 4) && q.peer(g, f)) fs.push_back(f);
      if (g.chance(1, 4)) {
        fake::frame a;
        a.kind = 'K';
        a.level = (uint8_t) g.below(2);
        a.offset = 1 + g.below(500);
        fs.insert(fs.begin() + (long) g.below(fs.size() + 1), a);
      }
      if (!read(fs)) break;
      if (!injected_keys) {
        schedule();
        flights();
      }
      if (g.chance(1, 2)) write();
      if (g.chance(1, 4)) q.e->check();
    }
    q.rules();
    if (failed) {
      c.stat("failed-handshakes");
      CHECK(!q.done() || inject == "tp", "completed", "the handshake failed (%s) but counts as completed", inject.c_str());
      if (inject == "hello" || inject == "flight" || inject == "provide" || inject == "cipher" || (inject == "keys" && !q.e->crypto_results.empty() && q.ssl->failed)) {
        // A failure of TLS is reported to the engine as such.
        if (!q.e->crypto_results.empty() && q.e->crypto_results.back() != 0) {
          CHECK(q.e->crypto_results.back() == NGTCP2_ERR_CRYPTO, "callback-result", "a failure of TLS (%s) was returned to the engine as %d", inject.c_str(), q.e->crypto_results.back());
          c.stat("tls-failures-mapped");
        }
      }
      if (inject == "tp") {
        CHECK(q.e->crypto_results.back() != 0, "callback-result", "damaged transport parameters were accepted");
        c.stat("bad-parameters-refused");
      }
      return;
    }
    if (inject == "hello" || inject == "flight" || inject == "provide" || inject == "cipher" || inject == "tp") fail("failure-lost", "%s failed but nothing was reported", inject.c_str());
    if (inject == "keys" && q.e->fail_install == 0) fail("failure-lost", "a key could not be installed but nothing was reported");
    if (fake_crypto_failed) fail("failure-lost", "a key could not be derived but nothing was reported");
    if (inject == "submit") fail("failure-lost", "QUIC refused handshake data but nothing was reported");
    CHECK(q.done(), "handshake", "the handshake did not complete");
    if (inject == "keys" || inject == "crypto") return;
    schedule();
    flights();
    CHECK(q.e->completions == 1, "completed", "the handshake was completed %u times", q.e->completions);
    CHECK(q.e->remote_tp_set && str(fake::encode(q.e->remote_tp)) == str(q.script.peer_tp), "peer-parameters", "the peer's transport parameters were not handed to the engine");
    c.stat("handshakes");
    q.e->pol.partial = 0;
    write();
    CHECK(wire[0] == str(q.e->crypto[0].all) && wire[1] == str(q.e->crypto[1].all), "wire", "the handshake data in the packets differs from what TLS made");

    // Afterwards: tickets and key updates.
    unsigned updates = 0;
    uint64_t offset = 0;
    for (size_t i = 0, n = g.below(8); i < n; i++) {
      fake::frame f;
      if (g.chance(1, 2)) {
        f.kind = 'U';
        if (!read({ f })) break;
        updates++;
      } else {
        f.kind = 'C';
        f.level = NGTCP2_CRYPTO_LEVEL_APP;
        f.offset = offset;
        bytes b = any_raw(g, 1 + g.below(300));
        f.data = vec(b);
        offset += b.size();
        unsigned had = q.ssl->post;
        bool ok = read({ f });
        if (inject == "post") {
          CHECK(!ok && q.e->crypto_results.back() == NGTCP2_ERR_CRYPTO, "failure-lost", "TLS refused post-handshake data but nothing was reported");
          break;
        }
        post += b;
        CHECK(str(q.ssl->in[ssl_encryption_application]) == post, "post-handshake", "TLS was given other post-handshake data than the peer sent");
        CHECK(q.ssl->post == had + 1, "post-handshake", "TLS did not process the post-handshake data");
        c.stat("tickets");
      }
      schedule(updates);
    }
    CHECK(q.e->completions == 1, "completed", "the handshake was completed %u times", q.e->completions);
    q.e->check();
    q.rules();
    // All handshake data is acknowledged, then no more.
    for (int l = 0; l < 2; l++) CHECK(q.e->ack_crypto(l, UINT64_MAX) == 0, "ack", "the acknowledgement of handshake data failed");
    CHECK(q.e->cb.acked_crypto_offset(q.e, NGTCP2_CRYPTO_LEVEL_INITIAL, q.e->crypto[0].written, 1, q.e->user) == NGTCP2_ERR_CALLBACK_FAILURE, "ack", "an acknowledgement of data that was never sent is accepted");
  }
};

}

void run_case(Ctx &c)
{
  Run r(c);
  r.run();
  for (auto &p : r.q.script.hello) c.observe(str(p));
  c.observe(str(r.q.script.app_write));
  c.observe(r.q.packets);
  if (c.want_sample()) c.sample(strf("suite %x%s, host %.20s, %s%s", r.q.script.cipher, r.q.script.early ? ", early data" : "", r.host.c_str(), r.inject.empty() ? "no failure" : ("failure: " + r.inject).c_str(), r.failed ? "" : ", completed"));
}
