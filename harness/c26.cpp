// C26: the QUIC client talks to its engine faithfully: settings, addresses,
// times, packets, callbacks and their results.
#include "quicx.hpp"
const char *const RULE = "each case makes a client connection with random parameters, addresses of both families, ports and times, finishes the handshake with a random cipher suite, and calls the engine's callbacks directly: packet protection of random packets with correct, too small, larger destinations and damaged packets, masks, path validation, connection ids, timers at, before and after their time, log messages with any content; non-trivial: all; distinct by parameters and times";

namespace {

struct Recorder : base::log::api {
  mutable std::vector<std::string> lines;
  void log(base::log::level, const char *, const char *, int, const char *format, const fmt::format_args &args) const override
  {
    try {
      lines.push_back(fmt::vformat(format, args));
    } catch (const std::exception &e) {
      lines.push_back(std::string("cannot be formatted: ") + e.what());
      broken++;
    }
  }
  mutable unsigned broken = 0;
};

struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Exact(const bytes &b) : p(new uint8_t[b.size()]), n(b.size()) { std::copy(b.begin(), b.end(), (char *) p.get()); }
  explicit Exact(size_t k) : p(new uint8_t[k]), n(k) { memset(p.get(), 0xa5, k); }
  bytes get() const { return bytes((char *) p.get(), n); }
};

uint64_t any_time(Rng &g)
{
  // Microseconds; nanoseconds must fit as well.
  return g.chance(1, 5) ? g.below(10) : g.chance(1, 2) ? g.below(10000000) : g.next() >> (12 + g.below(30));
}

struct Run {
  Ctx &c;
  Rng &g;
  quic::params params;
  bytes local, peer;
  Quic q;
  ref::suite suite;

  static quic::params any_params(Rng &g)
  {
    quic::params p;
    bool big = g.chance(1, 4);
    auto v = [&]() -> uint64_t { return big ? ref::VARINT_MAX - g.below(1000) : g.chance(1, 4) ? 0 : any_varint(g); };
    p.max_stream_data_bidi_local = v();
    p.max_stream_data_bidi_remote = v();
    p.max_stream_data_uni = v();
    p.max_data = v();
    p.max_streams_bidi = v();
    p.max_streams_uni = v();
    p.idle_timeout = quic::milliseconds(g.chance(1, 3) ? 0 : big ? ref::VARINT_MAX / 1000000 : g.below(1000000000));
    p.max_packet_size = v();
    p.ack_delay_exponent = big ? 1ULL << 40 : g.below(21);
    p.disable_migration = (uint8_t) g.below(2);
    p.max_ack_delay = quic::milliseconds(big ? 1ULL << 50 : g.below(1 << 14));
    return p;
  }

  explicit Run(Ctx &c)
    : c(c)
    , g(c.rng)
    , params(any_params(c.rng))
    , local(any_raw(c.rng, c.rng.chance(1, 2) ? 4 : 16))
    , peer(any_raw(c.rng, c.rng.chance(3, 4) ? local.size() : 20 - local.size()))
    , q(any_script(c.rng), params, quic::path(v4(local, (uint16_t) c.rng.next()), v4(peer, (uint16_t) c.rng.next())), "host")
  {
    suite = q.script.cipher == 0x03001301 ? ref::suite{ 0, false } : q.script.cipher == 0x03001302 ? ref::suite{ 1, true } : ref::suite{ 2, false };
  }

  void same(const char *what, uint64_t got, uint64_t want) { CHECK(got == want, "settings", "%s is %llu, not %llu", what, (unsigned long long) got, (unsigned long long) want); }

  void settings()
  {
    const ngtcp2_settings &s = q.e->settings;
    same("max_stream_data_bidi_local", s.max_stream_data_bidi_local, params.max_stream_data_bidi_local);
    same("max_stream_data_bidi_remote", s.max_stream_data_bidi_remote, params.max_stream_data_bidi_remote);
    same("max_stream_data_uni", s.max_stream_data_uni, params.max_stream_data_uni);
    same("max_data", s.max_data, params.max_data);
    same("max_streams_bidi", s.max_streams_bidi, params.max_streams_bidi);
    same("max_streams_uni", s.max_streams_uni, params.max_streams_uni);
    same("idle_timeout", s.idle_timeout, params.idle_timeout.count());
    same("max_packet_size", s.max_packet_size, params.max_packet_size);
    same("ack_delay_exponent", s.ack_delay_exponent, params.ack_delay_exponent);
    same("disable_migration", s.disable_migration, params.disable_migration);
    same("max_ack_delay", s.max_ack_delay, params.max_ack_delay.count());
    same("initial_ts", s.initial_ts, 1000);
    // TLS sends these parameters to the peer.
    ngtcp2_transport_params tp;
    ngtcp2_conn_get_local_transport_params(q.e, &tp);
    bytes want = str(fake::encode(tp));
    CHECK(str(q.ssl->tp) == want, "parameters", "TLS was given the transport parameters %s, they are %s", hex(str(q.ssl->tp)).c_str(), hex(want).c_str());
    CHECK(q.e->local == local, "path", "the local address is %s, not %s", hex(q.e->local).c_str(), hex(local).c_str());
    CHECK(q.e->remote == peer, "path", "the peer's address is %s, not %s", hex(q.e->remote).c_str(), hex(peer).c_str());
    // Connection ids are chosen at random.
    bytes d((char *) q.e->dcid.data, q.e->dcid.datalen), s2((char *) q.e->scid.data, q.e->scid.datalen);
    CHECK(d.size() >= 8, "cid", "the initial destination connection id has only %zu bytes", d.size());
    CHECK(d != s2, "cid", "both connection ids are %s", hex(d).c_str());
    static std::set<bytes> seen;
    // (The generator's seed has 32 bits, so that a repetition may happen.)
    static int again = 0;
    CHECK(seen.insert(d).second || ++again < 3, "cid", "connection ids like %s were chosen again and again", hex(d).c_str());
    q.e->calls.clear();
    c.stat("settings-checked");
  }

  void calls()
  {
    for (auto &p : q.e->paths_seen) {
      CHECK(p.first == local, "path", "the local address of a packet is %s, not %s", hex(p.first).c_str(), hex(local).c_str());
      CHECK(p.second == peer, "path", "the peer's address of a packet is %s, not %s", hex(p.second).c_str(), hex(peer).c_str());
      c.stat("paths-checked");
    }
    q.e->paths_seen.clear();
    q.e->calls.clear();
  }

  void tick(uint64_t t) { q.now = t; }

  // The calls since the last time carried the clock's time.
  void times(const char *what)
  {
    for (auto &k : q.e->calls) CHECK(k.ts == q.now * 1000, "time", "%s was called at %llu ns, the clock says %llu us (%s)", k.what.c_str(), (unsigned long long) k.ts, (unsigned long long) q.now, what);
    c.stat("times-checked", q.e->calls.size());
    calls();
  }

  void handshake()
  {
    for (int i = 0; i < 500 && !q.done(); i++) {
      tick(any_time(g));
      while (q.send()) {}
      times("send");
      tick(any_time(g));
      fake::frame f;
      if (q.peer(g, f)) {
        auto r = q.recv(Quic::packet({ f }));
        CHECK(r && !r.value().next(), "handshake", "the handshake failed");
      }
      times("recv");
    }
    CHECK(q.done(), "handshake", "the handshake did not complete");
    while (q.send()) {}
    calls();
    // Stream data as well.
    quic::data d;
    d.id = 0;
    d.fin = g.chance(1, 2);
    d.buffer = buf(any_raw(g, 1 + g.below(3000)));
    CHECK(q.c->add(quic::event(std::move(d))), "add-failed", "adding data failed");
    tick(any_time(g));
    while (q.send()) {}
    times("send");
  }

  void timers()
  {
    same("the idle timeout (us)", q.c->timeout().count(), params.idle_timeout.count() * 1000);
    q.e->expiry = g.chance(1, 4) ? g.next() : any_time(g) * 1000 + g.below(1000);
    same("the expiry (us)", q.c->expiry().count(), q.e->expiry / 1000);
    for (int i = 0; i < 6; i++) {
      uint64_t now = any_time(g);
      tick(now);
      auto at = [&]() -> uint64_t {
        switch (g.below(5)) {
          case 0: return UINT64_MAX;
          case 1: return now * 1000;
          case 2: return now * 1000 + 1 + g.below(3000);
          default: return now * 1000 - std::min(now * 1000, g.below(5000));
        }
      };
      q.e->loss_expiry = at();
      q.e->ack_expiry = at();
      q.e->calls.clear();
      auto r = q.c->expire();
      CHECK(r, "expire-failed", "expire() failed");
      bool loss = false, ack = false;
      for (auto &k : q.e->calls) (k.what == "on_loss_detection_timer" ? loss : ack) = true;
      CHECK(loss == (q.e->loss_expiry <= now * 1000), "timer", "at %llu us the loss detection timer of %llu ns %s", (unsigned long long) now, (unsigned long long) q.e->loss_expiry, loss ? "fired" : "did not fire");
      CHECK(ack == (q.e->ack_expiry <= now * 1000), "timer", "at %llu us the ack delay timer of %llu ns %s", (unsigned long long) now, (unsigned long long) q.e->ack_expiry, ack ? "fired" : "did not fire");
      times("expire");
      c.stat("timers-checked");
    }
    q.e->fail_timer = true;
    q.e->loss_expiry = 0;
    auto r = q.c->expire();
    CHECK(!r && r.error() == qerr::ngtcp2, "expire-failed", "a failure of the loss detection timer is not reported");
    q.e->fail_timer = false;
    calls();
  }

  // The packet protection callbacks.
  void protection(bool initial)
  {
    auto &cb = q.e->cb;
    ngtcp2_crypt enc = initial ? cb.in_encrypt : cb.encrypt, dec = initial ? cb.in_decrypt : cb.decrypt;
    ngtcp2_mask mask = initial ? cb.in_hp_mask : cb.hp_mask;
    ref::suite s = initial ? ref::suite{ 0, false } : suite;
    bytes key = any_raw(g, s.key()), nonce = any_raw(g, 12), ad = any_raw(g, g.below(50)), plain = any_raw(g, g.chance(1, 8) ? 0 : g.below(1300));
    bytes want = ref::seal(s.aead, key, nonce, ad, plain);
    auto call = [&](ngtcp2_crypt f, Exact &d, const bytes &text, const bytes &k) {
      Exact t(text), kk(k), n(nonce), a(ad);
      return f(q.e, d.p.get(), d.n, t.p.get(), t.n, kk.p.get(), kk.n, n.p.get(), n.n, a.p.get(), a.n, q.e->user);
    };
    {
      size_t more = g.chance(1, 2) ? 0 : g.below(50);
      Exact d(want.size() + more);
      ssize_t n = call(enc, d, plain, key);
      CHECK(n == (ssize_t) want.size(), "encrypt", "protecting %zu bytes returned %zd", plain.size(), n);
      CHECK(d.get() == want + bytes(more, (char) 0xa5), "encrypt", "protecting %zu bytes with suite %d gives other bytes than the reference", plain.size(), s.aead);
      c.stat("packets-protected");
    }
    {
      Exact d(g.below(want.size()));
      CHECK(call(enc, d, plain, key) == NGTCP2_ERR_CALLBACK_FAILURE, "encrypt", "protecting %zu bytes into %zu did not fail", plain.size(), d.n);
    }
    {
      Exact d(plain.size() + (g.chance(1, 2) ? 16 : 0));
      ssize_t n = call(dec, d, want, key);
      CHECK(n == (ssize_t) plain.size() && d.get().substr(0, plain.size()) == plain, "decrypt", "unprotecting a packet of %zu bytes returned %zd", want.size(), n);
      c.stat("packets-unprotected");
    }
    {
      // Damaged packets are dropped; they are no failure of the callback,
      // which would end the connection.
      bytes bad = want;
      switch (g.below(3)) {
        case 0: bad[g.below(bad.size())] ^= (char) (1 << g.below(8)); break;
        case 1: bad.resize(g.below(bad.size())); break;
        default: bad += 'x';
      }
      Exact d(bad.size());
      ssize_t n = call(dec, d, bad, key);
      CHECK(n < 0, "decrypt", "a damaged packet of %zu bytes was accepted (%zd)", bad.size(), n);
      CHECK(n == NGTCP2_ERR_TLS_DECRYPT, "decrypt-result", "a packet that cannot be unprotected is reported as %zd, which ends the connection", n);
      c.stat("damaged-packets");
    }
    {
      Exact d(16), k(any_raw(g, s.key())), sample(any_raw(g, 16));
      ssize_t n = mask(q.e, d.p.get(), d.n, k.p.get(), k.n, sample.p.get(), sample.n, q.e->user);
      CHECK(n >= 5, "mask", "making a mask returned %zd", n);
      CHECK(d.get().substr(0, 5) == ref::mask(s.aead, k.get(), sample.get()), "mask", "the mask is %s", hex(d.get()).c_str());
      c.stat("masks");
    }
  }

  void others()
  {
    auto &cb = q.e->cb;
    ngtcp2_path_storage p;
    ngtcp2_path_storage_init(&p, (const uint8_t *) local.data(), local.size(), nullptr, (const uint8_t *) peer.data(), peer.size(), nullptr);
    CHECK(cb.path_validation(q.e, &p.path, NGTCP2_PATH_VALIDATION_RESULT_SUCCESS, q.e->user) == 0, "path-validation", "a validated path is refused");
    CHECK(cb.path_validation(q.e, &p.path, NGTCP2_PATH_VALIDATION_RESULT_FAILURE, q.e->user) == NGTCP2_ERR_CALLBACK_FAILURE, "path-validation", "a path that could not be validated is accepted");
    // Random bytes: all of the destination, nothing else.
    std::array<bytes, 4> r;
    for (auto &b : r) {
      Exact d(16 + 16);
      CHECK(cb.rand(q.e, d.p.get() + 8, 16, NGTCP2_RAND_CTX_NONE, q.e->user) == 0, "random", "the random callback failed");
      CHECK(d.get().substr(0, 8) == bytes(8, (char) 0xa5) && d.get().substr(24) == bytes(8, (char) 0xa5), "random", "random bytes were written outside the destination");
      b = d.get().substr(8, 16);
    }
    CHECK(r[0] != r[1] && r[1] != r[2] && r[2] != r[3], "random", "random bytes are repeated");
    for (int i = 0; i < 16; i++) CHECK(!(r[0][i] == r[1][i] && r[1][i] == r[2][i] && r[2][i] == r[3][i]) || ++stuck < 3, "random", "byte %d of random bytes is always the same", i);
    size_t n = 1 + g.below(NGTCP2_MAX_CIDLEN);
    ngtcp2_cid cid;
    memset(&cid, 0xa5, sizeof cid);
    Exact token(NGTCP2_STATELESS_RESET_TOKENLEN);
    CHECK(cb.get_new_connection_id(q.e, &cid, token.p.get(), n, q.e->user) == 0, "new-cid", "no new connection id");
    CHECK(cid.datalen == n, "new-cid", "the new connection id has %zu bytes, not %zu", cid.datalen, n);
    for (size_t i = n; i < sizeof cid.data; i++) CHECK(cid.data[i] == 0xa5, "new-cid", "bytes behind the new connection id changed");
    CHECK(n < 6 || bytes((char *) cid.data, n) != bytes(n, (char) 0xa5), "new-cid", "the new connection id was not written");
    CHECK(token.get() != bytes(16, (char) 0xa5) && (n < 8 || token.get().substr(0, std::min<size_t>(n, 16)) != bytes((char *) cid.data, std::min<size_t>(n, 16))), "new-cid", "the reset token is not random");
    CHECK(cb.remove_connection_id(q.e, &cid, q.e->user) == 0, "new-cid", "a connection id cannot be removed");
    for (auto f : { cb.extend_max_local_streams_bidi, cb.extend_max_local_streams_uni, cb.extend_max_remote_streams_bidi, cb.extend_max_remote_streams_uni }) CHECK(f(q.e, any_varint(g), q.e->user) == 0, "callback", "a stream limit was refused");
    CHECK(cb.extend_max_stream_data(q.e, 0, any_varint(g), q.e->user, nullptr) == 0, "callback", "a flow control limit was refused");
    // Retries and stateless resets are not implemented: the connection ends.
    ngtcp2_pkt_stateless_reset reset = { token.p.get(), token.p.get(), 16 };
    CHECK(cb.recv_stateless_reset(q.e, &reset, q.e->user) == NGTCP2_ERR_CALLBACK_FAILURE, "callback", "a stateless reset does not end the connection");
    ngtcp2_pkt_hd hd = {};
    ngtcp2_pkt_retry retry = {};
    CHECK(cb.recv_retry(q.e, &hd, &retry, q.e->user) == NGTCP2_ERR_CALLBACK_FAILURE, "callback", "a retry is ignored");
    c.stat("callbacks-checked");
  }
  int stuck = 0;

  // What the engine refuses is reported.
  void results()
  {
    static const int codes[] = { NGTCP2_ERR_NOBUF, NGTCP2_ERR_INVALID_ARGUMENT, NGTCP2_ERR_CALLBACK_FAILURE, NGTCP2_ERR_PROTO };
    q.e->fail_code = codes[g.below(4)];
    while (q.send()) {}
    auto refused = [&](const char *what) {
      q.e->fail_api = what;
      auto r = q.c->send();
      CHECK(q.e->fail_api.empty(), "harness", "%s was not called", what);
      CHECK(!r && r.error() == qerr::ngtcp2, "result", "%s failed with %d but send() %s", what, q.e->fail_code, r ? "succeeds" : qname(r.error()));
      c.stat("results-checked");
    };
    refused("write_pkt");
    quic::data d;
    d.id = g.chance(1, 2) ? 4 : 2;
    d.fin = g.chance(1, 2);
    bytes content = any_raw(g, 1 + g.below(300));
    d.buffer = buf(content);
    CHECK(q.c->add(quic::event(std::move(d))), "add-failed", "adding data failed");
    refused("open_stream");
    refused("write_stream");
    q.e->fail_api = "read_pkt";
    auto r = q.recv(Quic::packet({}));
    CHECK(q.e->fail_api.empty(), "harness", "read_pkt was not called");
    CHECK(r, "result", "recv() fails");
    auto gen = std::move(r).value();
    CHECK(gen.next(), "result", "read_pkt failed with %d but recv() reports nothing", q.e->fail_code);
    auto e = gen.get();
    CHECK(!e && e.error() == qerr::ngtcp2 && !gen.next(), "result", "read_pkt failed with %d but recv() reports something else", q.e->fail_code);
    c.stat("results-checked");
    // No data was lost.
    while (q.send()) {}
    uint64_t id = d.id;
    CHECK(str(q.e->out[id].all) == content, "result", "stream data was lost when the engine failed");
    calls();
  }

  void logging()
  {
    Recorder rec;
    struct Reset { ~Reset() { base::logger = nullptr; } } reset;
    base::logger = &rec;
    static const std::vector<std::string> parts{ "{}", "{", "}", "{0}", "{:x}", "%s", "%", "I00000001 0x1234 pkt rx", " ", "{{", "}}", "\n", "\xff\xfe", "{a}" };
    std::string m;
    for (size_t i = 0, n = g.below(12); i < n; i++) m += g.pick(parts);
    for (auto &ch : m)
      if (ch == 0) ch = '0';
    q.e->settings.log_printf(q.e->user, "%s", m.c_str());
    CHECK(rec.broken == 0, "log", "the engine's log message \"%s\" cannot be logged (%s)", m.c_str(), rec.lines.empty() ? "" : rec.lines.back().c_str());
    CHECK(rec.lines.size() == 1 && rec.lines[0].find(m) != std::string::npos, "log", "the engine's log message \"%s\" was logged as \"%s\"", m.c_str(), rec.lines.empty() ? "" : rec.lines[0].c_str());
    // A failure with a logger: whatever TLS says about it.
    std::string big(g.below(4000), 'a');
    q.e->settings.log_printf(q.e->user, "%s", big.c_str());
    CHECK(rec.broken == 0, "log", "a log message of %zu bytes cannot be logged", big.size());
    q.ssl->s.fail = "provide";
    fake::frame f;
    f.kind = 'C';
    f.level = NGTCP2_CRYPTO_LEVEL_APP;
    f.data = vec("x");
    auto r = q.recv(Quic::packet({ f }));
    CHECK(rec.broken == 0, "log", "an error of TLS cannot be logged (%s)", rec.lines.back().c_str());
    CHECK(r && r.value().next() && !r.value().get(), "failure-lost", "TLS refused data but nothing was reported");
    c.stat("log-messages", rec.lines.size());
  }

  void run()
  {
    settings();
    CHECK(q.e->cb.encrypt(q.e, nullptr, 0, nullptr, 0, nullptr, 0, nullptr, 0, nullptr, 0, q.e->user) == NGTCP2_ERR_CALLBACK_FAILURE, "encrypt", "packets are protected before a cipher suite was negotiated");
    CHECK(q.e->cb.decrypt(q.e, nullptr, 0, nullptr, 0, nullptr, 0, nullptr, 0, nullptr, 0, q.e->user) < 0, "decrypt", "packets are unprotected before a cipher suite was negotiated");
    protection(true);
    handshake();
    protection(true);
    protection(false);
    protection(false);
    timers();
    others();
    results();
    q.rules();
    logging();
    c.interesting();
  }
};

}

void harness_init() { base::logger = nullptr; }

void run_case(Ctx &c)
{
  {
    Run r(c);
    r.run();
    c.observe(r.local + r.peer);
    c.observe(r.params.max_data);
    if (c.want_sample()) c.sample(strf("%s -> %s, suite %x, %zu bytes of parameters", hex(r.local).c_str(), hex(r.peer).c_str(), r.q.script.cipher, r.q.ssl->tp.size()));
  }
  CHECK(fake::last_ssl() == nullptr, "leak", "TLS outlives the connection");
}
