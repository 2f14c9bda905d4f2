// C01: untrusted bytes.
#include "traffic.hpp"
const char *const RULE = "each case feeds hostile bytes (random, frames with lying lengths, mutated legal streams and header blocks, boundary-valued integers) in random fragments to every decoder over every kind of byte sequence, and to a client and a server connection on known, unknown and forbidden stream ids, with draining that is partial, repeated after errors, deferred or abandoned and with moves, handle use and destruction in between; the sanitizers, assertions and a step limit watch; non-trivial: at least one event and one error; distinct by the outcomes";
void harness_init() { base::logger = nullptr; }

static bytes big(Rng &g)
{
  // Many repetitions of a small piece, or long integers.
  switch (g.below(5)) {
    case 0: { bytes p = any_bytes(g, 6), r; while (r.size() < 3000) r += p + "\1"; return r; }
    case 1: return bytes(1 + g.below(40), (char) (g.chance(1, 2) ? 0xff : 0x80)) + any_bytes(g, 20);
    case 2: { bytes r; for (int i = 0; i < 200; i++) r += ref::frame_any(0x21 + 0x1f * g.below(10), any_bytes(g, 8), g); return r; }
    case 3: { bytes r; for (int i = 0; i < 200; i++) r += ref::frame_any(ref::DATA, bytes(), g); return ref::frame_any(ref::HEADERS, bytes(2, '\0') + '\xd1', g) + r; }
    default: return ref::varint_any(g.below(16), g) + ref::varint(ref::VARINT_MAX - g.below(3)) + any_bytes(g, 300);
  }
}
static bytes anything(Rng &g) { return g.chance(1, 5) ? big(g) : g.chance(1, 3) ? hostile_block(g) : hostile_stream(g); }

static void codecs(Ctx &c, Rng &g)
{
  bytes in = anything(g);
  if (in.size() > 1500) in.resize(1500);
  Digest d;
  Rng h(g.next());
  for (int k = 0; k < 2; k++) {
    Rng h2 = h;
    if (k) decode_everything(d, in, h2, [&](const bytes &b) { return bufs(split(b, g)); });
    else decode_everything(d, in, h2, [](const bytes &b) { return buf(b); });
  }
  // Through lookaheads, as connections use them.
  for (int k = 0; k < 6; k++) {
    (void) decode_kind(k, in, g, DecVarint());
    (void) decode_kind(k, in, g, DecFrame());
    (void) decode_kind(k, in, g, PeekFrame());
    (void) decode_kind(k, in, g, DecPint{ 1 + (unsigned) g.below(8) });
    (void) decode_kind(k, in, g, DecLiteral{ 1 + (unsigned) g.below(7) });
    (void) decode_kind(k, in, g, DecHuffman{ g.below(in.size() + 1) });
  }
  c.observe(d.h);
  c.stat("decodes", d.items + 36);
}

struct Drainer {
  uint64_t events = 0, errors = 0, digest = 0;
  template<typename Gen> void run(Gen &gen, Rng &g)
  {
    unsigned max = g.chance(1, 4) ? (unsigned) g.below(4) : 4000, errs = 0;
    for (unsigned k = 0; k < max && gen.next(); k++) {
      auto e = gen.get();
      if (!e) {
        errors++;
        digest = mix(digest, (uint64_t) e.error());
        if (++errs > 3) return; // asking again is allowed
        continue;
      }
      events++;
      http3::event ev = std::move(e).value();
      using t = http3::event::type;
      switch ((t) ev) {
        case t::settings: digest = mix(digest, ev.settings.num_placeholders); break;
        case t::header: digest = mix(digest, hash_bytes(str(ev.header.header.name()) + str(ev.header.header.value()))); break;
        case t::body: digest = mix(digest, hash_bytes(str(ev.body.buffer))); break;
        case t::finished: digest = mix(digest, ev.finished.id); break;
      }
    }
    CHECK(max < 4000 || events < 100000, "endless", "a generator never ends");
  }
};
template<typename C> static void move_around(std::unique_ptr<C> &c, Rng &g)
{
  if (!g.chance(1, 12)) return;
  if (g.chance(1, 2)) c.reset(new C(std::move(*c)));
  else {
    std::unique_ptr<C> n(new C);
    *n = std::move(*c);
    c = std::move(n);
  }
}
template<typename C> static quic::event next_event(std::map<uint64_t, bytes> &rest, Rng &g, bool server)
{
  uint64_t id;
  switch (g.below(10)) {
    case 0: id = server ? 2 : 3; break;
    case 1: id = g.below(16); break;
    case 2: id = any_u64(g); break;
    default: id = 4 * g.below(3);
  }
  if (g.chance(1, 100)) {
    using ae = quic::application::error;
    const ae e{ g.chance(1, 3) ? ae::rst_stream : g.chance(1, 2) ? ae::stop_sending : ae::connection_close, id, any_u64(g) };
    quic::event a(e);
    return quic::event(std::move(a));
  }
  bytes &r = rest[id];
  if (r.empty()) r = (id == 2 || id == 3) && g.chance(2, 3) ? foreign_control(g) + (g.chance(1, 2) ? hostile_frames(g) : bytes()) : anything(g);
  if (r.size() > 4000) r.resize(4000);
  size_t n = g.chance(1, 3) ? r.size() : g.chance(1, 3) ? std::min<size_t>(r.size(), 1) : g.below(r.size() + 1);
  quic::data d;
  d.id = id;
  d.fin = g.chance(1, 12);
  d.buffer = buf(r.substr(0, n));
  r.erase(0, n);
  return quic::event(std::move(d));
}
static void client(Ctx &c, Rng &g)
{
  std::unique_ptr<http3::client::connection> conn(new http3::client::connection);
  std::vector<http3::request::handle> hs;
  std::map<uint64_t, bytes> rest;
  Drainer d;
  for (uint64_t k = 0, n = 10 + g.below(40); k < n; k++) {
    move_around(conn, g);
    switch (g.below(8)) {
      case 0: if (hs.size() < 4) { auto r = conn->request(); if (r) hs.push_back(std::move(r).value()); } break;
      case 1:
        if (!hs.empty()) {
          auto &h = hs[g.below(hs.size())];
          bytes v = any_bytes(g, 40);
          switch (g.below(5)) {
            case 0: (void) h.header({ base::string_view("name"), base::string_view(v.data(), v.size()) }); break;
            case 1: (void) h.start(); break;
            case 2: (void) h.body(buf(v)); break;
            case 3: (void) h.fin(); break;
            default: hs.erase(hs.begin() + (long) g.below(hs.size()));
          }
        }
        break;
      case 2: (void) conn->send(); break;
      default: {
        quic::event e = next_event<http3::client::connection>(rest, g, false);
        uint64_t id = e.id();
        auto r = conn->recv(std::move(e));
        if (!r) { d.errors++; d.digest = mix(d.digest, (uint64_t) r.error()); break; }
        if (g.chance(1, 8)) break; // never drained
        auto gen = std::move(r).value();
        d.run(gen, g);
        if (g.chance(1, 6)) { http3::client::generator again(id, *conn); d.run(again, g); }
      }
    }
  }
  if (g.chance(1, 2)) conn.reset(); // before the handles
  c.observe(d.digest);
  c.stat("events", d.events);
  c.stat("errors", d.errors);
  if (d.events && d.errors) c.interesting();
}
static void server(Ctx &c, Rng &g)
{
  std::unique_ptr<http3::server::connection> conn(new http3::server::connection);
  std::vector<http3::response::handle> hs;
  std::map<uint64_t, bytes> rest;
  Drainer d;
  for (uint64_t k = 0, n = 10 + g.below(40); k < n; k++) {
    move_around(conn, g);
    switch (g.below(8)) {
      case 0: { auto r = conn->response(g.chance(1, 8) ? any_u64(g) : 4 * g.below(4)); if (r) hs.push_back(std::move(r).value()); break; }
      case 1:
        if (!hs.empty()) {
          auto &h = hs[g.below(hs.size())];
          bytes v = any_bytes(g, 40);
          switch (g.below(5)) {
            case 0: (void) h.header({ base::string_view("name"), base::string_view(v.data(), v.size()) }); break;
            case 1: (void) h.start(); break;
            case 2: (void) h.body(buf(v)); break;
            case 3: (void) h.fin(); break;
            default: hs.erase(hs.begin() + (long) g.below(hs.size()));
          }
        }
        break;
      case 2: (void) conn->send(); break;
      default: {
        quic::event e = next_event<http3::server::connection>(rest, g, true);
        uint64_t id = e.id();
        auto r = conn->recv(std::move(e));
        if (!r) { d.errors++; d.digest = mix(d.digest, (uint64_t) r.error()); break; }
        if (g.chance(1, 8)) break;
        auto gen = std::move(r).value();
        d.run(gen, g);
        if (g.chance(1, 6)) { http3::server::generator again(id, *conn); d.run(again, g); }
      }
    }
  }
  if (g.chance(1, 2)) conn.reset();
  c.observe(d.digest);
  c.stat("events", d.events);
  c.stat("errors", d.errors);
  if (d.events && d.errors) c.interesting();
}
// Tens of thousands of frames at once, which need a loop and not a stack.
static void many(Ctx &c, Rng &g)
{
  bytes one = ref::frame_any(g.chance(1, 2) ? 0x21 : 0x21 + 0x1f * g.below(1000), any_bytes(g, 3), g), in;
  while (in.size() < 60000 * one.size()) in += one;
  c.stat("many-frames", 60000);
  base::buffer b = buf(in);
  CHECK(http3::frame::peek(b).error() == h3err::incomplete, "many-peek", "only unknown frames, and one is found");
  CHECK(http3::frame::decode(b).error() == h3err::incomplete, "many-decode", "only unknown frames, and one is decoded");
  bytes head = ref::frame_any(ref::HEADERS, bytes(2, '\0') + '\xd1', g), tail = ref::frame_any(ref::DATA, "end", g);
  {
    http3::server::connection conn;
    quic::data d;
    d.id = 0;
    d.fin = true;
    d.buffer = buf(in + head + in + tail + in);
    auto r = conn.recv(quic::event(std::move(d)));
    CHECK(r, "many-server", "recv fails");
    auto gen = std::move(r).value();
    bytes body;
    bool end = false;
    for (int k = 0; k < 20 && !end && gen.next(); k++) {
      auto e = gen.get();
      CHECK(e, "many-server", "unknown frames end in error %llu", (unsigned long long) e.error());
      http3::event ev = std::move(e).value();
      if (ev == http3::event::type::body) body += str(ev.body.buffer);
      end = ev == http3::event::type::finished;
    }
    CHECK(end && body == "end", "many-server", "a request among unknown frames does not arrive");
  }
  {
    http3::client::connection conn;
    quic::data d;
    d.id = 3;
    d.buffer = buf(bytes(1, '\0') + ref::frame_any(ref::SETTINGS, bytes(), g) + in);
    auto r = conn.recv(quic::event(std::move(d)));
    CHECK(r, "many-client", "recv fails");
    auto gen = std::move(r).value();
    CHECK(gen.next(), "many-client", "no settings");
    auto e = gen.get();
    CHECK(e, "many-client", "no settings");
    for (int k = 0; k < 3 && gen.next(); k++) (void) gen.get();
  }
}
void run_case(Ctx &c)
{
  Rng &g = c.rng;
  if (c.idx % 600 == 7) many(c, g);
  codecs(c, g);
  client(c, g);
  server(c, g);
  if (c.idx % 4 == 0) {
    Digest d;
    hostile_connections(d, g);
    c.stat("observations", d.items);
  }
  c.stat("connections", 2);
  c.sample("outcomes " + strf("%016llx", (unsigned long long) c.sig));
}
