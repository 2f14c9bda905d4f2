// Histories and messages that are large: tens of thousands of requests on one
// connection, hundreds at a time, header blocks and bodies of megabytes, and any
// stream id. The monitors compare each message once, when it is complete.
#pragma once
#include "session.hpp"

// One part of the message is far larger than usual.
static inline Msg large_msg(Rng &g)
{
  Msg m = any_msg(g, 300);
  switch (g.below(6)) {
    case 0: { // a long value, text or not
      size_t n = g.chance(1, 2) ? 16000 + g.below(1000) : 60000 + g.below(120000);
      m.hs.insert(m.hs.begin() + (long) g.below(m.hs.size() + 1), { "x-large", g.chance(1, 2) ? bytes(n, (char) ('a' + g.below(26))) : big_raw(g, n) });
      break;
    }
    case 1: m.hs.push_back({ bytes(10000 + g.below(70000), (char) ('a' + g.below(26))), any_bytes(g, 40) }); break;
    case 2: { // many lines
      size_t n = 250 + g.below(g.chance(1, 3) ? 4000 : 300);
      m.hs = any_headers(g, 3, 40);
      while (m.hs.size() < n) m.hs.push_back(any_header(g, 40));
      break;
    }
    case 3: m.chunks.push_back(big_raw(g, 65400 + g.below(300))); break;
    case 4: m.chunks.insert(m.chunks.begin() + (long) g.below(m.chunks.size() + 1), big_raw(g, 100000 + g.below(g.chance(1, 4) ? 3000000 : 300000))); break;
    default: // many parts
      for (size_t n = 200 + g.below(600); n-- > 0;) m.chunks.push_back(any_bytes(g, 30));
  }
  return m;
}

struct Scale {
  Ctx &ctx;
  Rng &g;
  http3::client::connection c;
  http3::server::connection s;
  struct Exchange {
    Msg q, r;
    bool answered = false;
    Sent cs, ss;
    Rx srx, crx;
    http3::request::handle h;
  };
  std::map<uint64_t, Exchange> open;
  Sent control[2]; // client, server
  Rx control_rx[2];
  uint64_t made = 0, done = 0, events = 0, bytes_moved = 0, last_id = 0;
  bool one_piece = true;
  std::vector<std::pair<uint64_t, http3::response::handle>> held;

  explicit Scale(Ctx &c) : ctx(c), g(c.rng) {}

  void request(Msg m)
  {
    auto r = c.request();
    CHECK(r, "api-request", "request() fails with %s", ename(r.error()));
    uint64_t id = r.value().id();
    CHECK(id == 4 * made, "request-id", "request %llu has stream id %llu", (unsigned long long) made, (unsigned long long) id);
    Exchange &x = open[id];
    x.q = std::move(m);
    x.h = std::move(r).value();
    CHECK(x.h.id() == id, "handle-id", "the handle of stream %llu says %llu", (unsigned long long) id, (unsigned long long) x.h.id());
    say(x.h, x.q);
    made++;
    last_id = id;
  }

  // Everything one side has to send goes to the other side in pieces.
  template<typename From, typename To> void pump(From &from, To &to, bool client)
  {
    const char *who = client ? "client" : "server", *whom = client ? "server" : "client";
    for (;;) {
      auto r = from.send();
      if (!r) {
        CHECK(r.error() == h3err::idle, "send-error", "%s: send() fails with %s", who, ename(r.error()));
        return;
      }
      quic::event e = std::move(r).value();
      CHECK(e == quic::event::type::data, "send-not-data", "%s: send() returned something other than data", who);
      uint64_t id = e.data.id;
      bool ctl = id == (client ? 2u : 3u);
      CHECK(ctl || open.count(id), "send-unknown-stream", "%s: data on stream %llu, which is not a message", who, (unsigned long long) id);
      Sent &w = ctl ? control[client ? 0 : 1] : client ? open[id].cs : open[id].ss;
      Rx &x = ctl ? control_rx[client ? 0 : 1] : client ? open[id].srx : open[id].crx;
      CHECK(!w.fin, "send-after-fin", "%s: data on stream %llu after its end", who, (unsigned long long) id);
      bytes b = str(e.data.buffer);
      w.data += b;
      w.fin = e.data.fin;
      bytes_moved += b.size();
      if (one_piece || b.size() < 2) {
        deliver(to, x, id, b, w.fin, whom);
      } else {
        size_t pos = 0, mtu = 1 + b.size() / 150 + g.below(g.chance(1, 2) ? 1500 : 20000);
        do {
          size_t n = std::min(mtu, b.size() - pos);
          deliver(to, x, id, b.substr(pos, n), w.fin && pos + n == b.size(), whom);
          pos += n;
        } while (pos < b.size());
      }
      CHECK(!x.error, "recv-error", "%s: legal data on stream %llu causes error %s", whom, (unsigned long long) id, ename(x.err));
      if (!ctl && client && x.hdone && !open[id].answered) {
        open[id].answered = true;
        auto h = s.response(id);
        CHECK(h, "api-response", "response(%llu) fails with %s", (unsigned long long) id, ename(h.error()));
        CHECK(h.value().id() == id, "handle-id", "the handle of stream %llu says %llu", (unsigned long long) id, (unsigned long long) h.value().id());
        held.emplace_back(id, std::move(h).value());
      }
    }
  }
  void answer(size_t k)
  {
    uint64_t id = held[k].first;
    say(held[k].second, open.at(id).r);
    held[k] = std::move(held.back());
    held.pop_back();
  }
  void check(uint64_t id, const Sent &w, const Rx &x, const Msg &m, const char *from, const char *to)
  {
    unsigned long long n = id;
    CHECK(w.fin, "idle-fin", "%s: idle, the message on stream %llu is finished but the stream did not end", from, n);
    Parsed p = check_request_wire(id, w, from);
    CHECK(p.hdone && p.hs == m.hs, "wire-headers", "%s: the %zu headers of stream %llu are %zu others on the wire", from, m.hs.size(), n, p.hs.size());
    CHECK(p.body == m.body(), "wire-body", "%s: the body of stream %llu has %zu bytes, on the wire %zu (or others)", from, n, m.body().size(), p.body.size());
    CHECK(x.hdone && x.hs == m.hs, "headers-lost", "%s: stream %llu: received %zu headers for %zu (or others)", to, n, x.hs.size(), m.hs.size());
    CHECK(x.body == m.body(), "body-lost", "%s: stream %llu: received %zu body bytes for %zu (or others)", to, n, x.body.size(), m.body().size());
    CHECK(x.finished == 1, "end-lost", "%s: stream %llu: %u ends of message", to, n, x.finished);
    events += x.events;
  }
  void settle()
  {
    pump(c, s, true);
    pump(s, c, false);
    for (auto it = open.begin(); it != open.end();) {
      Exchange &x = it->second;
      if (!x.answered || !x.srx.finished) fail("request-lost", "server: idle, but stream %llu did not arrive", (unsigned long long) it->first);
      bool waits = false;
      for (auto &h : held) waits = waits || h.first == it->first;
      if (waits) { it++; continue; }
      check(it->first, x.cs, x.srx, x.q, "client", "server");
      check(it->first, x.ss, x.crx, x.r, "server", "client");
      it = open.erase(it);
      done++;
    }
  }
  static Msg tiny(Rng &g)
  {
    Msg m;
    m.hs = any_headers(g, 2, 12);
    if (g.chance(1, 2)) m.chunks.push_back(any_bytes(g, 20));
    return m;
  }
  void finish()
  {
    while (!held.empty()) answer(g.below(held.size()));
    settle();
    CHECK(open.empty(), "request-lost", "%zu exchanges never complete", open.size());
    Wire w;
    w[2] = control[0];
    check_control_wire(w, true, true, "client");
    w.clear();
    w[3] = control[1];
    check_control_wire(w, false, true, "server");
    CHECK(control_rx[0].settings == 1 && control_rx[1].settings == 1, "settings-count", "settings observed %u and %u times", control_rx[0].settings, control_rx[1].settings);
    ctx.stat("messages", 2 * done);
    ctx.stat("events-observed", events);
    ctx.stat("large-bytes", bytes_moved);
    ctx.observe(done);
    ctx.observe(bytes_moved);
    ctx.interesting();
    ctx.sample(strf("%llu exchanges, last stream id %llu, %llu bytes", (unsigned long long) done, (unsigned long long) last_id, (unsigned long long) bytes_moved));
  }
  // Stream ids of more than 16 bits.
  void many()
  {
    uint64_t total = 16500 + g.below(2000);
    size_t window = 1 + g.below(20);
    while (made < total) {
      size_t n = 1 + g.below(window);
      while (n-- > 0 && open.size() < 40) {
        request(tiny(g));
        open[last_id].r = tiny(g);
      }
      pump(c, s, true);
      while (!held.empty() && (held.size() > window || g.chance(3, 4))) answer(g.below(held.size()));
      settle();
    }
    ctx.stat("large-histories");
    finish();
  }
  // Hundreds of streams at the same time.
  void wide()
  {
    for (int round = 0; round < 2; round++) {
      size_t n = 300 + g.below(500);
      for (size_t i = 0; i < n; i++) {
        request(tiny(g));
        open[last_id].r = tiny(g);
      }
      pump(c, s, true);
      while (!held.empty()) {
        answer(g.below(held.size()));
        if (g.chance(1, 100)) settle();
      }
      settle();
      ctx.stat("streams-at-once", n);
    }
    finish();
  }
  void large()
  {
    one_piece = false;
    for (size_t n = 1 + g.below(3); n-- > 0;) {
      request(g.chance(1, 2) ? large_msg(g) : tiny(g));
      open[last_id].r = g.chance(2, 3) ? large_msg(g) : tiny(g);
    }
    pump(c, s, true);
    while (!held.empty()) answer(g.below(held.size()));
    ctx.stat("large-messages", open.size());
    finish();
  }
};

// Requests of another client on any stream ids, and the responses to them.
static inline void any_stream_ids(Ctx &ctx)
{
  Rng &g = ctx.rng;
  http3::server::connection s;
  struct X {
    Msg q, r;
    Rx rx;
    Sent sent;
    std::vector<Frag> f;
    size_t at = 0;
    http3::response::handle h;
  };
  std::map<uint64_t, X> xs;
  std::vector<uint64_t> live;
  for (size_t n = 1 + g.below(12); n-- > 0;) {
    uint64_t id = g.chance(1, 3) ? ((1ULL << 62) - 4 - 4 * g.below(6)) : g.chance(1, 3) ? (1ULL << (2 + g.below(60))) + 4 * g.below(3) : any_varint(g);
    id &= ~3ULL & ((1ULL << 62) - 1);
    if (xs.count(id)) continue;
    X &x = xs[id];
    x.q = any_msg(g, 200);
    x.r = any_msg(g, 200);
    x.f = fragments(foreign_stream(x.q, g), true, g);
    live.push_back(id);
  }
  Wire w;
  auto send = [&] {
    while (send_one(s, w, "server")) {}
    for (auto &o : w) CHECK(o.first == 3 || xs.count(o.first), "send-unknown-stream", "server: data on stream %llu, which is not a message", (unsigned long long) o.first);
  };
  while (!live.empty()) {
    size_t k = g.below(live.size());
    uint64_t id = live[k];
    X &x = xs[id];
    Frag &f = x.f[x.at++];
    deliver(s, x.rx, id, f.b, f.fin, "server");
    CHECK(!x.rx.error, "recv-error", "server: legal data on stream %llu causes error %s", (unsigned long long) id, ename(x.rx.err));
    if (x.at < x.f.size()) continue;
    live.erase(live.begin() + (long) k);
    auto h = s.response(id);
    CHECK(h, "api-response", "response(%llu) fails with %s", (unsigned long long) id, ename(h.error()));
    x.h = std::move(h).value();
    CHECK(x.h.id() == id, "handle-id", "the handle of stream %llu says %llu", (unsigned long long) id, (unsigned long long) x.h.id());
    say(x.h, x.r);
    if (g.chance(1, 2)) send();
  }
  send();
  for (auto &e : xs) {
    unsigned long long id = e.first;
    X &x = e.second;
    CHECK(x.rx.hs == x.q.hs && x.rx.hdone && x.rx.body == x.q.body() && x.rx.finished == 1, "headers-lost", "server: stream %llu: %s for %s and %zu bytes", id, show(x.rx).c_str(), ref::show(x.q.hs).c_str(), x.q.body().size());
    Parsed p = check_request_wire(e.first, w[e.first], "server");
    CHECK(w[e.first].fin && p.hs == x.r.hs && p.body == x.r.body(), "wire-headers", "server: the response on stream %llu is not on the wire", id);
    ctx.observe(e.first);
  }
  ctx.stat("any-stream-ids", xs.size());
  ctx.interesting();
}

static inline void scale_case(Ctx &c, uint64_t kind)
{
  if (kind == 0) return any_stream_ids(c);
  Scale x(c);
  switch (kind) {
    case 1: return x.large();
    case 2: return x.wide();
    default: x.many();
  }
}
