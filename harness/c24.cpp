// C24: memory held by a connection is bounded by what is in flight.
#include "alloc.hpp"
#include "session.hpp"
const char *const RULE = "each case runs a history on a client and a server connection (random sessions stopped anywhere; hundreds of messages with completed ones forgotten; a peer's hand-made streams with unknown frames, trailers, huge bodies, floods of empty fragments and of unknown streams), drains what can be drained, and then weighs each connection by what the counting allocator gets back when it is destroyed; the weight is compared with a bound computed from the fragments that still have undecoded bytes, the queued bytes that are not on the wire and the number of unfinished streams; non-trivial: over 5 streams or 10 kB of traffic; distinct by the weights and the schedule";
void harness_init() { base::logger = nullptr; }

static const int64_t BASE = 2048, PER_STREAM = 1024, PER_FRAGMENT = 128, PER_CHUNK = 256, PER_HEADER = 256;

// Offset of the first byte that a drained receiver may still have to keep.
static size_t undecoded(const bytes &b, bool control)
{
  size_t pos = 0;
  uint64_t type, len;
  if (control && !ref::varint_get(b, pos, type)) return 0;
  bool hdone = false;
  for (;;) {
    if (pos == b.size()) return pos;
    size_t p = pos;
    if (!ref::varint_get(b, p, type) || !ref::varint_get(b, p, len)) return pos;
    bool whole = len <= b.size() - p;
    if (!whole) {
      if (control) return pos;
      if (type == ref::DATA || (type == ref::HEADERS && hdone)) return b.size();
      return type == ref::HEADERS ? p : pos;
    }
    if (type == ref::HEADERS) hdone = true;
    pos = p + len;
  }
}
static int64_t rx_bound(const Sent &x, bool control)
{
  size_t u = undecoded(x.data.substr(0, x.delivered), control), from = 0;
  int64_t r = 0;
  for (size_t e : x.ends) {
    if (e > u && e > from) r += (int64_t) (e - from) + PER_FRAGMENT;
    from = e;
  }
  return r;
}
template<typename O> static int64_t tx_bound(const O &o, const Sent *x)
{
  int64_t r = 0;
  Parsed p;
  if (x) p = ref_request(x->data);
  if (!p.hdone)
    for (size_t i = 0; i < o.nh; i++) r += (int64_t) (o.m.hs[i].name.size() + o.m.hs[i].value.size()) * 4 + PER_HEADER;
  size_t at = 0;
  for (size_t i = 0; i < o.nc; i++) {
    at += o.m.chunks[i].size();
    if (o.m.chunks[i].empty()) { if (!x || !x->fin) r += PER_CHUNK; }
    else if (at > p.body.size()) r += (int64_t) o.m.chunks[i].size() + PER_CHUNK;
  }
  return r;
}
template<typename T> static int64_t weigh(std::unique_ptr<T> &c)
{
  int64_t before = alloc::live_bytes;
  c.reset();
  return before - alloc::live_bytes;
}
static void compare(Ctx &c, const char *who, const char *when, int64_t weight, int64_t bound, int64_t in_flight, size_t streams)
{
  CHECK(weight <= bound, "holds-too-much", "%s, %s: holds %lld bytes, with %zu unfinished streams and %lld bytes in flight the bound is %lld", who, when, (long long) weight, streams, (long long) in_flight, (long long) bound);
  CHECK(weight > 0, "weighs-nothing", "%s: the allocator saw nothing", who);
  c.stat("weighings");
  c.stat("bytes-held", (uint64_t) weight);
  c.observe(mix((uint64_t) weight, (uint64_t) bound));
}

struct Bounded : Session {
  uint64_t forgotten = 0, traffic = 0;
  bool forget_completed;
  Bounded(Rng &g, SessionOpts o, bool f) : Session(g, o), forget_completed(f) {}
  bool complete(uint64_t id)
  {
    if (!req.at(id).done() || !res.count(id) || !res.at(id).done()) return false;
    return cw[id].fin_delivered && sw[id].fin_delivered && !sdirty[id] && !cdirty[id];
  }
  void forget()
  {
    for (auto it = req.begin(); it != req.end();) {
      uint64_t id = it->first;
      if (!complete(id)) { it++; continue; }
      CHECK(srx[id].finished && crx[id].finished, "end-lost", "stream %llu drained completely without an end of message", (unsigned long long) id);
      traffic += cw[id].data.size() + sw[id].data.size();
      forgotten++;
      it = req.erase(it);
      res.erase(id); cw.erase(id); sw.erase(id); srx.erase(id); crx.erase(id); sdirty.erase(id); cdirty.erase(id); known.erase(id);
    }
  }
  void before_step() override { if (forget_completed) forget(); }
  void quiet()
  {
    while (drain_some(*s, cw, srx, sdirty, true)) {}
    while (drain_some(*c, sw, crx, cdirty, false)) {}
    forget();
  }
  void weigh_both(Ctx &ctx, const char *when)
  {
    quiet();
    int64_t ct = 0, st = 0;
    for (auto &kv : req) ct += tx_bound(kv.second, cw.count(kv.first) ? &cw[kv.first] : nullptr);
    for (auto &kv : res) if (kv.second.have) st += tx_bound(kv.second, sw.count(kv.first) ? &sw[kv.first] : nullptr);
    for (auto &kv : cw) st += rx_bound(kv.second, kv.first == 2);
    for (auto &kv : sw) ct += rx_bound(kv.second, kv.first == 3);
    size_t cs = req.size(), ss = known.size();
    for (auto &kv : cw) traffic += kv.second.data.size();
    for (auto &kv : sw) traffic += kv.second.data.size();
    int64_t w = weigh(c);
    if (ctx.verbose) printf("client %s: %lld held, in flight %lld, %zu streams\n", when, (long long) w, (long long) ct, cs);
    compare(ctx, "client", when, w, BASE + PER_STREAM * (int64_t) cs + ct, ct, cs);
    w = weigh(s);
    if (ctx.verbose) printf("server %s: %lld held, in flight %lld, %zu streams\n", when, (long long) w, (long long) st, ss);
    compare(ctx, "server", when, w, BASE + PER_STREAM * (int64_t) ss + st, st, ss);
    ctx.stat("streams-forgotten", forgotten);
    ctx.stat("unfinished-streams", cs + ss);
    ctx.stat("traffic-bytes", traffic);
    ctx.stat("in-flight-bytes", (uint64_t) (ct + st));
    ctx.observe(sched);
    if (forgotten + cs > 5 || traffic > 10000) ctx.interesting();
    ctx.sample(strf("%s: %llu messages completed, %zu unfinished, %llu bytes of traffic, %lld in flight", when, (unsigned long long) forgotten, cs + ss, (unsigned long long) traffic, (long long) (ct + st)));
  }
};

// A peer made of the reference encoder; everything drained after each delivery.
template<typename Conn> static void foreign(Ctx &c, std::unique_ptr<Conn> &conn, std::vector<uint64_t> ids, bool server, std::function<void(uint64_t)> respond)
{
  Rng &g = c.rng;
  const char *who = server ? "server" : "client";
  struct S { std::vector<Frag> f; size_t at = 0; Sent sent; Rx rx; };
  std::map<uint64_t, S> ss;
  uint64_t ctl = server ? 2 : 3;
  size_t total = 0;
  for (uint64_t id : ids) {
    Msg m = any_msg(g, 4000);
    if (g.chance(1, 3)) m.chunks.push_back(bytes(20000 + g.below(200000), 'z'));
    bytes b = foreign_stream(m, g);
    if (g.chance(1, 3)) b += ref::frame_any(0x21, bytes(g.below(60000), 'u'), g);
    bool fin = g.chance(2, 3);
    if (!fin) b.resize(g.below(b.size() + 1));
    auto f = fragments(b, fin, g, 20);
    // Large pieces come in packets.
    S &s = ss[id];
    for (auto &x : f) {
      size_t p = 0, mtu = 1 + g.below(3000);
      do {
        size_t n = x.b.size() > 400 ? std::min(mtu, x.b.size() - p) : x.b.size();
        s.f.push_back({ x.b.substr(p, n), x.fin && p + n == x.b.size() });
        p += n;
      } while (p < x.b.size());
    }
    total += b.size();
  }
  ss[ctl].f = fragments(foreign_control(g, nullptr, 6), false, g, 6);
  std::vector<uint64_t> live;
  for (auto &kv : ss) live.push_back(kv.first);
  size_t empties = 0;
  while (!live.empty()) {
    size_t k = g.below(live.size());
    uint64_t id = live[k];
    S &s = ss[id];
    if (g.chance(1, 50)) {
      // A flood of fragments without bytes.
      for (unsigned i = 0; i < 400; i++) { deliver(*conn, s.rx, id, bytes(), false, who); s.sent.ends.push_back(s.sent.delivered); empties++; }
    }
    if (g.chance(1, 60)) {
      // Streams that the library does not know.
      Rx x;
      for (unsigned i = 0; i < 20; i++) deliver(*conn, x, 4 * (1000 + g.below(5)) + (server ? 2 : 3), bytes(1000, 'q'), false, who);
      total += 20000;
    }
    Frag &f = s.f[s.at++];
    deliver(*conn, s.rx, id, f.b, f.fin, who);
    CHECK(!s.rx.error, "recv-error", "%s: legal data on stream %llu causes error %s", who, (unsigned long long) id, ename(s.rx.err));
    s.sent.data += f.b;
    s.sent.delivered += f.b.size();
    s.sent.ends.push_back(s.sent.delivered);
    if (f.fin) s.sent.fin = true;
    if (s.at == s.f.size()) { live.erase(live.begin() + (long) k); if (g.chance(1, 2) && id != ctl) respond(id); }
    if (g.chance(1, 400)) break;
  }
  int64_t in_flight = 0;
  size_t open = 0;
  for (auto &kv : ss) {
    if (kv.second.sent.data.empty() && kv.second.at == 0) continue;
    open++;
    if (!kv.second.sent.fin) in_flight += rx_bound(kv.second.sent, kv.first == ctl);
  }
  if (!server) open = ids.size();
  int64_t w = weigh(conn);
  if (c.verbose) printf("%s from a foreign peer: %lld held, in flight %lld, %zu streams\n", who, (long long) w, (long long) in_flight, open);
  compare(c, who, "foreign peer", w, BASE + PER_STREAM * (int64_t) open + in_flight, in_flight, open);
  c.stat("foreign-streams", ss.size());
  c.stat("empty-fragments", empties);
  c.stat("traffic-bytes", total);
  if (total > 10000) c.interesting();
}

void run_case(Ctx &c)
{
  Rng &g = c.rng;
  SessionOpts o;
  o.rx = false;
  switch (c.idx % 4) {
    case 0: {
      o.steps = 10 + (unsigned) g.below(400);
      o.complete = false;
      o.max_requests = g.chance(1, 3) ? 20 : 5;
      o.max_body = g.chance(1, 3) ? 20000 : 1500;
      Bounded s(g, o, false);
      s.run();
      s.weigh_both(c, "stopped session");
      break;
    }
    case 1: {
      o.complete = false;
      o.moves = g.chance(1, 2);
      o.max_requests = 2 + (unsigned) g.below(4);
      o.steps = g.chance(1, 6) ? 30000 : 4000;
      o.max_body = 600;
      Bounded s(g, o, true);
      s.run();
      s.weigh_both(c, "long history");
      break;
    }
    case 2: {
      o.max_requests = 6;
      Bounded s(g, o, false);
      s.run();
      CHECK((s.quiet(), s.req.empty()), "not-complete", "a completed session is not complete");
      s.weigh_both(c, "completed session");
      break;
    }
    default: {
      std::vector<uint64_t> ids;
      size_t n = 1 + g.below(5);
      for (size_t i = 0; i < n; i++) ids.push_back(4 * i);
      if (g.chance(1, 2)) {
        std::unique_ptr<http3::server::connection> s(new http3::server::connection);
        Wire w;
        std::vector<http3::response::handle> handles;
        foreign(c, s, ids, true, [&](uint64_t id) {
          auto r = s->response(id);
          if (!r) return;
          handles.push_back(std::move(r).value());
          say(handles.back(), Msg{ { { ":status", "200" } }, { bytes(3000, 'r') } });
          while (send_one(*s, w, "server")) {}
        });
      } else {
        std::unique_ptr<http3::client::connection> k(new http3::client::connection);
        Wire w;
        std::vector<http3::request::handle> handles;
        for (size_t i = 0; i < n; i++) {
          handles.push_back(std::move(k->request()).value());
          CHECK(handles[i].header({ ":method", "GET" }) && handles[i].start(), "api-start", "start() refused");
          if (g.chance(1, 2)) CHECK(handles[i].fin(), "api-fin", "fin() refused");
        }
        while (send_one(*k, w, "client")) {}
        foreign(c, k, ids, false, [](uint64_t) {});
      }
    }
  }
}
