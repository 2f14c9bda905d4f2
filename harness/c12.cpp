// C12: handle lifetime.
#include "h3.hpp"
const char *const RULE = "each case is a random history of creating, moving, overwriting, destroying and using request and response handles and client and server connections (several of each), or of the senders behind them, with messages in all stages of completion, checked against a model of which handle is bound to which stream, under AddressSanitizer; non-trivial: at least one operation on an invalidated and one on a live handle; distinct by the operation sequence";
void harness_init() { base::logger = nullptr; }

// The model of one stream's sender.
struct Stream {
  uint64_t id = 0;
  bool alive = true;
  bool started = false, finned = false, sent = false; // sent: everything including the end of the stream
  bool peer_done = false;                              // the other direction is finished
  ref::Headers hs;
  bytes body;
  Sent wire;
  int owner = -1; // index of the handle bound to it, or -1
};
using StreamP = std::shared_ptr<Stream>;

template<typename Conn, typename Handle> struct World {
  static constexpr bool client = std::is_same<Conn, http3::client::connection>::value;
  Ctx &c;
  Rng &g;
  struct Slot { std::unique_ptr<Conn> conn; std::map<uint64_t, StreamP> streams; bool fresh = true; uint64_t next = 0; };
  Slot slots[3];
  struct H { std::unique_ptr<Handle> h; StreamP s; };
  H hs[6];
  uint64_t live_ops = 0, dead_ops = 0, ops = 0;
  unsigned tag = 0;

  World(Ctx &c, Rng &g) : c(c), g(g) {}

  bool bound(int i) const { return hs[i].s && hs[i].s->alive && hs[i].s->owner == i; }
  void unbind(int i)
  {
    if (hs[i].s && hs[i].s->owner == i) hs[i].s->owner = -1;
    hs[i].s.reset();
  }
  void bind(int i, StreamP s)
  {
    unbind(i);
    if (s->owner >= 0) hs[s->owner].s.reset();
    s->owner = i;
    hs[i].s = s;
  }
  void kill(Slot &s)
  {
    for (auto &kv : s.streams) kv.second->alive = false;
    s.streams.clear();
  }
  Slot &live_slot()
  {
    Slot &s = slots[g.below(3)];
    if (!s.conn) {
      s.conn.reset(new Conn);
      s.streams.clear();
      s.next = 0;
    }
    return s;
  }
  // Creates a stream and binds it to handle i.
  void create(int i)
  {
    Slot &s = live_slot();
    if (s.streams.size() >= 5) return;
    uint64_t id = s.next;
    if (client) create_client(s, i);
    else {
      s.next += 4;
      feed_request(s, id);
      auto st = std::make_shared<Stream>();
      st->id = id;
      s.streams[id] = st;
      take(s, id, i);
    }
  }
  void create_client(Slot &s, int i)
  {
    auto r = request(*s.conn);
    Handle h = std::move(r).value();
    auto st = std::make_shared<Stream>();
    st->id = h.id();
    CHECK(h.id() == s.next, "request-id", "request has id %llu instead of %llu", (unsigned long long) h.id(), (unsigned long long) s.next);
    s.next += 4;
    s.streams[st->id] = st;
    assign(i, std::move(h));
    bind(i, st);
  }
  static auto request(http3::client::connection &c) -> decltype(c.request()) { return c.request(); }
  static http3::result<http3::response::handle> request(http3::server::connection &) { return h3err::internal; }
  void feed_request(Slot &s, uint64_t id)
  {
    Rx x;
    deliver(*s.conn, x, id, ref::frame(ref::HEADERS, ref::qpack({ { "a", "b" } }, g)), false, "server");
    CHECK(!x.error && x.hdone, "feed", "request refused");
  }
  void take(Slot &s, uint64_t id, int i) { take_(s, id, i, std::integral_constant<bool, client>()); }
  void take_(Slot &, uint64_t, int, std::true_type) {}
  void take_(Slot &s, uint64_t id, int i, std::false_type)
  {
    StreamP st = s.streams.at(id);
    auto r = s.conn->response(id);
    if (st->sent) {
      CHECK(!r && r.error() == h3err::stream_closed, "response-after-end", "response(%llu) after the response was sent: %s", (unsigned long long) id, r ? "ok" : ename(r.error()));
      return;
    }
    CHECK(r, "api-response", "response(%llu) fails with %s", (unsigned long long) id, ename(r.error()));
    assign(i, std::move(r).value());
    bind(i, st);
  }
  void assign(int i, Handle &&h)
  {
    if (hs[i].h && g.chance(1, 2)) *hs[i].h = std::move(h);
    else {
      std::unique_ptr<Handle> n(new Handle(std::move(h)));
      hs[i].h = std::move(n);
    }
    unbind(i);
  }
  // One operation on a handle.
  void use(int i)
  {
    if (!hs[i].h) return;
    Handle &h = *hs[i].h;
    bool live = bound(i);
    StreamP s = live ? hs[i].s : nullptr;
    if (live) CHECK(h.id() == s->id, "handle-id", "handle of stream %llu says %llu", (unsigned long long) s->id, (unsigned long long) h.id());
    http3::result<void> r = h3err::internal;
    ops++;
    bytes t = strf("%u", tag++);
    unsigned what = (unsigned) g.below(4);
    bool ok = false;
    switch (what) {
      case 0:
        r = h.header({ { "x", 1 }, { t.data(), t.size() } });
        ok = live && !s->started;
        if (ok && r) s->hs.push_back({ "x", t });
        break;
      case 1:
        r = h.body(buf("[" + t + "]" + bytes(g.below(40), 'b')));
        ok = live && !s->finned;
        if (ok && r) s->body += "[" + t + "]";
        break;
      case 2:
        r = h.start();
        ok = live && !s->started && !s->hs.empty();
        if (ok && r) s->started = true;
        break;
      default:
        if (live && s->finned) return; // finishing twice is not specified while data is pending
        r = h.fin();
        ok = live;
        if (ok && r) s->finned = true;
    }
    static const char *const N[] = { "header", "body", "start", "fin" };
    if (!live) {
      dead_ops++;
      CHECK(!r && r.error() == h3err::invalid_handle, "dead-handle", "%s() on a handle that is not bound to a stream: %s", N[what], r ? "ok" : ename(r.error()));
    } else {
      live_ops++;
      CHECK((bool) r == ok, "live-handle", "%s() on the handle of stream %llu: %s", N[what], (unsigned long long) s->id, r ? "ok" : ename(r.error()));
      CHECK(r || r.error() != h3err::invalid_handle, "live-handle", "%s() on the live handle of stream %llu fails with invalid_handle", N[what], (unsigned long long) s->id);
    }
  }
  void send(Slot &s)
  {
    if (!s.conn) return;
    for (uint64_t k = 1 + g.below(6); k--;) {
      auto r = s.conn->send();
      if (!r) {
        CHECK(r.error() == h3err::idle, "send-error", "send() fails with %s", ename(r.error()));
        return;
      }
      quic::event e = std::move(r).value();
      uint64_t id = e.data.id;
      if (id == 2 || id == 3) continue;
      auto it = s.streams.find(id);
      CHECK(it != s.streams.end(), "send-unknown-stream", "data on stream %llu, which this connection does not have", (unsigned long long) id);
      StreamP st = it->second;
      st->wire.data += str(e.data.buffer);
      CHECK(!st->wire.fin, "send-after-fin", "data after the end of stream %llu", (unsigned long long) id);
      st->wire.fin = e.data.fin;
      if (e.data.fin) {
        st->sent = true;
        check_wire(*st);
        maybe_forget(s, st);
      }
    }
  }
  void check_wire(Stream &st)
  {
    Parsed p = ref_request(st.wire.data);
    CHECK(p.bad.empty() && p.boundary, "wire", "stream %llu is not a complete message", (unsigned long long) st.id);
    CHECK(p.hs == st.hs, "cross-stream", "stream %llu carries headers %s instead of %s", (unsigned long long) st.id, ref::show(p.hs).c_str(), ref::show(st.hs).c_str());
    bytes b;
    for (char ch : p.body) if (ch != 'b') b += ch;
    CHECK(b == st.body, "cross-stream", "stream %llu carries body %s instead of %s", (unsigned long long) st.id, b.substr(0, 80).c_str(), st.body.substr(0, 80).c_str());
  }
  void maybe_forget(Slot &s, StreamP st)
  {
    if (!st->sent || !st->peer_done) return;
    st->alive = false;
    s.streams.erase(st->id);
  }
  // The other direction of a stream ends.
  void peer_end(Slot &s)
  {
    if (!s.conn || s.streams.empty()) return;
    auto it = s.streams.begin();
    std::advance(it, (long) g.below(s.streams.size()));
    StreamP st = it->second;
    if (st->peer_done) return;
    if (client && st->wire.data.empty()) return; // no response before the request
    Rx x;
    bytes b = client ? ref::frame(ref::HEADERS, ref::qpack({ { ":status", "200" } }, g)) : bytes();
    quic::data d;
    d.id = st->id;
    d.fin = true;
    d.buffer = buf(b);
    auto r = s.conn->recv(quic::event(std::move(d)));
    CHECK(r, "feed", "legal data refused with %s", ename(r.error()));
    x.hdone = !client;
    drain(r.value(), x, st->id, "peer");
    CHECK(!x.error && x.finished == 1, "feed", "legal end not observed: %s", show(x).c_str());
    st->peer_done = true;
    maybe_forget(s, st);
  }
  void step()
  {
    unsigned what = (unsigned) g.below(20);
    int i = (int) g.below(6), j = (int) g.below(6);
    c.observe(what * 64 + i * 8 + j);
    switch (what) {
      case 0: case 1: create(i); break;
      case 2: // destroy a handle
        hs[i].h.reset();
        unbind(i);
        break;
      case 3: // default-constructed handle
        hs[i].h.reset(new Handle);
        unbind(i);
        break;
      case 4: case 5: // move construction
        if (i != j && hs[i].h) {
          StreamP s = bound(i) ? hs[i].s : nullptr;
          std::unique_ptr<Handle> n(new Handle(std::move(*hs[i].h)));
          unbind(i);
          hs[j].h = std::move(n);
          unbind(j);
          if (s) bind(j, s);
        }
        break;
      case 6: case 7: // move assignment, also onto itself
        if (hs[i].h && hs[j].h) {
          StreamP s = bound(i) ? hs[i].s : nullptr;
          Handle &a = *hs[j].h;
          a = std::move(*hs[i].h);
          if (i != j) {
            unbind(i);
            unbind(j);
            if (s) bind(j, s);
          }
        }
        break;
      case 8: { // move a connection into a new object or over another one
        Slot &a = slots[g.below(3)], &b = slots[g.below(3)];
        if (&a == &b || !a.conn) break;
        if (b.conn && g.chance(2, 3)) {
          kill(b);
          *b.conn = std::move(*a.conn);
          if (g.chance(1, 2)) a.conn.reset();
        } else {
          std::unique_ptr<Conn> n(new Conn(std::move(*a.conn)));
          kill(b);
          b.conn = std::move(n);
          a.conn.reset();
        }
        b.streams = std::move(a.streams);
        a.streams.clear();
        b.next = a.next;
        a.conn.reset(); // a moved-from connection is only good for destruction
        break;
      }
      case 9: { // destroy a connection
        Slot &s = slots[g.below(3)];
        if (g.chance(1, 3)) {
          s.conn.reset();
          kill(s);
        }
        break;
      }
      case 10: case 11: send(slots[g.below(3)]); break;
      case 12: peer_end(slots[g.below(3)]); break;
      case 13: { // another response handle for the same stream
        Slot &s = slots[g.below(3)];
        if (client || !s.conn || s.streams.empty()) break;
        auto it = s.streams.begin();
        std::advance(it, (long) g.below(s.streams.size()));
        take(s, it->first, i);
        break;
      }
      case 14: { // a response handle for a stream nobody knows
        Slot &s = slots[g.below(3)];
        if (client || !s.conn) break;
        unknown(s);
        break;
      }
      default: use(i);
    }
  }
  void unknown(Slot &s) { unknown_(s, std::integral_constant<bool, client>()); }
  void unknown_(Slot &, std::true_type) {}
  void unknown_(Slot &s, std::false_type)
  {
    uint64_t id = 4 * g.below(12);
    if (s.streams.count(id)) return;
    auto r = s.conn->response(id);
    CHECK(!r && r.error() == h3err::stream_closed, "response-unknown", "response(%llu) for an unknown stream: %s", (unsigned long long) id, r ? "ok" : ename(r.error()));
  }
  void run()
  {
    unsigned n = 60 + (unsigned) g.below(c.thorough ? 900 : 300);
    for (unsigned k = 0; k < n; k++) step();
    // Complete what is left and compare what every stream carries.
    for (auto &s : slots) {
      if (!s.conn) continue;
      std::map<uint64_t, StreamP> left = s.streams;
      for (auto &kv : left) {
        StreamP st = kv.second;
        int o = st->owner;
        if (o < 0) continue;
        Handle &h = *hs[o].h;
        if (!st->started) {
          if (st->hs.empty()) { CHECK(h.header({ "x", "y" }), "live-handle", "header() refused"); st->hs.push_back({ "x", "y" }); }
          CHECK(h.start(), "live-handle", "start() refused");
          st->started = true;
        }
        if (!st->finned) { CHECK(h.fin(), "live-handle", "fin() refused"); st->finned = true; }
      }
      for (int k = 0; k < 400; k++) send(s);
      for (auto &kv : left) if (kv.second->started && kv.second->finned) CHECK(kv.second->sent, "unsent", "stream %llu was never completely sent", (unsigned long long) kv.first);
    }
    // Tear down in random order.
    for (int k = 0; k < 9; k++) {
      unsigned w = (unsigned) g.below(9);
      if (w < 6) { hs[w].h.reset(); unbind((int) w); }
      else { slots[w - 6].conn.reset(); kill(slots[w - 6]); }
      use((int) g.below(6));
    }
    c.stat("operations", ops);
    c.stat("operations-on-live-handles", live_ops);
    c.stat("operations-on-dead-handles", dead_ops);
    if (live_ops && dead_ops) c.interesting();
    c.sample(strf("%s: %llu operations on live and %llu on dead handles", client ? "client" : "server", (unsigned long long) live_ops, (unsigned long long) dead_ops));
  }
};

// The senders themselves: a sender that is moved, overwritten or destroyed
// takes its handle along, or invalidates it.
template<typename Sender, typename Handle> struct Senders {
  Ctx &c;
  Rng &g;
  struct S { std::unique_ptr<Sender> p; StreamP s; bool moved = false; };
  struct H { std::unique_ptr<Handle> p; StreamP s; };
  S ss[4];
  H hs[5];
  uint64_t next = 0, live_ops = 0, dead_ops = 0, overwritten = 0;
  unsigned tag = 0;
  Senders(Ctx &c, Rng &g) : c(c), g(g) {}
  bool bound(int i) const { return hs[i].s && hs[i].s->alive && hs[i].s->owner == i; }
  void unbind(int i)
  {
    if (hs[i].s && hs[i].s->owner == i) hs[i].s->owner = -1;
    hs[i].s.reset();
  }
  void bind(int i, StreamP s)
  {
    unbind(i);
    if (s->owner >= 0) hs[s->owner].s.reset();
    s->owner = i;
    hs[i].s = s;
  }
  static void kill(S &s)
  {
    if (s.s) s.s->alive = false;
    s.s.reset();
  }
  void use(int i)
  {
    if (!hs[i].p) return;
    Handle &h = *hs[i].p;
    bool live = bound(i);
    StreamP s = live ? hs[i].s : nullptr;
    if (live) CHECK(h.id() == s->id, "handle-id", "handle of sender %llu says %llu", (unsigned long long) s->id, (unsigned long long) h.id());
    bytes t = strf("%u", tag++);
    unsigned what = (unsigned) g.below(4);
    http3::result<void> r = h3err::internal;
    bool ok = false;
    switch (what) {
      case 0:
        r = h.header({ { "x", 1 }, { t.data(), t.size() } });
        ok = live && !s->started;
        if (ok) s->hs.push_back({ "x", t });
        break;
      case 1:
        r = h.body(buf("[" + t + "]"));
        ok = live && !s->finned;
        if (ok) s->body += "[" + t + "]";
        break;
      case 2:
        r = h.start();
        ok = live && !s->started && !s->hs.empty();
        if (ok) s->started = true;
        break;
      default:
        if (live && s->finned) return;
        r = h.fin();
        ok = live;
        if (ok) s->finned = true;
    }
    (live ? live_ops : dead_ops)++;
    static const char *const N[] = { "header", "body", "start", "fin" };
    if (!live) CHECK(!r && r.error() == h3err::invalid_handle, "dead-handle", "%s() on a handle that is not bound to a sender: %s", N[what], r ? "ok" : ename(r.error()));
    else CHECK((bool) r == ok, "live-handle", "%s() on the handle of sender %llu: %s", N[what], (unsigned long long) s->id, r ? "ok" : ename(r.error()));
  }
  void send(S &s)
  {
    if (!s.p || s.moved || s.s->sent) return;
    CHECK(!s.p->finished(), "sender-finished", "sender %llu is finished before all was sent", (unsigned long long) s.s->id);
    auto r = s.p->send();
    if (!r) {
      CHECK(r.error() == h3err::idle, "send-error", "send() of sender %llu fails with %s", (unsigned long long) s.s->id, ename(r.error()));
      return;
    }
    quic::event e = std::move(r).value();
    CHECK(e.data.id == s.s->id, "sender-id", "sender %llu sends on stream %llu", (unsigned long long) s.s->id, (unsigned long long) e.data.id);
    s.s->wire.data += str(e.data.buffer);
    s.s->wire.fin = e.data.fin;
    s.s->sent = e.data.fin;
    CHECK(s.p->finished() == s.s->sent, "sender-finished", "sender %llu %s after %s", (unsigned long long) s.s->id, s.p->finished() ? "is finished" : "is not finished", s.s->sent ? "its end was sent" : "a part was sent");
    if (s.s->sent) check(*s.s);
  }
  void check(Stream &st)
  {
    Parsed p = ref_request(st.wire.data);
    CHECK(p.bad.empty() && p.boundary, "wire", "sender %llu does not send a complete message", (unsigned long long) st.id);
    CHECK(p.hs == st.hs, "cross-stream", "sender %llu sends headers %s instead of %s", (unsigned long long) st.id, ref::show(p.hs).c_str(), ref::show(st.hs).c_str());
    CHECK(p.body == st.body, "cross-stream", "sender %llu sends body %s instead of %s", (unsigned long long) st.id, p.body.substr(0, 80).c_str(), st.body.substr(0, 80).c_str());
  }
  void step()
  {
    unsigned what = (unsigned) g.below(20);
    int i = (int) g.below(4), j = (int) g.below(4), h = (int) g.below(5), k = (int) g.below(5);
    c.observe(what * 1024 + i * 256 + j * 64 + h * 8 + k);
    S &a = ss[i], &b = ss[j];
    switch (what) {
      case 0: case 1: { // a new sender
        kill(a);
        a.p.reset(new Sender(next));
        a.s = std::make_shared<Stream>();
        a.s->id = next;
        a.moved = false;
        next += 4;
        break;
      }
      case 2: // destroy
        a.p.reset();
        kill(a);
        break;
      case 3: case 4: // move into a new sender
        if (i == j || !a.p || a.moved) break;
        {
          std::unique_ptr<Sender> n(new Sender(std::move(*a.p)));
          kill(b);
          b.p = std::move(n);
          b.s = a.s;
          b.moved = false;
          a.s.reset();
          a.moved = true;
        }
        break;
      case 5: case 6: case 7: // move over another sender or itself
        if (!a.p || a.moved || !b.p) break;
        *b.p = std::move(*a.p);
        if (i == j) break;
        overwritten++;
        kill(b);
        b.s = a.s;
        b.moved = false;
        a.s.reset();
        a.moved = true;
        if (g.chance(1, 2)) a.p.reset();
        break;
      case 8: case 9: case 10: // take a handle
        if (!a.p || a.moved) break;
        if (hs[h].p && g.chance(1, 2)) *hs[h].p = Handle(a.p.get());
        else hs[h].p.reset(new Handle(a.p.get()));
        bind(h, a.s);
        break;
      case 11: // move a handle
        if (!hs[h].p || !hs[k].p) break;
        {
          StreamP s = bound(h) ? hs[h].s : nullptr;
          Handle &t = *hs[k].p;
          t = std::move(*hs[h].p);
          if (h != k) {
            unbind(h);
            unbind(k);
            if (s) bind(k, s);
          }
        }
        break;
      case 12:
        hs[h].p.reset();
        unbind(h);
        break;
      case 13: case 14: send(a); break;
      default: use(h);
    }
  }
  void run()
  {
    unsigned n = 60 + (unsigned) g.below(300);
    for (unsigned k = 0; k < n; k++) step();
    for (auto &s : ss) {
      if (!s.p || s.moved) continue;
      // The last handle of each sender completes the message.
      int h = s.s->owner;
      if (h < 0) {
        h = 4;
        hs[h].p.reset(new Handle(s.p.get()));
        bind(h, s.s);
      }
      Handle &hd = *hs[h].p;
      if (!s.s->started) {
        if (s.s->hs.empty()) { CHECK(hd.header({ "x", "y" }), "live-handle", "header() refused"); s.s->hs.push_back({ "x", "y" }); }
        CHECK(hd.start(), "live-handle", "start() refused");
        s.s->started = true;
      }
      if (!s.s->finned) { CHECK(hd.fin(), "live-handle", "fin() refused"); s.s->finned = true; }
      for (int k = 0; k < 400 && !s.s->sent; k++) send(s);
      CHECK(s.s->sent, "unsent", "sender %llu never sent everything", (unsigned long long) s.s->id);
    }
    for (int k = 0; k < 9; k++) {
      unsigned w = (unsigned) g.below(9);
      if (w < 5) { hs[w].p.reset(); unbind((int) w); }
      else { ss[w - 5].p.reset(); kill(ss[w - 5]); }
      use((int) g.below(5));
    }
    c.stat("operations-on-live-handles", live_ops);
    c.stat("operations-on-dead-handles", dead_ops);
    c.stat("senders-overwritten", overwritten);
    if (live_ops && dead_ops) c.interesting();
    c.sample(strf("senders: %llu overwritten, %llu operations on live and %llu on dead handles", (unsigned long long) overwritten, (unsigned long long) live_ops, (unsigned long long) dead_ops));
  }
};

void run_case(Ctx &c)
{
  if (c.rng.chance(1, 6)) {
    if (c.idx & 1) return Senders<http3::client::stream::request::sender, http3::request::handle>(c, c.rng).run();
    return Senders<http3::server::stream::request::sender, http3::response::handle>(c, c.rng).run();
  }
  if (c.idx & 1) World<http3::client::connection, http3::request::handle>(c, c.rng).run();
  else World<http3::server::connection, http3::response::handle>(c, c.rng).run();
}
