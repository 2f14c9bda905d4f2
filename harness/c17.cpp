// C17: QUIC streams of the client: what is added is sent, once, intact.
#include "quicx.hpp"
const char *const RULE = "each case runs a client connection on the scripted QUIC engine: a handshake delivered in pieces while data is added to up to eight streams, in some cases to hundreds (chunks of 0 to 5000 bytes, in some cases up to 1260000, ends with and without data), packets are asked for while the engine is congested, blocked by flow control or by stream limits, takes parts of what is offered, repeats what is not acknowledged, and acknowledges; the peer sends data, ends, resets (on streams of any id) and damaged packets meanwhile; non-trivial: some stream was sent completely; distinct by everything sent";
void harness_init() { base::logger = nullptr; }

namespace {

struct Out {
  bytes added;
  bool fin = false;
  bool closed = false;
};

struct In {
  uint64_t offset = 0;
  bool fin = false;
};

struct Want {
  int kind; // 0 data, 1 reset, 2 failure
  uint64_t id = 0, value = 0;
  bool fin = false;
  bytes data;
};

struct Run {
  Ctx &c;
  Rng &g;
  Quic q;
  std::map<uint64_t, Out> out;
  std::map<uint64_t, In> in;
  std::deque<Want> want;
  uint64_t next[2] = { 0, 2 };
  std::vector<uint64_t> skipped[2];
  size_t most = 8; // streams
  bool large = false;
  std::vector<uint64_t> peers{ 0, 3, 4, 7, 8, 11, 1, 5 };

  explicit Run(Ctx &c)
    : c(c)
    , g(c.rng)
    , q(any_script(c.rng), quic::params(), quic::path(v4("\x7f\x01\x02\x03", 1), v4("\x0a\x01\x02\x03", 2)), "example.org")
  {
    q.e->pol.rng.seed(g.next());
    if (g.chance(1, 10)) most = 20 + g.below(g.chance(1, 8) ? 1500 : 300);
    large = g.chance(1, 30);
    // The ids start beyond 16 bits, or end there.
    if (g.chance(1, 150))
      for (auto &n : next) n += 4 * (16000 + g.below(2000));
    if (g.chance(1, 3))
      for (auto &id : peers) id = g.chance(1, 2) ? any_varint(g) : g.below(1 << 20);
  }

  void hostile()
  {
    fake::policy &p = q.e->pol;
    auto pct = [&] { return g.chance(1, 2) ? 0u : (unsigned) g.below(70); };
    p.partial = pct();
    p.congested = pct();
    p.datablocked = pct();
    p.nodata = pct();
    p.retransmit = pct();
    p.bidi = g.chance(1, 2) ? UINT64_MAX : g.below(4);
    p.uni = g.chance(1, 2) ? UINT64_MAX : g.below(4);
    credits();
  }

  // A stream gets its credit before it is opened: the engine keeps it.
  void credits()
  {
    for (auto &o : out) {
      uint64_t have = q.e->out.count(o.first) ? q.e->out[o.first].written : 0;
      (void) have;
      q.e->out[o.first].credit = g.chance(1, 2) ? UINT64_MAX : g.below(3000);
    }
  }

  void permissive()
  {
    fake::policy &p = q.e->pol;
    p.partial = p.congested = p.datablocked = p.nodata = p.idblocked = p.retransmit = 0;
    p.bidi = p.uni = UINT64_MAX;
    for (auto &o : q.e->out) o.second.credit = UINT64_MAX;
  }

  void add()
  {
    uint64_t id;
    std::vector<uint64_t> open;
    for (auto &o : out)
      if (!o.second.fin && !o.second.closed) open.push_back(o.first);
    if (open.empty() || (out.size() < most && g.chance(most > 8 ? 9 : 3, most > 8 ? 10 : 9))) {
      if (out.size() >= most) return;
      // HTTP/3 requests start in any order.
      unsigned t = (unsigned) g.below(2);
      if (!skipped[t].empty() && g.chance(1, 2)) {
        id = skipped[t].back();
        skipped[t].pop_back();
      } else {
        for (; g.chance(1, 6); next[t] += 4) skipped[t].push_back(next[t]);
        id = next[t];
        next[t] += 4;
      }
    } else
      id = g.pick(open);
    Out &o = out[id];
    size_t n = g.chance(1, 5) ? 0 : g.chance(1, 2) ? 1 + g.below(24) : g.chance(1, 8) ? 1 + g.below(5000) : 1 + g.below(300);
    if (large && g.chance(1, 6)) n = 60000 + g.below(g.chance(1, 6) ? 1200000 : 140000);
    if (n > 0x40000) c.stat("huge-chunks");
    // Equal chunks must not be mistaken for each other.
    bytes b = g.chance(1, 3) ? bytes(n, 'x') : any_raw(g, n);
    bool fin = g.chance(1, 4);
    quic::data d;
    d.id = id;
    d.fin = fin;
    d.buffer = buf(b);
    auto r = q.c->add(quic::event(std::move(d)));
    CHECK(r, "add-failed", "adding %zu bytes to stream %llu failed: %s", n, (unsigned long long) id, qname(r.error()));
    o.added += b;
    o.fin |= fin;
    c.stat("chunks-added");
    if (fin && n == 0) c.stat("ends-without-data");
  }

  void compare()
  {
    for (auto &e : q.e->out) {
      unsigned long long id = e.first;
      auto it = out.find(e.first);
      bytes sent = str(e.second.all);
      if (it == out.end()) {
        // Opening a stream opens those below it.
        CHECK(!e.second.opened || (!out.empty() && (id < next[0] || id < next[1])), "stream", "stream %llu was opened without data", id);
        CHECK(sent.empty() && !e.second.fin, "stream", "stream %llu carries %zu bytes that nobody added", id, sent.size());
        continue;
      }
      const Out &o = it->second;
      CHECK(sent.size() <= o.added.size() && o.added.compare(0, sent.size(), sent) == 0, "stream-data", "stream %llu carries %s, added was %s", id, hex(sent).c_str(), hex(o.added).c_str());
      if (e.second.fin) CHECK(o.fin && sent.size() == o.added.size(), "early-end", "stream %llu was ended after %zu of %zu bytes%s", id, sent.size(), o.added.size(), o.fin ? "" : " without having been ended");
    }
  }

  bool blocked(uint64_t id)
  {
    fake::outgoing &o = q.e->out[id];
    if (!o.opened) {
      uint64_t n = id & 2 ? q.e->pol.uni : q.e->pol.bidi;
      return id / 4 >= n;
    }
    return o.credit == 0 && o.written < out[id].added.size();
  }

  // The connection has nothing to send: nothing that can be sent is left.
  void idle()
  {
    if (!q.done()) return;
    fake::policy &p = q.e->pol;
    if (p.congested || p.datablocked) return; // It may have been told to wait.
    for (auto &s : out) {
      fake::outgoing &o = q.e->out[s.first];
      bool pending = !s.second.closed && (o.written < s.second.added.size() || (s.second.fin && !o.fin));
      if (!pending) continue;
      if (blocked(s.first)) {
        c.stat("blocked-streams-left");
        continue;
      }
      fail("unsent", "send() is idle but stream %llu has %zu bytes%s to send", (unsigned long long) s.first, s.second.added.size() - (size_t) o.written, s.second.fin && !o.fin ? " and its end" : "");
    }
    c.stat("idle-states-checked");
  }

  // Asks for packets until there are none, or some.
  void send(bool all)
  {
    bool open = q.done();
    uint64_t limit = all ? 100000 : 1 + g.below(20);
    for (uint64_t i = 0; i < limit; i++) {
      if (!q.send()) {
        compare();
        idle();
        if (open) c.stat("idle");
        return;
      }
      c.stat("packets");
    }
    CHECK(!all, "endless", "send() returned %llu packets and is still not idle", (unsigned long long) limit);
    compare();
  }

  fake::frame frame(char kind, uint64_t id = 0, uint64_t offset = 0)
  {
    fake::frame f;
    f.kind = kind;
    f.id = id;
    f.offset = offset;
    return f;
  }

  void receive()
  {
    std::vector<fake::frame> fs;
    bool failing = false;
    for (size_t i = 0, n = 1 + g.below(4); i < n; i++) {
      fake::frame f;
      switch (g.below(q.done() ? 8 : 2)) {
        case 0:
        case 1:
          if (q.peer(g, f)) fs.push_back(f);
          break;
        case 2: { // handshake data is acknowledged
          f = frame('K', 0, 1 + g.below(800));
          f.level = (uint8_t) g.below(2);
          fs.push_back(f);
          break;
        }
        case 3:
        case 4: {
          if (out.empty()) break;
          auto it = out.begin();
          std::advance(it, (long) g.below(out.size()));
          if (!q.e->out[it->first].opened || it->second.closed) break;
          fs.push_back(frame('A', it->first, g.chance(1, 2) ? UINT64_MAX : 1 + g.below(2000)));
          if (g.chance(1, 2)) fs.insert(fs.end() - (long) g.below(2), frame('Z', it->first));
          c.stat("acknowledgements");
          break;
        }
        case 5:
        case 6: { // data of the peer
          uint64_t id = g.pick(peers);
          In &s = in[id];
          if (s.fin) break;
          f = frame('S', id, s.offset);
          size_t k = g.chance(1, 4) ? 0 : 1 + g.below(g.chance(1, 2) ? 20 : 1200);
          f.data = vec(any_raw(g, k));
          f.flags = g.chance(1, 5) ? 1 : 0;
          s.offset += k;
          s.fin = f.flags;
          fs.push_back(f);
          Want w{ 0, id };
          w.fin = s.fin;
          w.data = str(f.data);
          want.push_back(w);
          c.stat("received-fragments");
          break;
        }
        default: {
          if (!g.chance(1, 3)) break;
          uint64_t id = g.pick(peers);
          Want w{ 1, id };
          w.value = any_varint(g);
          fs.push_back(frame('R', id, w.value));
          want.push_back(w);
          c.stat("resets");
          break;
        }
      }
    }
    if (g.chance(1, 12) && q.done()) {
      fs.push_back(frame('!'));
      failing = true;
      want.push_back(Want{ 2 });
      c.stat("bad-packets");
    }
    auto r = q.recv(Quic::packet(fs));
    q.rules();
    CHECK(r, "recv-failed", "recv() failed: %s", qname(r.error()));
    drain(r.value(), g.chance(1, 5) && !failing);
    compare();
  }

  void drain(quic::client::generator gen, bool partly)
  {
    while (gen.next()) {
      if (partly && g.chance(1, 2)) return; // The rest comes with the next packet.
      auto r = gen.get();
      if (want.empty()) fail("event", "an event came that the peer did not cause (%s)", r ? "a stream event" : qname(r.error()));
      Want w = want.front();
      want.pop_front();
      if (!r) {
        CHECK(w.kind == 2 && r.error() == qerr::ngtcp2, "event", "recv() reports %s", qname(r.error()));
        continue;
      }
      const quic::event &e = r.value();
      if ((quic::event::type) e == quic::event::type::data) {
        CHECK(w.kind == 0 && e.data.id == w.id && e.data.fin == w.fin && str(e.data.buffer) == w.data, "event", "got data on stream %llu (%zu bytes, fin %d), expected %s on %llu (%zu bytes, fin %d)", (unsigned long long) e.data.id, e.data.buffer.size(), e.data.fin, w.kind == 0 ? "data" : "something else", (unsigned long long) w.id, w.data.size(), w.fin);
        c.stat("data-events");
      } else {
        CHECK(w.kind == 1 && e.error.id == w.id && e.error.value == w.value && e.error.type == quic::application::error::rst_stream, "event", "got an error event for stream %llu with value %llu, expected %s on %llu with %llu", (unsigned long long) e.error.id, (unsigned long long) e.error.value, w.kind == 1 ? "a reset" : "something else", (unsigned long long) w.id, (unsigned long long) w.value);
        c.stat("reset-events");
      }
    }
    if (!partly) CHECK(want.empty(), "event-missing", "%zu events are missing", want.size());
  }

  // The engine forgets a stream; nothing may be sent on it any more.
  void close()
  {
    std::vector<uint64_t> open;
    for (auto &o : out)
      if (q.e->out[o.first].opened && !o.second.closed) open.push_back(o.first);
    if (open.empty()) return;
    uint64_t id = g.pick(open);
    fake::outgoing &o = q.e->out[id];
    o.pieces.clear();
    o.shut = true;
    out[id].closed = true;
    auto r = q.recv(Quic::packet({ frame('X', id, any_varint(g)) }));
    q.rules();
    CHECK(r, "recv-failed", "recv() failed: %s", qname(r.error()));
    drain(r.value(), false);
    c.stat("closed-streams");
  }

  void run()
  {
    hostile();
    size_t steps = 10 + g.below(60);
    unsigned closing = g.chance(1, 4) ? 10 : 0;
    for (size_t i = 0; i < steps; i++) {
      q.now += g.below(5000);
      switch (g.below(9)) {
        case 0:
        case 1:
        case 2:
          for (size_t k = most > 8 ? most / 20 : 1; k; k--) add();
          break;
        case 3:
        case 4: send(g.chance(1, 3)); break;
        case 5:
        case 6:
        case 7: receive(); break;
        default:
          if (closing && q.done() && g.below(100) < closing * 3) close();
          else if (g.chance(1, 2)) hostile();
          else {
            permissive();
            hostile_limits();
          }
      }
      q.e->check();
      q.rules();
    }
    // From here on nothing holds the connection back.
    permissive();
    for (int i = 0; i < 2000 && !q.done(); i++) {
      send(false);
      fake::frame f;
      if (q.peer(g, f)) drain(q.recv(Quic::packet({ f })).value(), false);
    }
    CHECK(q.done(), "handshake", "the handshake did not complete");
    q.rules();
    send(true);
    for (auto &s : out) {
      fake::outgoing &o = q.e->out[s.first];
      if (s.second.closed) continue;
      CHECK(o.written == s.second.added.size() && o.fin == s.second.fin, "unsent", "stream %llu: %zu of %zu bytes sent, end %s, sent %s", (unsigned long long) s.first, (size_t) o.written, s.second.added.size(), s.second.fin ? "added" : "not added", o.fin ? "yes" : "no");
      c.stat("streams-sent");
      if (o.fin) c.stat("streams-ended");
      if (o.written) c.interesting();
      c.observe(str(o.all));
    }
    // Everything is repeated, then acknowledged.
    q.e->pol.retransmit = 60;
    for (int i = 0; i < 20; i++) q.send();
    q.e->pol.retransmit = 0;
    q.e->check();
    q.rules();
    for (auto &s : out) {
      if (s.second.closed || !q.e->out[s.first].opened) continue;
      std::vector<fake::frame> fs{ frame('A', s.first, UINT64_MAX) };
      fs.insert(fs.begin() + (long) g.below(2), frame('Z', s.first));
      auto r = q.recv(Quic::packet(fs));
      drain(r.value(), false);
    }
    q.e->check();
    q.rules();
    send(true);
    if (out.size() > 256) c.stat("hundreds-of-streams");
    if (next[0] > 65536) c.stat("ids-beyond-16-bits");
    if (large) c.stat("large-chunk-cases");
    c.stat("retransmissions", q.e->retransmitted);
    c.observe(q.packets);
  }

  void hostile_limits()
  {
    q.e->pol.bidi = g.chance(1, 2) ? UINT64_MAX : g.below(4);
    q.e->pol.uni = g.chance(1, 2) ? UINT64_MAX : g.below(4);
    credits();
  }
};

}

void run_case(Ctx &c)
{
  Run r(c);
  r.run();
  if (c.want_sample()) {
    std::string s = strf("%zu streams, %llu packets:", r.out.size(), (unsigned long long) r.q.packets);
    for (auto &o : r.out) s += strf(" %llu:%zu%s", (unsigned long long) o.first, o.second.added.size(), o.second.fin ? "." : "");
    c.sample(s);
  }
}
