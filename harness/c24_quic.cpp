// C24 for the QUIC layer: memory of a client connection is bounded by what is
// queued or not acknowledged.
#include "alloc.hpp"
#include "quicx.hpp"
const char *const RULE = "each case runs a QUIC client on the scripted engine: a client hello of up to 200 kB that is acknowledged, then rounds in which streams are added to, packets written, data acknowledged in parts, streams ended, closed or reset, and data of the peer received; at every quiescent point the bytes the counting allocator has handed out since the connection was made, without what the scripted engine and TLS keep for themselves, are compared with a bound computed from the queued and the unacknowledged chunks, the open streams and a constant; non-trivial: over 30 kB were acknowledged; distinct by the weights";
void harness_init() { base::logger = nullptr; }

namespace {

const int64_t HANDSHAKE = 20000, BASE = 8192, PER_STREAM = 2048, PER_CHUNK = 512;

struct Chunk {
  size_t size = 0;
  uint64_t end = 0; // offset in the stream
};

struct Out {
  std::deque<Chunk> chunks; // not acknowledged completely
  uint64_t added = 0;
  bool fin = false;
};

struct Run {
  Ctx &c;
  Rng &g;
  int64_t before;
  Quic q;
  std::map<uint64_t, Out> out;
  std::map<uint64_t, uint64_t> in;
  uint64_t next[2] = { 0, 2 }, peers = 1;
  int64_t base = 0;
  bool rebased = false;
  uint64_t acked = 0, received = 0, forgotten = 0;

  static fake::script script(Rng &g, size_t hello)
  {
    fake::script s = any_script(g);
    s.early = false;
    // The scripted TLS keeps what the peer sent.
    s.server_flight.resize(std::min(s.server_flight.size(), (size_t) 3000));
    s.hello.clear();
    for (size_t left = hello; left > 0;) {
      size_t n = std::min(left, 1 + (size_t) g.below(20000));
      s.hello.push_back(vec(bytes(n, 'h')));
      left -= n;
    }
    return s;
  }

  Run(Ctx &c, size_t hello)
    : c(c)
    , g(c.rng)
    , before(alloc::live_bytes)
    , q(script(c.rng, hello), quic::params(), quic::path(v4("\x7f\x01\x02\x03", 1), v4("\x0a\x01\x02\x03", 2)), "example.org")
  {
    q.e->pol.rng.seed(g.next());
    // The scripts are not the connection's.
    q.script.hello.clear();
    q.script.hello.shrink_to_fit();
    fake::next_script() = fake::script();
    base = alloc::live_bytes;
  }

  // The monitors keep records that nobody needs here. What they still hold
  // afterwards is returned.
  int64_t trim()
  {
    fake::bytes().swap(q.e->last);
    decltype(q.e->calls)().swap(q.e->calls);
    decltype(q.e->paths_seen)().swap(q.e->paths_seen);
    decltype(q.e->crypto_results)().swap(q.e->crypto_results);
    if (q.ssl) {
      // Each piece of the hello is in the script until TLS has added it.
      int64_t have = alloc::live_bytes;
      if (q.ssl->state > 0) decltype(q.ssl->s.hello)().swap(q.ssl->s.hello);
      base += alloc::live_bytes - have;
    }
    int64_t own = 0;
    for (auto &k : q.e->crypto) {
      fake::bytes().swap(k.all);
      if (k.pieces.empty()) decltype(k.pieces)().swap(k.pieces);
      for (auto &p : k.pieces) own += (int64_t) p.copy.capacity() + 128;
    }
    for (auto it = q.e->out.begin(); it != q.e->out.end();) {
      fake::bytes().swap(it->second.all);
      if (!out.count(it->first)) {
        it = q.e->out.erase(it);
        continue;
      }
      for (auto &p : it->second.pieces) own += (int64_t) p.copy.capacity() + 128;
      own += 1500; // its record and the blocks of its queue
      it++;
    }
    q.e->received.clear();
    q.e->extended.clear();
    return own;
  }

  void weigh(const char *when)
  {
    int64_t own = trim(), bound = rebased ? BASE : HANDSHAKE, pending = 0;
    for (auto &o : out) {
      bound += PER_STREAM;
      for (auto &k : o.second.chunks) pending += (int64_t) k.size + PER_CHUNK;
    }
    for (auto &k : q.e->crypto)
      for (auto &p : k.pieces) pending += 2 * (int64_t) p.copy.size() + 20000 + PER_CHUNK;
    int64_t weight = alloc::live_bytes - base - own;
    if (c.verbose) printf("%s: %lld held, %zu streams, %lld pending, %llu acknowledged, monitor %lld\n", when, (long long) weight, out.size(), (long long) pending, (unsigned long long) acked, (long long) own);
    CHECK(weight <= bound + pending, "holds-too-much", "%s: the QUIC connection holds %lld bytes, with %zu open streams and %lld bytes queued or unacknowledged the bound is %lld (%llu bytes were acknowledged, %llu received, %llu streams forgotten)", when, (long long) weight, out.size(), (long long) pending, (long long) (bound + pending), (unsigned long long) acked, (unsigned long long) received, (unsigned long long) forgotten);
    c.stat("quic-weighings");
    c.observe(mix((uint64_t) std::max<int64_t>(weight, 0), (uint64_t) pending));
  }

  void drain(quic::result<quic::client::generator> r)
  {
    q.rules();
    CHECK(r, "recv-failed", "recv() failed: %s", qname(r.error()));
    quic::client::generator gen = std::move(r).value();
    while (gen.next()) CHECK(gen.get(), "event", "recv() reports a failure");
  }

  void send()
  {
    for (unsigned i = 0;; i++) {
      if (!q.send()) break;
      if (i % 64 == 63) trim();
      c.stat("packets");
    }
  }

  fake::frame frame(char kind, uint64_t id = 0, uint64_t offset = 0)
  {
    fake::frame f;
    f.kind = kind;
    f.id = id;
    f.offset = offset;
    return f;
  }

  void handshake()
  {
    bool weighed = false;
    for (int i = 0; i < 5000 && !q.done(); i++) {
      send();
      fake::frame f;
      if (q.e->started && !weighed) {
        weigh("after the hello");
        weighed = true;
      }
      if (q.peer(g, f)) drain(q.recv(Quic::packet({ f })));
    }
    CHECK(q.done(), "handshake", "the handshake did not complete");
    send();
    for (int level = 0; level < 3; level++) {
      fake::frame f = frame('K', 0, UINT64_MAX);
      f.level = (uint8_t) level;
      uint64_t n = q.e->crypto[level].sent;
      if (g.chance(1, 2))
        for (uint64_t left = n; left > 1000;) {
          f.offset = 1 + g.below(left);
          left -= f.offset;
          drain(q.recv(Quic::packet({ f })));
        }
      f.offset = UINT64_MAX;
      drain(q.recv(Quic::packet({ f })));
      CHECK(q.e->crypto[level].acked == n, "engine", "not everything is acknowledged");
      acked += n;
      c.stat("hello-bytes-acknowledged", n);
    }
    // What is left is mostly the peer's flights, which the scripted TLS keeps.
    weigh("after the handshake");
    rebased = true;
    base = alloc::live_bytes;
  }

  void add()
  {
    std::vector<uint64_t> open;
    for (auto &o : out)
      if (!o.second.fin) open.push_back(o.first);
    uint64_t id;
    if (open.empty() || (out.size() < 6 && g.chance(1, 4))) {
      if (out.size() >= 6) return;
      unsigned t = (unsigned) g.below(2);
      id = next[t];
      next[t] += 4;
    } else
      id = g.pick(open);
    Out &o = out[id];
    quic::data d;
    d.id = id;
    d.fin = g.chance(1, 4);
    size_t n = g.chance(1, 6) ? 0 : g.chance(1, 4) ? 1 + g.below(20000) : 1 + g.below(500);
    d.buffer = buf(bytes(n, 'x'));
    o.fin = d.fin;
    o.added += n;
    if (n) o.chunks.push_back({ n, o.added });
    CHECK(q.c->add(quic::event(std::move(d))), "add-failed", "adding to stream %llu failed", (unsigned long long) id);
  }

  // The peer acknowledges data; complete streams are forgotten.
  void acknowledge(bool all)
  {
    for (auto it = out.begin(); it != out.end();) {
      fake::outgoing &e = q.e->out[it->first];
      if (!e.opened || (!all && g.chance(1, 3))) { it++; continue; }
      Out &o = it->second;
      if (g.chance(1, 2) && e.fin && !all && e.fin_offset == e.written) drain(q.recv(Quic::packet({ frame('Z', it->first) })));
      uint64_t have = e.acked;
      drain(q.recv(Quic::packet({ frame('A', it->first, all || g.chance(1, 3) ? UINT64_MAX : 1 + g.below(8000)) })));
      acked += e.acked - have;
      while (!o.chunks.empty() && o.chunks.front().end <= e.acked) o.chunks.pop_front();
      bool complete = o.fin && e.fin && e.acked == o.added;
      if (complete) drain(q.recv(Quic::packet({ frame('Z', it->first) })));
      if (complete && g.chance(1, 2)) drain(q.recv(Quic::packet({ frame('X', it->first, 0) })));
      if (complete) {
        it = out.erase(it);
        forgotten++;
      } else
        it++;
      q.rules();
    }
  }

  void receive()
  {
    for (unsigned i = 0, n = 1 + (unsigned) g.below(8); i < n; i++) {
      uint64_t id = g.chance(1, 2) ? 3 : peers;
      fake::frame f = frame('S', id, in[id]);
      size_t k = g.chance(1, 3) ? 0 : 1 + g.below(5000);
      f.data = vec(bytes(k, 'y'));
      received += k;
      in[id] += k;
      if (id != 3 && g.chance(1, 3)) {
        f.flags = 1;
        in.erase(id);
        peers += 4;
      }
      drain(q.recv(Quic::packet({ f })));
      if (id != 3 && g.chance(1, 5)) {
        // The engine takes everything, and the error event carries nothing.
        drain(q.recv(Quic::packet({ frame('R', id, any_varint(g)) })));
        in.erase(id);
        peers += 4;
      }
    }
  }

  // Streams that end before they are sent: a reset by the peer closes them.
  void close()
  {
    std::vector<uint64_t> open;
    for (auto &o : out)
      if (q.e->out.count(o.first) && q.e->out[o.first].opened) open.push_back(o.first);
    if (open.empty()) return;
    uint64_t id = g.pick(open);
    q.e->out[id].pieces.clear();
    q.e->out[id].shut = true;
    drain(q.recv(Quic::packet({ frame('X', id, any_varint(g)) })));
    out.erase(id);
    forgotten++;
    c.stat("streams-closed");
  }

  void run()
  {
    handshake();
    fake::policy &p = q.e->pol;
    size_t rounds = 20 + g.below(g.chance(1, 4) ? 400 : 80);
    for (size_t i = 0; i < rounds; i++) {
      q.now += g.below(5000);
      p.partial = g.chance(1, 2) ? 0 : (unsigned) g.below(70);
      p.retransmit = g.chance(1, 2) ? 0 : (unsigned) g.below(50);
      for (unsigned k = (unsigned) g.below(6); k--;) add();
      if (g.chance(3, 4)) send();
      p.retransmit = 0;
      if (g.chance(2, 3)) acknowledge(false);
      if (g.chance(1, 3)) receive();
      if (g.chance(1, 12)) close();
      if (g.chance(1, 8)) {
        q.c->timeout();
        q.c->expiry();
        drain(q.recv(Quic::packet({})));
      }
      weigh("between rounds");
    }
    send();
    acknowledge(true);
    for (auto &o : out) CHECK(!o.second.fin && o.second.chunks.empty(), "unsent", "stream %llu is not complete after everything was sent and acknowledged", (unsigned long long) o.first);
    weigh("at the end");
    q.e->check();
    q.rules();
    c.stat("bytes-acknowledged", acked);
    c.stat("quic-streams-forgotten", forgotten);
    c.stat("bytes-received", received);
    if (acked > 30000) c.interesting();
    c.sample(strf("%llu bytes acknowledged, %llu received, %llu streams forgotten, %zu open", (unsigned long long) acked, (unsigned long long) received, (unsigned long long) forgotten, out.size()));
  }
};

}

void run_case(Ctx &c)
{
  size_t hello = c.rng.chance(1, 3) ? 50000 + c.rng.below(150000) : 1 + c.rng.below(2000);
  int64_t before = alloc::live_bytes;
  fake::complaints().shrink_to_fit();
  Run *r = new Run(c, hello);
  r->run();
  delete r;
  // The last script is kept by the stand-in.
  int64_t left = alloc::live_bytes - before;
  CHECK(left <= 4096, "leak", "%lld bytes are left after the connection is gone", (long long) left);
}
