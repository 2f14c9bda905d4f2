// C11: protocol violations by the peer.
#include "h3.hpp"
const char *const RULE = "each case takes one kind of violation from the table of (role, stream, position) violations, puts it after random legal traffic and before random further bytes, feeds it in random fragments with random draining, and compares what was delivered before the error, and the error, with the table; non-trivial: every case; distinct by the stream bytes";

struct Kind {
  const char *name;
  int role;  // 0 server request, 1 client response, 2 server control, 3 client control
  int where; // 0 before the headers / as the first frame, 1 after the headers, 2 anywhere
  std::function<bytes(Rng &)> make;
  std::vector<h3err> want;
};
static std::vector<Kind> kinds;

static bytes fr(uint64_t t, const bytes &p, Rng &g) { return ref::frame_any(t, p, g); }
static bytes one_varint(uint64_t t, Rng &g) { return fr(t, ref::varint_any(any_varint(g), g), g); }
static bytes priority(Rng &g) { return fr(ref::PRIORITY, bytes(1, (char) (g.below(4) << 6 | g.below(4) << 4)) + ref::varint_any(any_varint(g), g) + ref::varint_any(any_varint(g), g) + bytes(1, (char) g.next()), g); }
static bytes settings(Rng &g)
{
  bytes p;
  for (uint64_t i = 0, n = g.below(4); i < n; i++) p += ref::varint_any(g.chance(2, 3) ? 1 + g.below(9) : any_varint(g), g) + ref::varint_any(g.chance(1, 4) ? g.below(3) : any_varint(g), g);
  return fr(ref::SETTINGS, p, g);
}
static bytes push_promise(Rng &g) { return fr(ref::PUSH_PROMISE, ref::varint_any(any_varint(g), g) + ref::qpack(any_headers(g, 3, 20), g), g); }
// A frame whose fields do not fill its declared length exactly.
static bytes malformed(Rng &g, const std::vector<uint64_t> &types)
{
  uint64_t t = g.pick(types);
  bytes p;
  switch (t) {
    case ref::SETTINGS: {
      for (uint64_t i = 0, n = g.below(3); i < n; i++) p += ref::varint_any(any_varint(g), g) + ref::varint_any(any_varint(g), g);
      p += ref::varint_any(any_varint(g), g); // identifier without a value
      // What follows makes the value readable, outside of the frame.
      return ref::varint_any(t, g) + ref::varint_any(p.size(), g) + p + ref::varint(any_varint(g));
    }
    case ref::PRIORITY: p = bytes(1, '\x10') + ref::varint_any(any_varint(g), g) + ref::varint_any(any_varint(g), g) + bytes(1, 'w'); break;
    default: p = ref::varint_any(any_varint(g), g);
  }
  uint64_t len;
  if (g.chance(1, 2)) {
    len = p.size() + 1 + g.below(6);
    p += any_bytes(g, 1) + bytes(8, '\x05');
  } else
    len = g.below(p.size());
  return ref::varint_any(t, g) + ref::varint_any(len, g) + p;
}
static bytes headers_frame(const bytes &block, Rng &g) { return fr(ref::HEADERS, block, g); }
static ref::Headers some(Rng &g, unsigned max) { ref::Headers h = any_headers(g, max, 30); h.resize(g.below(h.size() + 1)); return h; }

static void add(const char *name, int role, int where, std::vector<h3err> want, std::function<bytes(Rng &)> f) { kinds.push_back({ name, role, where, std::move(f), std::move(want) }); }

// Violations inside the header block. Returned with the legal lines in front.
struct BlockKind {
  const char *name;
  std::function<bytes(Rng &)> line;
  std::vector<h3err> want;
};
static std::vector<BlockKind> blocks;
static bytes bad_huffman(Rng &g)
{
  for (;;) {
    bytes b = any_bytes(g, 12), out;
    b += g.chance(1, 2) ? bytes(4, '\xff') : bytes(1, (char) g.next());
    if (!ref::huff_get(b, out)) return b;
  }
}
void harness_init()
{
  base::logger = nullptr;
  for (int role = 0; role < 2; role++) {
    add("DATA before HEADERS", role, 0, { h3err::unexpected_frame }, [](Rng &g) { return fr(ref::DATA, any_bytes(g, 40), g); });
    add("SETTINGS on a request stream", role, 2, { h3err::wrong_stream }, settings);
    add("MAX_PUSH_ID on a request stream", role, 2, { h3err::wrong_stream }, [](Rng &g) { return one_varint(ref::MAX_PUSH_ID, g); });
    add("CANCEL_PUSH on a request stream", role, 2, { h3err::wrong_stream }, [](Rng &g) { return one_varint(ref::CANCEL_PUSH, g); });
    add("GOAWAY on a request stream", role, 2, { h3err::wrong_stream }, [](Rng &g) { return one_varint(ref::GOAWAY, g); });
    add("malformed frame on a request stream", role, 2, { h3err::malformed_frame }, [](Rng &g) { return malformed(g, { 2, 3, 4, 7, 13, 14 }); });
    add("DATA after trailing HEADERS", role, 3, { h3err::unexpected_frame }, [](Rng &g) { return fr(ref::DATA, any_bytes(g, 20), g); });
    add("HEADERS after trailing HEADERS", role, 3, { h3err::unexpected_frame }, [](Rng &g) { return fr(ref::HEADERS, any_bytes(g, 20), g); });
    add("empty HEADERS", role, 0, { h3err::malformed_frame }, [](Rng &g) { return fr(ref::HEADERS, "", g); });
  }
  add("PUSH_PROMISE from a client", 0, 2, { h3err::unexpected_frame }, push_promise);
  add("DUPLICATE_PUSH from a client", 0, 2, { h3err::unexpected_frame }, [](Rng &g) { return one_varint(ref::DUPLICATE_PUSH, g); });
  add("PRIORITY after HEADERS", 0, 1, { h3err::unexpected_frame }, priority);
  add("PRIORITY from a server", 1, 2, { h3err::unexpected_frame }, priority);
  for (int role = 2; role < 4; role++) {
    for (uint64_t t : { 0, 1, 5 }) add("request-stream frame on the control stream", role, 1, { h3err::wrong_stream }, [t](Rng &g) { return fr(t, t == 5 ? ref::varint(any_varint(g)) + any_bytes(g, 10) : any_bytes(g, 20), g); });
    add("DUPLICATE_PUSH on the control stream", role, 1, { h3err::wrong_stream }, [](Rng &g) { return one_varint(ref::DUPLICATE_PUSH, g); });
    add("second SETTINGS", role, 1, { h3err::unexpected_frame }, settings);
    add("control stream without SETTINGS first", role, 0, { h3err::missing_settings }, [](Rng &g) {
      switch (g.below(6)) {
        case 0: return one_varint(g.pick(std::vector<uint64_t>{ 3, 7, 13, 14 }), g);
        case 1: return priority(g);
        case 2: return fr(ref::DATA, any_bytes(g, 20), g);
        case 3: return fr(ref::HEADERS, any_bytes(g, 20), g);
        case 4: return push_promise(g);
        default: return one_varint(13, g);
      }
    });
    add("malformed frame on the control stream", role, 1, { h3err::malformed_frame }, [](Rng &g) { return malformed(g, { 2, 3, 4, 7, 13, 14 }); });
    add("malformed SETTINGS", role, 0, { h3err::malformed_frame }, [](Rng &g) { return malformed(g, { 4 }); });
    add("other stream type", role, -1, { h3err::wrong_stream }, [](Rng &g) { uint64_t t; do t = g.chance(1, 2) ? 1 + g.below(70) : any_varint(g); while (t == 0); return ref::varint_any(t, g); });
    add("control stream closed", role, -2, { h3err::closed_critical_stream }, [](Rng &) { return bytes(); });
  }
  add("GOAWAY from a client", 2, 1, { h3err::unexpected_frame }, [](Rng &g) { return one_varint(ref::GOAWAY, g); });
  add("MAX_PUSH_ID from a server", 3, 1, { h3err::unexpected_frame }, [](Rng &g) { return one_varint(ref::MAX_PUSH_ID, g); });
  add("PRIORITY from a server on control", 3, 1, { h3err::unexpected_frame }, priority);

  auto q = h3err::qpack_decompression_failed;
  blocks = {
    { "dynamic indexed", [](Rng &g) { return ref::pint(g.below(200), 6, 0x80); }, { q } },
    { "index past the static table", [](Rng &g) { return ref::pint(g.chance(1, 2) ? 99 + g.below(400) : 99 + (any_u64(g) >> 1), 6, 0xc0); }, { q } },
    { "dynamic name reference", [](Rng &g) { return ref::pint(g.below(200), 4, 0x40 | (g.chance(1, 2) ? 0x20 : 0)) + ref::literal(any_bytes(g, 20), 7, false); }, { q } },
    { "name index past the static table", [](Rng &g) { return ref::pint(99 + g.below(400), 4, 0x50) + ref::literal(any_bytes(g, 20), 7, false); }, { q } },
    { "post-base indexed", [](Rng &g) { return ref::pint(g.below(100), 4, 0x10); }, { q } },
    { "post-base name reference", [](Rng &g) { return ref::pint(g.below(100), 3, g.chance(1, 2) ? 8 : 0) + ref::literal(any_bytes(g, 20), 7, false); }, { q } },
    { "bad Huffman value", [](Rng &g) { bytes b = bad_huffman(g); return ref::pint(g.below(99), 4, 0x50) + ref::pint(b.size(), 7, 0x80) + b; }, { q } },
    { "bad Huffman name", [](Rng &g) { bytes b = bad_huffman(g); return ref::pint(b.size(), 3, 0x28) + b + ref::literal("v", 7, false); }, { q } },
    { "length of more than 64 bits", [](Rng &g) { return ref::pint(g.below(99), 4, 0x50) + bytes("\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", 11); }, { q } },
    { "uppercase name", [](Rng &g) { bytes n = lower(any_bytes(g, 12)); n.insert(n.begin() + (long) g.below(n.size() + 1), (char) ('A' + g.below(26))); return ref::literal(n, 3, g.chance(1, 2), 0x20) + ref::literal(any_bytes(g, 10), 7, g.chance(1, 2)); }, { h3err::malformed_header } },
    { "line past the end of the frame", nullptr, { h3err::malformed_frame, q } },
  };
}

void run_case(Ctx &c)
{
  Rng &g = c.rng;
  size_t nk = kinds.size() + 2 * blocks.size();
  size_t k = c.idx % nk;
  int role;
  bytes in;             // legal part + violation
  ref::Headers want_hs; // what must have been delivered
  bytes want_body;
  unsigned want_settings = 0;
  http3::settings want_peer;
  std::vector<h3err> want;
  const char *name;
  bool close = false;
  auto junk = [&]() {
    bytes r;
    while (g.chance(1, 4)) {
      uint64_t t;
      do t = any_varint(g); while (ref::known_type(t));
      r += fr(t, any_bytes(g, 20), g);
    }
    return r;
  };
  if (k < kinds.size()) {
    Kind &v = kinds[k];
    role = v.role;
    want = v.want;
    name = v.name;
    bytes bad = v.make(g);
    if (role < 2) {
      bool before = v.where == 0 || (v.where == 2 && g.chance(1, 3));
      if (before) in = junk() + bad;
      else {
        Msg m = any_msg(g, 100);
        if (m.hs.size() > 5) m.hs.resize(5);
        in = foreign_stream(m, g, nullptr, true, v.where != 3);
        if (v.where == 3) in += fr(ref::HEADERS, any_bytes(g, 20), g) + junk();
        want_hs = m.hs;
        want_body = m.body();
        in += bad;
      }
    } else {
      if (v.where == -1) in = bad;
      else if (v.where == 0) in = ref::varint(0) + junk() + bad;
      else if (v.where == -2) {
        in = foreign_control(g, &want_peer);
        size_t all = in.size();
        in.resize(g.chance(1, 2) ? g.below(all + 1) : all);
        // Settings are delivered as soon as their frame is complete.
        size_t p = 0;
        uint64_t t, l;
        if (ref::varint_get(in, p, t))
          while (ref::varint_get(in, p, t) && ref::varint_get(in, p, l)) {
            if (l > in.size() - p) break;
            if (t == ref::SETTINGS) want_settings = 1;
            p += l;
          }
        close = true;
      } else {
        in = foreign_control(g, &want_peer) + bad;
        want_settings = 1;
      }
    }
  } else {
    size_t i = k - kinds.size();
    role = (int) (i & 1);
    BlockKind &v = blocks[i / 2];
    name = v.name;
    want = v.want;
    want_hs = some(g, 4);
    bytes block = ref::qpack(want_hs, g);
    if (v.line) {
      in = junk() + headers_frame(block + v.line(g) + ref::qpack(some(g, 2), g).substr(2), g);
    } else {
      // The last line's literal continues past the end of the frame.
      bytes val = bytes(2 + g.below(20), 'x');
      bytes line = ref::pint(g.below(99), 4, 0x50) + ref::literal(val, 7, false);
      size_t over = 1 + g.below(val.size());
      if (g.chance(1, 4)) over = 1 + g.below(line.size() - 1);
      bytes f = block + line;
      in = junk() + ref::varint_any(ref::HEADERS, g) + ref::varint_any(f.size() - over, g) + f;
    }
  }
  bytes tail;
  if (!close)
    for (uint64_t i = 0, n = g.below(4); i < n; i++) tail += g.chance(1, 2) ? any_bytes(g, 30) : role < 2 ? fr(ref::DATA, any_bytes(g, 20), g) : one_varint(13, g);
  if (!close && !tail.empty() && g.chance(1, 2)) tail += bytes(20, '\0');
  bytes all = in + tail;
  c.observe(all);
  c.observe(k);
  c.interesting();
  c.stat("violations");
  c.sample(strf("%s: %s", name, hex(all, 60).c_str()));

  bool ctrl = role >= 2;
  uint64_t id = role == 2 ? 2 : role == 3 ? 3 : 0;
  for (int rep = 0; rep < 3; rep++) {
    Rx x;
    std::vector<Frag> f = fragments(rep == 0 ? all : all, !ctrl && g.chance(1, 2), g);
    if (rep == 0 && !ctrl) f = { { all, g.chance(1, 2) } };
    if (close) f.push_back({ bytes(), true });
    bool defer = g.chance(1, 3);
    std::unique_ptr<http3::server::connection> s;
    std::unique_ptr<Client> cl;
    if (role == 0 || role == 2) s.reset(new http3::server::connection);
    else cl.reset(new Client(2));
    const char *who = role & 1 ? "client" : "server";
    // Legal traffic on other streams of the same connection.
    if (g.chance(1, 2)) {
      Rx y;
      bytes other = ctrl ? foreign_stream(any_msg(g, 60), g) : foreign_control(g);
      uint64_t oid = ctrl ? 0 : role == 0 ? 2 : 3;
      if (s) deliver(*s, y, oid, other, ctrl, who);
      else deliver(cl->c, y, oid, other, ctrl, who);
      CHECK(!y.error, "legal-refused", "legal stream refused with %s", ename(y.err));
    }
    // Streams the connection does not know, such as those of QPACK.
    auto others = [&] {
      while (g.chance(1, 4)) {
        Rx y;
        uint64_t oid = (s ? 6 : 7) + 4 * (g.chance(1, 2) ? g.below(3) : any_varint(g) >> 3);
        bytes b = g.chance(1, 2) ? ref::varint_any(g.chance(1, 2) ? g.below(4) : any_varint(g), g) + any_bytes(g, 20) : any_bytes(g, 30);
        bool fin = g.chance(1, 4);
        if (s) deliver(*s, y, oid, b, fin, who);
        else deliver(cl->c, y, oid, b, fin, who);
        CHECK(!y.error && !y.events, "legal-refused", "%s: unidirectional stream %llu with %s: observed %s", who, (unsigned long long) oid, hex(b, 40).c_str(), show(y).c_str());
        c.stat("other-unidirectional-streams");
      }
    };
    others();
    for (auto &p : f) {
      if (x.error) break;
      others();
      // The events before the end must be fetched before the stream is closed.
      if (close && p.fin) { if (s) redrain(*s, x, id, who); else redrain(cl->c, x, id, who); }
      unsigned max = defer ? (unsigned) g.below(3) : DRAIN_LIMIT;
      if (s) deliver(*s, x, id, p.b, p.fin, who, max);
      else deliver(cl->c, x, id, p.b, p.fin, who, max);
    }
    if (s) redrain(*s, x, id, who);
    else redrain(cl->c, x, id, who);
    std::string what = strf("%s: %s: %s", who, name, hex(in, 160).c_str());
    CHECK(x.error, "undetected", "%s: no error, observed %s", what.c_str(), show(x).c_str());
    CHECK(std::find(want.begin(), want.end(), x.err) != want.end(), "wrong-error", "%s: error %s instead of %s", what.c_str(), ename(x.err), ename(want[0]));
    CHECK(x.hs == want_hs, "legal-part", "%s: delivered headers %s instead of %s", what.c_str(), ref::show(x.hs).c_str(), ref::show(want_hs).c_str());
    CHECK(x.body == want_body, "legal-part", "%s: delivered body %s instead of %s", what.c_str(), hex(x.body, 60).c_str(), hex(want_body, 60).c_str());
    CHECK(!x.finished, "finished-anyway", "%s: the message was reported complete", what.c_str());
    CHECK(x.settings == want_settings && (!want_settings || same(x.peer, want_peer)), "legal-part", "%s: settings delivered %u times", what.c_str(), x.settings);
    c.stat(role < 2 ? "request-stream-violations" : "control-stream-violations");
  }
}
