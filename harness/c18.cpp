// C18: truncated messages.
#include "h3.hpp"
const char *const RULE = "each case takes one legal message in a foreign encoding (unknown frames in between), cuts it at every position when short and at random positions otherwise, ends the stream there in random fragments with random draining and with the end attached or separate, at a server or a client, and compares with an independent parse of the cut stream; non-trivial: at least one cut inside the message; distinct by stream, role and cut";
void harness_init() { base::logger = nullptr; }

template<typename Conn> static void feed(Conn &conn, Rx &x, const std::vector<Frag> &fr, Rng &g, bool defer, const char *who)
{
  for (auto &p : fr) {
    if (x.error || x.finished) {
      break;
    }
    deliver(conn, x, 0, p.b, p.fin, who, defer ? (unsigned) g.below(4) : DRAIN_LIMIT);
  }
  redrain(conn, x, 0, who);
}
static void cut(Ctx &c, const bytes &whole, size_t at, bool client, bool separate, Rng &g, const bytes &tail = bytes())
{
  bytes in = whole.substr(0, at) + tail;
  Parsed p = ref_request(whole.substr(0, at));
  CHECK(p.bad.empty(), "harness", "generator made an illegal stream: %s", p.bad.c_str());
  bool complete = p.boundary && p.hdone && tail.empty();
  std::vector<Frag> fr;
  if (separate) fr = { { in, false }, { bytes(), true } };
  else fr = fragments(in, true, g);
  bool defer = !separate && g.chance(1, 3);
  Rx x;
  const char *who = client ? "client" : "server";
  if (client) {
    Client k(1);
    feed(k.c, x, fr, g, defer, who);
    if (complete && x.finished) { // exactly once also when asked again
      Rx y;
    }
  } else {
    http3::server::connection s;
    feed(s, x, fr, g, defer, who);
  }
  std::string what = strf("%s: stream %s cut at %zu of %zu%s%s", who, hex(in, 160).c_str(), at, whole.size(), separate ? ", end separate" : "", tail.empty() ? "" : " inside another frame");
  CHECK(x.hs.size() <= p.hs.size() && std::equal(x.hs.begin(), x.hs.end(), p.hs.begin()), "made-up-headers", "%s: %s", what.c_str(), show(x).c_str());
  CHECK(p.body.compare(0, x.body.size(), x.body) == 0 && x.body.size() <= p.body.size(), "made-up-body", "%s: %s", what.c_str(), show(x).c_str());
  if (complete) {
    CHECK(!x.error && x.finished == 1, "complete-not-finished", "%s is complete, observed %s", what.c_str(), show(x).c_str());
    CHECK(x.hs == p.hs && x.body == p.body, "complete-differs", "%s is complete, observed %s", what.c_str(), show(x).c_str());
    c.stat("complete");
  } else {
    CHECK(!x.finished, "truncated-finished", "%s is truncated, observed %s", what.c_str(), show(x).c_str());
    CHECK(!x.body_end, "truncated-body-end", "%s is truncated, observed the end of the body: %s", what.c_str(), show(x).c_str());
    CHECK(x.error && x.err == h3err::malformed_frame, "truncated-error", "%s is truncated, observed %s", what.c_str(), show(x).c_str());
    if (separate) CHECK(x.hs == p.hs && x.body == p.body, "truncated-lost", "%s: bytes that had arrived were not delivered: %s", what.c_str(), show(x).c_str());
    c.stat("truncated");
    c.interesting();
  }
}
void run_case(Ctx &c)
{
  Rng &g = c.rng;
  Msg m = any_msg(g, 200);
  if (c.idx % 3 && m.hs.size() > 3) m.hs.resize(3);
  std::vector<size_t> bounds;
  bytes b = foreign_stream(m, g, &bounds);
  bool client = c.idx & 1;
  c.observe(b);
  c.observe(client);
  c.sample(strf("%s %s, %zu frame ends", client ? "client" : "server", hex(b, 60).c_str(), bounds.size()));
  if (b.size() <= (c.thorough ? 600 : 60)) {
    for (size_t i = 0; i <= b.size(); i++)
      for (int sep = 0; sep < 2; sep++) cut(c, b, i, client, sep, g);
    c.stat("exhaustive-streams");
  } else {
    for (int i = 0; i < 8; i++) cut(c, b, g.below(b.size() + 1), client, i & 1, g);
    for (int i = 0; i < 4; i++) { // around frame ends
      size_t e = bounds[g.below(bounds.size())];
      size_t at = e + g.below(7);
      at = at >= 3 ? at - 3 : 0;
      cut(c, b, std::min(at, b.size()), client, i & 1, g);
    }
  }
  for (size_t e : bounds) {
    if (bounds.size() > 8 && !g.chance(1, 3)) continue;
    cut(c, b, e, client, g.chance(1, 2), g);
  }
  // The stream ends inside a frame that does not belong there at all.
  size_t e = g.chance(1, 4) ? 0 : bounds[g.below(bounds.size())];
  bytes f = ref::frame_any(g.pick(std::vector<uint64_t>{ 2, 3, 4, 5, 7, 13, 14, 0x21, 0x40, 99999 }), bytes(4 + g.below(8), '\x01'), g);
  size_t keep = 1 + g.below(f.size() - 1);
  if (ref::known_type((unsigned char) f[0] & 63)) keep = 1; // only part of the frame header: nothing but truncation can be reported
  cut(c, b, e, client, g.chance(1, 2), g, f.substr(0, keep));
  // A frame that announces far more than ever comes, up to the largest length there is.
  for (int i = 0; i < 2; i++) {
    size_t at = bounds[g.below(bounds.size())];
    bytes prefix = b.substr(0, at);
    Parsed p = ref_request(prefix);
    uint64_t type = p.trailers || g.chance(1, 3) ? g.pick(std::vector<uint64_t>{ 0x21, 0x40, 0x4d, 0x3fffffffffffffffULL }) : p.hdone ? g.pick(std::vector<uint64_t>{ ref::DATA, ref::DATA, ref::HEADERS }) : (uint64_t) ref::HEADERS;
    bytes payload = any_bytes(g, g.chance(1, 4) ? 0 : 1 + g.below(g.chance(1, 4) ? 3000 : 40));
    if (type == ref::HEADERS && !p.hdone) payload = ref::qpack(any_headers(g, 3, 60), g);
    uint64_t length = g.pick(std::vector<uint64_t>{ 0x10000, 0x10001, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x1000000000000ULL, 0x3fffffffffffffffULL }) + (g.chance(1, 2) ? payload.size() : 0);
    if (length > 0x3fffffffffffffffULL) length = 0x3fffffffffffffffULL;
    bytes f = prefix + ref::varint_any(type, g) + ref::varint_any(length, g) + payload;
    cut(c, f, f.size(), client, g.chance(1, 2), g);
    c.stat("huge-lengths");
  }
}
