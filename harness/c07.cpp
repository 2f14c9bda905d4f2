// C07: results do not depend on fragmentation.
#include "h3.hpp"
const char *const RULE = "each case takes one byte stream (legal foreign encodings, protocol violations, mutated and random bytes) and feeds it to a connection of either role, to the header and body decoders and to every low-level decoder, at once, in every two-part split when short, byte by byte, and in random fragments with random draining, and compares what was observed; non-trivial: something was decoded or refused; distinct by the stream bytes";
void harness_init() { base::logger = nullptr; }

enum Role { SERVER_REQ, CLIENT_RES, SERVER_CTRL, CLIENT_CTRL };
static const char *const ROLE[] = { "server request", "client response", "server control", "client control" };

struct Feed {
  Role role;
  std::unique_ptr<http3::server::connection> s;
  std::unique_ptr<Client> c;
  uint64_t id;
  Rx x;
  explicit Feed(Role r) : role(r)
  {
    if (r == SERVER_REQ || r == SERVER_CTRL) s.reset(new http3::server::connection);
    else c.reset(new Client(1));
    id = r == SERVER_CTRL ? 2 : r == CLIENT_CTRL ? 3 : 0;
  }
  bool stop() const { return x.error || x.finished; }
  void put(const bytes &b, bool fin, unsigned max)
  {
    if (stop()) return;
    if (s) deliver(*s, x, id, b, fin, ROLE[role], max);
    else deliver(c->c, x, id, b, fin, ROLE[role], max);
  }
  void rest()
  {
    if (s) redrain(*s, x, id, ROLE[role]);
    else redrain(c->c, x, id, ROLE[role]);
  }
};

static bytes once(Role r, const bytes &b, bool fin)
{
  Feed f(r);
  f.put(b, fin, DRAIN_LIMIT);
  return f.x.digest();
}
static void compare(Role r, const bytes &in, bool fin, const bytes &want, const std::vector<Frag> &fr, Rng &g, bool defer, Ctx &c)
{
  Feed f(r);
  std::string how;
  for (auto &p : fr) {
    unsigned max = !defer ? DRAIN_LIMIT : (unsigned) (g.below(3) == 0 ? 0 : g.below(3));
    if (how.size() < 300) how += strf("%zu%s ", p.b.size(), p.fin ? "F" : "");
    f.put(p.b, p.fin, max);
  }
  f.rest();
  c.stat("fragmentations");
  bytes got = f.x.digest();
  CHECK(got == want, "fragmentation", "%s: stream %s%s in fragments [%s]%s: observed '%s' instead of '%s'", ROLE[r], hex(in, 200).c_str(), fin ? " FIN" : "", how.c_str(), defer ? " deferred draining" : "", hex(got, 200).c_str(), hex(want, 200).c_str());
}

static bytes make_stream(Role role, Rng &g)
{
  bytes b;
  if (role == SERVER_CTRL || role == CLIENT_CTRL) {
    b = foreign_control(g);
    if (g.chance(1, 3)) b += ref::frame_any(g.pick(std::vector<uint64_t>{ 0, 1, 2, 3, 4, 5, 7, 13, 14 }), any_bytes(g, 12), g);
  } else {
    Msg m = any_msg(g, 120);
    if (m.hs.size() > 6) m.hs.resize(6);
    for (auto &h : m.hs) if (g.chance(1, 30) && !h.name.empty()) h.name[0] = 'X';
    b = foreign_stream(m, g);
    if (g.chance(1, 5)) b += ref::frame_any(g.pick(std::vector<uint64_t>{ 0, 2, 3, 4, 5, 7, 13, 14 }), any_bytes(g, 12), g);
  }
  if (b.size() > 900) b.resize(900);
  unsigned k = (unsigned) g.below(6);
  if (k == 0 && !b.empty()) // mutate
    for (uint64_t i = 0, n = 1 + g.below(3); i < n; i++) b[g.below(b.size())] = (char) (g.chance(1, 2) ? g.next() : (unsigned char) b[g.below(b.size())] ^ (1u << g.below(8)));
  else if (k == 1 && g.chance(1, 2))
    b.resize(g.below(b.size() + 1));
  else if (k == 2 && g.chance(1, 4))
    b = any_bytes(g, 60);
  return b;
}

// ---- low level decoders: a growing sequence gives incomplete until it is
// enough, then the same as all at once
template<typename F> static void incremental(Ctx &c, Rng &g, const bytes &in, const char *what, F f, bool exact_keep)
{
  Decoded all = decode_kind(0, in, g, f);
  for (int k = 1; k < 6; k++) {
    Decoded d = decode_kind(k, in, g, f);
    CHECK(d == all, "sequence-kind", "%s of %s from %s: %s instead of %s", what, hex(in).c_str(), KIND[k], show(d).c_str(), show(all).c_str());
  }
  // Chunks pushed one by one.
  base::buffers b;
  std::vector<bytes> parts = split(in, g);
  bytes sofar, value;
  size_t consumed = 0;
  bool ok = false, refused = false;
  h3err err = h3err::no_error;
  for (auto &p : parts) {
    b.push(buf(p));
    sofar += p;
    bytes v;
    size_t before = b.size();
    err = h3err::no_error;
    ok = f(b, v, err);
    size_t used = before - b.size();
    if (ok) { value = v; consumed += used; break; }
    if (err != h3err::incomplete) { refused = true; break; }
    if (exact_keep) CHECK(used == 0, "incomplete-consumes", "%s of the first %zu bytes of %s: incomplete but %zu bytes consumed", what, sofar.size(), hex(in).c_str(), used);
    consumed += used;
  }
  c.stat("incremental-decodes");
  if (all.ok) {
    CHECK(ok && value == all.value && consumed == all.consumed, "incremental", "%s of %s arriving in %zu parts: %s value %s consumed %zu instead of %s", what, hex(in).c_str(), parts.size(), ok ? "ok" : ename(err), hex(value).c_str(), consumed, show(all).c_str());
  } else if (all.err == h3err::incomplete)
    CHECK(!ok && !refused, "incremental", "%s of %s arriving in parts: %s instead of incomplete", what, hex(in).c_str(), ok ? "ok" : ename(err));
  else
    CHECK(!ok && refused && err == all.err, "incremental", "%s of %s arriving in parts: %s instead of %s", what, hex(in).c_str(), ok ? "ok" : ename(err), ename(all.err));
}

// The stateful decoders: the whole sequence of results.
template<typename Seq> static void pull_headers(http3::headers::decoder &d, Seq &s, bytes &out, bool &over)
{
  while (!over && !d.finished()) {
    auto r = d.decode(s);
    if (!r) {
      if (r.error() != h3err::incomplete) { out += std::string("!") + ename(r.error()); over = true; }
      return;
    }
    out += str(r.value().name()) + "\1" + str(r.value().value()) + "\2";
  }
  if (d.finished()) over = true;
}
template<typename Seq> static void pull_qpack(http3::qpack::decoder &d, Seq &s, bytes &out, bool &over)
{
  while (!over && !s.empty()) {
    uint64_t before = d.count();
    size_t size = s.size();
    auto r = d.decode(s);
    if (!r) {
      if (r.error() != h3err::incomplete) { out += std::string("!") + ename(r.error()); over = true; }
      else CHECK(d.count() - before == size - s.size() && size - s.size() <= 2, "incomplete-consumes", "QPACK decoder: incomplete but %zu bytes consumed", size - s.size());
      return;
    }
    CHECK(d.count() - before == size - s.size(), "qpack-count", "QPACK decoder counts %llu bytes, consumed %zu", (unsigned long long) (d.count() - before), size - s.size());
    out += str(r.value().name()) + "\1" + str(r.value().value()) + "\2";
  }
}
template<typename Seq> static void pull_body(http3::body::decoder &d, Seq &s, bytes &out, bool &over)
{
  for (int i = 0; !over && i < 100000; i++) {
    auto r = d.decode(s);
    if (!r) {
      if (r.error() != h3err::incomplete) { out += std::string("!") + ename(r.error()); over = true; }
      return;
    }
    out += str(r.value());
  }
  CHECK(over, "drain-endless", "body decoder never ends");
}
template<typename D, typename P1, typename P2> static void stateful(Ctx &c, Rng &g, const bytes &in, const char *what, P1 whole, P2 part)
{
  bytes want, got;
  bool over = false, over2 = false;
  {
    D d;
    base::buffer b = buf(in);
    whole(d, b, want, over);
  }
  D d;
  base::buffers b;
  std::string how;
  for (auto &p : split(in, g)) {
    b.push(buf(p));
    how += std::to_string(p.size()) + " ";
    part(d, b, got, over2);
    if (over2) break;
  }
  c.stat("decoder-runs");
  CHECK(got == want && over == over2, "decoder-fragmentation", "%s of %s in parts [%s]: %s%s instead of %s%s", what, hex(in).c_str(), how.c_str(), hex(got).c_str(), over2 ? " over" : "", hex(want).c_str(), over ? " over" : "");
}

void run_case(Ctx &c)
{
  Rng &g = c.rng;
  Role role = (Role) (c.idx % 4);
  bytes in = make_stream(role, g);
  bool fin = role < SERVER_CTRL ? g.chance(3, 4) : false;
  bytes want = once(role, in, fin);
  c.observe(in);
  c.observe(role * 2 + fin);
  c.interesting();
  c.stat("streams");
  c.stat("streams-in-error", want.find("F") == bytes::npos && want.find("malformed") != bytes::npos);
  c.sample(strf("%s %s%s -> %s", ROLE[role], hex(in, 40).c_str(), fin ? " FIN" : "", want.substr(0, 60).c_str()));
  // Every two-part split of short streams, some of long ones.
  size_t all = in.size() <= (c.thorough ? 400 : 48) ? in.size() : 0;
  for (size_t i = 0; i <= all; i++) {
    size_t p = all ? i : g.below(in.size() + 1);
    compare(role, in, fin, want, { { in.substr(0, p), false }, { in.substr(p), fin } }, g, false, c);
    if (!all) break;
  }
  if (fin) compare(role, in, fin, want, { { in, false }, { bytes(), true } }, g, false, c);
  if (in.size() <= 120) {
    std::vector<Frag> one;
    for (size_t i = 0; i < in.size(); i++) one.push_back({ bytes(1, in[i]), fin && i + 1 == in.size() });
    if (one.empty()) one.push_back({ bytes(), fin });
    compare(role, in, fin, want, one, g, false, c);
  }
  for (int i = 0; i < 6; i++) compare(role, in, fin, want, fragments(in, fin, g), g, i % 2 == 1, c);

  // Codecs.
  bytes d = in.substr(0, std::min<size_t>(in.size(), 200));
  bytes block = g.chance(3, 4) ? ref::qpack(any_headers(g, 4, 30), g) : any_bytes(g, 40);
  if (g.chance(1, 4) && block.size() > 2) block[2 + g.below(block.size() - 2)] = (char) g.next();
  stateful<http3::headers::decoder>(c, g, d, "header decoder", [](auto &x, auto &s, bytes &o, bool &v) { pull_headers(x, s, o, v); }, [](auto &x, auto &s, bytes &o, bool &v) { pull_headers(x, s, o, v); });
  stateful<http3::qpack::decoder>(c, g, block, "QPACK decoder", [](auto &x, auto &s, bytes &o, bool &v) { pull_qpack(x, s, o, v); }, [](auto &x, auto &s, bytes &o, bool &v) { pull_qpack(x, s, o, v); });
  bytes data;
  for (uint64_t i = 0, n = g.below(5); i < n; i++) data += ref::frame_any(g.chance(1, 6) ? any_varint(g) : ref::DATA, any_bytes(g, 60), g);
  stateful<http3::body::decoder>(c, g, data, "body decoder", [](auto &x, auto &s, bytes &o, bool &v) { pull_body(x, s, o, v); }, [](auto &x, auto &s, bytes &o, bool &v) { pull_body(x, s, o, v); });
  bytes v = ref::varint_any(any_varint(g), g) + any_bytes(g, 4);
  v.resize(g.below(v.size() + 1));
  incremental(c, g, v, "varint", DecVarint(), true);
  unsigned prefix = 1 + (unsigned) g.below(8);
  bytes p = ref::pint(any_u64(g), prefix, 0) + any_bytes(g, 4);
  if (g.chance(1, 4)) p = bytes(g.below(14), '\xff') + any_bytes(g, 3);
  p.resize(g.below(p.size() + 1));
  incremental(c, g, p, "prefix integer", DecPint{ prefix }, true);
  bytes l = ref::literal(any_bytes(g, 60), 1 + (unsigned) g.below(7), g.chance(1, 2)) + any_bytes(g, 4);
  if (g.chance(1, 5) && !l.empty()) l[g.below(l.size())] = (char) g.next();
  if (g.chance(1, 3)) l.resize(g.below(l.size() + 1));
  incremental(c, g, l, "literal", DecLiteral{ 1 + (unsigned) g.below(7) }, true);
  bytes f = g.chance(1, 2) ? d : ref::frame_any(g.pick(std::vector<uint64_t>{ 0, 1, 2, 3, 4, 5, 7, 13, 14, 33 }), any_bytes(g, 20), g);
  incremental(c, g, f, "frame", DecFrame(), false);
  incremental(c, g, f, "peek", PeekFrame(), true);
}
