// One deterministic piece of work that exercises every encoder, every decoder
// and both connections, and renders everything it observed into a digest. The
// same seed must give the same digest under any logger, thread schedule, or
// previous content of memory.
#pragma once
#include "session.hpp"

struct Digest {
  bytes log; // everything observed, in order
  uint64_t h = 0xcbf29ce484222325ULL;
  std::vector<std::pair<uint64_t, std::string>> marks; // running hash and label, to localise differences
  uint64_t items = 0;
  void add(const char *label, const bytes &b)
  {
    h = hash_bytes(b, mix(h, b.size()));
    items++;
    marks.emplace_back(h, std::string(label) + " " + hex(b, 48));
  }
};
static inline std::string first_difference(const Digest &a, const Digest &b)
{
  for (size_t i = 0; i < a.marks.size() && i < b.marks.size(); i++)
    if (a.marks[i].first != b.marks[i].first) return strf("item %zu: ", i) + a.marks[i].second + " versus " + b.marks[i].second;
  return strf("%zu versus %zu items", a.marks.size(), b.marks.size());
}

// ---- hostile bytes
static inline bytes mutate(bytes b, Rng &g)
{
  for (uint64_t k = g.below(4); k-- > 0;) {
    size_t p = g.below(b.size() + 1);
    switch (g.below(7)) {
      case 0: if (p < b.size()) b[p] = (char) g.next(); break;
      case 1: if (p < b.size()) b[p] ^= (char) (1u << g.below(8)); break;
      case 2: b.insert(p, any_bytes(g, 12)); break;
      case 3: b.erase(p, g.below(12)); break;
      case 4: b.resize(p); break;
      case 5: { // overwrite with something length-like
        bytes v = g.chance(1, 2) ? ref::varint_any(any_varint(g), g) : ref::pint(any_u64(g), 1 + (unsigned) g.below(8), (unsigned) g.next() & 0xff);
        for (size_t i = 0; i < v.size() && p + i < b.size(); i++) b[p + i] = v[i];
        break;
      }
      default: { // duplicate or splice a piece
        size_t q = g.below(b.size() + 1), n = g.below(b.size() - q + 1);
        b.insert(p, b.substr(q, std::min<size_t>(n, 200)));
      }
    }
  }
  return b;
}
static inline bytes hostile_frames(Rng &g)
{
  bytes r;
  for (uint64_t n = 1 + g.below(6); n-- > 0;) {
    static const uint64_t types[] = { 0, 1, 2, 3, 4, 5, 7, 13, 14, 6, 8, 0x21 };
    uint64_t t = types[g.below(12)];
    bytes p = g.chance(1, 4) ? ref::qpack(any_headers(g, 3, 40), g) : g.chance(1, 2) ? ref::varint_any(any_varint(g), g) + ref::varint_any(any_varint(g), g) : any_bytes(g, 40);
    r += g.chance(1, 4) ? ref::varint_any(t, g) + ref::varint_any(any_varint(g), g) + p : ref::frame_any(t, p, g);
  }
  return r;
}
// A header block, or something that resembles one.
static inline bytes hostile_block(Rng &g)
{
  bytes r = g.chance(7, 8) ? bytes(2, '\0') : any_bytes(g, 4);
  for (uint64_t n = 1 + g.below(5); n-- > 0;) switch (g.below(6)) {
      case 0: r += ref::qpack_line(any_header(g, 60), g); break;
      case 1: r += ref::pint(g.chance(1, 2) ? g.below(400) : any_u64(g), 6, 0x80 | (unsigned) g.below(2) << 6); break;
      case 2: r += ref::pint(g.chance(1, 2) ? g.below(400) : any_u64(g), 4, 0x40 | (unsigned) g.below(4) << 4) + ref::literal(any_bytes(g, 20), 7, g.chance(1, 2)); break;
      case 3: r += ref::literal(any_bytes(g, 20), 3, g.chance(1, 2), 0x20) + ref::literal(any_bytes(g, 20), 7, g.chance(1, 2)); break;
      case 4: r += ref::pint(any_u64(g), 3, 0x20 | (unsigned) g.below(2) << 3) + any_bytes(g, 30); break;
      default: r += (char) g.next();
    }
  return g.chance(1, 3) ? mutate(r, g) : r;
}
static inline bytes hostile_stream(Rng &g)
{
  switch (g.below(6)) {
    case 0: return any_bytes(g, 400);
    case 1: return hostile_frames(g);
    case 2: return mutate(foreign_stream(any_msg(g, 200), g), g);
    case 3: return ref::frame_any(ref::HEADERS, hostile_block(g), g) + hostile_frames(g);
    case 4: return mutate(foreign_control(g), g);
    default: return foreign_stream(any_msg(g, 300), g);
  }
}

// ---- codecs
template<typename Seq> static void decode_everything(Digest &d, const bytes &in, Rng &g, Seq make)
{
  auto put = [&](const char *l, const Decoded &r) { d.add(l, bytes(1, (char) r.ok) + (r.ok ? r.value : bytes(ename(r.err))) + u64(r.consumed) + r.left); };
  { auto s = make(in); put("varint::decode", run_decode(s, DecVarint())); }
  { auto s = make(in); put("frame::decode", run_decode(s, DecFrame())); }
  { auto s = make(in); put("frame::peek", run_decode(s, PeekFrame())); }
  unsigned p = 1 + (unsigned) g.below(8);
  { auto s = make(in); put("prefix_int::decode", run_decode(s, DecPint{ p })); }
  p = 1 + (unsigned) g.below(7);
  { auto s = make(in); put("literal::decode", run_decode(s, DecLiteral{ p })); }
  size_t n = g.below(in.size() + 1);
  { auto s = make(in); put("huffman::decode", run_decode(s, DecHuffman{ n })); }
  {
    auto s = make(in);
    http3::qpack::decoder q;
    for (int i = 0; i < 64 && s.size(); i++) {
      auto r = q.decode(s);
      d.add("qpack::decode", r ? str(r.value().name()) + "\1" + str(r.value().value()) : bytes(ename(r.error())));
      d.add("count", u64(q.count()) + u64(s.size()));
      if (!r) break;
    }
  }
  {
    auto s = make(in);
    http3::headers::decoder h;
    for (int i = 0; i < 64 && !h.finished(); i++) {
      auto r = h.decode(s);
      d.add("headers::decode", r ? str(r.value().name()) + "\1" + str(r.value().value()) : bytes(ename(r.error())));
      if (!r) break;
    }
    d.add("state", bytes(1, (char) (h.started() * 2 + h.finished())) + content(s));
  }
  {
    auto s = make(in);
    http3::body::decoder b;
    for (int i = 0; i < 64; i++) {
      auto r = b.decode(s);
      d.add("body::decode", r ? str(r.value()) : bytes(ename(r.error())));
      if (!r || s.empty()) break;
    }
    d.add("state", bytes(1, (char) b.in_progress()) + content(s));
  }
}
// Destination buffers that start with different contents.
struct Dest {
  int pattern;
  std::vector<uint8_t> raw;
  uint64_t counter = 0;
  uint8_t *at(size_t n)
  {
    raw.resize(n + 64);
    for (auto &c : raw) c = pattern < 256 ? (uint8_t) pattern : (uint8_t) (counter++ * 0x9e37 >> 5);
    before = raw;
    size = n;
    return raw.data() + 32;
  }
  std::vector<uint8_t> before;
  size_t size = 0;
  bytes get(const char *who)
  {
    for (size_t i = 0; i < raw.size(); i++)
      if (i < 32 || i >= 32 + size) CHECK(raw[i] == before[i], "writes-outside", "%s wrote outside of the %zu bytes it announced", who, size);
    return bytes(raw.begin() + 32, raw.begin() + 32 + (long) size);
  }
};
static inline http3::frame any_frame(Rng &g)
{
  using F = http3::frame;
  using P = F::payload;
  auto v = [&]() { return g.chance(1, 30) ? any_u64(g) : any_varint(g); };
  switch (g.below(9)) {
    case 0: return P::data{ v() };
    case 1: return P::headers{ v() };
    case 2: {
      P::priority p{};
      p.prioritized_element_type = (P::priority::type) g.below(4);
      p.element_dependency_type = (P::priority::type) g.below(4);
      p.prioritized_element_id = v();
      p.element_dependency_id = v();
      p.weight = (uint8_t) g.next();
      return p;
    }
    case 3: { http3::settings s; s.max_header_list_size = v(); s.num_placeholders = v(); s.qpack_max_table_capacity = v(); s.qpack_blocked_streams = v(); return s; }
    case 4: return P::cancel_push{ v() };
    case 5: return P::push_promise{ v(), v() };
    case 6: return P::goaway{ v() };
    case 7: return P::max_push_id{ v() };
    default: return P::duplicate_push{ v() };
  }
}
static inline void encode_everything(Digest &d, Rng &g, int pattern)
{
  namespace q = http3::qpack;
  Dest dest;
  dest.pattern = pattern;
  auto res = [&](const char *l, http3::result<base::buffer> r) { d.add(l, r ? str(r.value()) : bytes(ename(r.error()))); };
  {
    uint64_t v = any_u64(g);
    res("varint::encode", http3::varint::encode(v));
    auto n = http3::varint::encoded_size(v);
    d.add("varint::encoded_size", n ? u64(n.value()) : bytes(ename(n.error())));
    if (n) {
      auto r = http3::varint::encode(dest.at(n.value()), v);
      d.add("varint::encode(dest)", (r ? u64(r.value()) : bytes(ename(r.error()))) + dest.get("varint::encode"));
    }
  }
  {
    http3::frame f = any_frame(g);
    res("frame::encode", http3::frame::encode(f));
    auto n = http3::frame::encoded_size(f);
    d.add("frame::encoded_size", n ? u64(n.value()) : bytes(ename(n.error())));
    if (n) {
      auto r = http3::frame::encode(dest.at(n.value()), f);
      d.add("frame::encode(dest)", (r ? u64(r.value()) : bytes(ename(r.error()))) + dest.get("frame::encode"));
    }
  }
  // The prefix encoders merge their bits into a first byte given by the caller;
  // only that byte's high bits are the caller's.
  {
    uint64_t v = any_u64(g);
    uint8_t p = (uint8_t) g.range(1, 8), high = (uint8_t)((g.next() << p) & 0xff);
    d.add("prefix_int::encode", str(q::prefix_int::encode(v, p)));
    size_t n = q::prefix_int::encoded_size(v, p);
    uint8_t *t = dest.at(n);
    *t = high;
    size_t w = q::prefix_int::encode(t, v, p);
    d.add("prefix_int::encode(dest)", u64(n) + u64(w) + dest.get("prefix_int::encode"));
  }
  {
    // Beyond any small fixed-size scratch space now and then.
    bytes s = any_bytes(g, g.chance(1, 25) ? 9000 : 120);
    base::string_view v(s.data(), s.size());
    uint8_t p = (uint8_t) g.range(1, 7), high = (uint8_t)((g.next() << (p + 1)) & 0xff);
    d.add("literal::encode", str(q::literal::encode(v, p)));
    size_t n = q::literal::encoded_size(v, p);
    uint8_t *t = dest.at(n);
    *t = high;
    size_t w = q::literal::encode(t, v, p);
    d.add("literal::encode(dest)", u64(n) + u64(w) + dest.get("literal::encode"));
    d.add("huffman::encode", str(q::huffman::encode(v)));
    n = q::huffman::encoded_size(v);
    w = q::huffman::encode(dest.at(n), v);
    d.add("huffman::encode(dest)", u64(n) + u64(w) + dest.get("huffman::encode"));
  }
  {
    q::encoder e, e2;
    for (auto &h : any_headers(g, 4, g.chance(1, 25) ? 5000 : 60)) {
      if (g.chance(1, 12) && !h.name.empty()) h.name[0] = 'Q';
      http3::header_view v(base::string_view(h.name.data(), h.name.size()), base::string_view(h.value.data(), h.value.size()));
      res("qpack::encode", e.encode(v));
      auto n = e2.encoded_size(v);
      d.add("qpack::encoded_size", n ? u64(n.value()) : bytes(ename(n.error())));
      if (n) {
        auto r = e2.encode(dest.at(n.value()), v);
        d.add("qpack::encode(dest)", (r ? u64(r.value()) : bytes(ename(r.error()))) + dest.get("qpack::encode"));
      }
      d.add("count", u64(e.count()) + u64(e2.count()));
    }
  }
  {
    http3::headers::encoder e;
    for (auto &h : any_headers(g, 4, g.chance(1, 25) ? 5000 : 60)) {
      auto r = e.add({ base::string_view(h.name.data(), h.name.size()), base::string_view(h.value.data(), h.value.size()) });
      if (!r) d.add("headers::add", ename(r.error()));
    }
    (void) e.fin();
    for (int i = 0; i < 100 && !e.finished(); i++) {
      auto r = e.encode();
      d.add("headers::encode", r ? str(r.value()) : bytes(ename(r.error())));
      if (!r) break;
    }
    http3::body::encoder b;
    for (uint64_t k = g.below(4); k-- > 0;) (void) b.add(buf(any_bytes(g, g.chance(1, 25) ? 70000 : 60)));
    if (g.chance(1, 2)) (void) b.fin();
    for (int i = 0; i < 100 && !b.finished(); i++) {
      auto r = b.encode();
      d.add("body::encode", r ? str(r.value()) : bytes(ename(r.error())));
      if (!r) break;
    }
  }
}

// ---- connections
template<typename Conn> static void feed_hostile(Digest &d, Conn &c, Rng &g, const char *who, bool server, unsigned streams)
{
  std::vector<std::pair<uint64_t, std::vector<Frag>>> in;
  for (unsigned i = 0; i < streams; i++) {
    uint64_t id;
    switch (g.below(6)) {
      case 0: id = server ? 2 : 3; break;
      case 1: id = g.below(12); break;
      default: id = 4 * g.below(4);
    }
    bool fin = g.chance(1, 2);
    in.emplace_back(id, fragments(id == 2 || id == 3 ? (g.chance(1, 2) ? foreign_control(g) : hostile_stream(g)) : hostile_stream(g), fin, g, 6));
  }
  std::vector<size_t> pos(in.size());
  std::set<uint64_t> failed;
  for (;;) {
    std::vector<size_t> left;
    for (size_t i = 0; i < in.size(); i++) if (pos[i] < in[i].second.size() && !failed.count(in[i].first)) left.push_back(i);
    if (left.empty()) break;
    size_t i = g.pick(left);
    const Frag &f = in[i].second[pos[i]++];
    quic::data q;
    q.id = in[i].first;
    q.fin = f.fin;
    q.buffer = buf(f.b);
    auto r = c.recv(quic::event(std::move(q)));
    if (!r) {
      d.add(who, bytes("recv ") + ename(r.error()));
      if (g.chance(3, 4)) failed.insert(in[i].first);
      continue;
    }
    auto gen = std::move(r).value();
    unsigned k = 0;
    while (gen.next() && k++ < 20000) {
      auto e = gen.get();
      if (!e) {
        d.add(who, u64(in[i].first) + ename(e.error()));
        if (g.chance(3, 4)) failed.insert(in[i].first);
        break;
      }
      http3::event ev = std::move(e).value();
      using t = http3::event::type;
      switch ((t) ev) {
        case t::settings: d.add(who, "settings" + u64(ev.settings.max_header_list_size) + u64(ev.settings.num_placeholders) + u64(ev.settings.qpack_max_table_capacity) + u64(ev.settings.qpack_blocked_streams)); break;
        case t::header: d.add(who, u64(ev.header.id) + "header" + str(ev.header.header.name()) + "\1" + str(ev.header.header.value()) + (ev.header.fin ? "F" : "")); break;
        case t::body: d.add(who, u64(ev.body.id) + "body" + str(ev.body.buffer) + (ev.body.fin ? "F" : "")); break;
        case t::finished: d.add(who, u64(ev.finished.id) + "finished"); break;
      }
    }
    CHECK(k < 20000, "endless", "%s: a generator never ends", who);
  }
}
static inline void send_all(Digest &d, const char *who, std::function<http3::result<quic::event>()> f)
{
  for (int i = 0; i < 10000; i++) {
    auto r = f();
    if (!r) { d.add(who, ename(r.error())); return; }
    quic::event e = std::move(r).value();
    d.add(who, u64(e.data.id) + bytes(1, (char) e.data.fin) + str(e.data.buffer));
  }
}
static inline void hostile_connections(Digest &d, Rng &g)
{
  {
    http3::client::connection c;
    std::vector<http3::request::handle> hs;
    for (uint64_t i = 0, n = 1 + g.below(4); i < n; i++) {
      auto r = c.request();
      if (!r) continue;
      hs.push_back(std::move(r).value());
      auto &h = hs.back();
      (void) h.header({ ":method", "GET" });
      (void) h.start();
      if (g.chance(1, 2)) (void) h.body(buf(any_bytes(g, 30)));
      if (g.chance(1, 2)) (void) h.fin();
    }
    if (g.chance(3, 4)) send_all(d, "client send", [&] { return c.send(); });
    feed_hostile(d, c, g, "client recv", false, 1 + (unsigned) g.below(5));
    for (auto &h : hs) {
      auto r = h.body(buf("x"));
      d.add("client handle", r ? bytes("ok") : bytes(ename(r.error())));
    }
    send_all(d, "client send", [&] { return c.send(); });
  }
  {
    http3::server::connection s;
    feed_hostile(d, s, g, "server recv", true, 1 + (unsigned) g.below(5));
    std::vector<http3::response::handle> hs;
    for (uint64_t id = 0; id < 13; id += 1 + g.below(4)) {
      auto r = s.response(id);
      if (!r) { d.add("server response", ename(r.error())); continue; }
      hs.push_back(std::move(r).value());
      auto &h = hs.back();
      (void) h.header({ ":status", "200" });
      (void) h.start();
      if (g.chance(1, 2)) (void) h.body(buf(any_bytes(g, 30)));
      if (g.chance(1, 2)) (void) h.fin();
    }
    send_all(d, "server send", [&] { return s.send(); });
    feed_hostile(d, s, g, "server recv", true, 1 + (unsigned) g.below(3));
    send_all(d, "server send", [&] { return s.send(); });
  }
}
static inline void legal_session(Digest &d, Rng &g)
{
  SessionOpts o;
  o.steps = 120;
  o.max_body = g.chance(1, 12) ? 30000 : 400;
  o.max_requests = 3;
  Session s(g, o);
  try {
    s.run();
  } catch (const Violation &v) {
    // Whether the session is right is decided elsewhere; here it only has to
    // go the same way every time.
    d.add("session violation", v.key);
  }
  for (auto &kv : s.cw) d.add("client wire", u64(kv.first) + kv.second.data);
  for (auto &kv : s.sw) d.add("server wire", u64(kv.first) + kv.second.data);
  for (auto &kv : s.crx) d.add("client received", u64(kv.first) + kv.second.digest());
  for (auto &kv : s.srx) d.add("server received", u64(kv.first) + kv.second.digest());
  d.add("schedule", u64(s.sched));
}

static inline Digest traffic(Rng g, int pattern = 0)
{
  Digest d;
  for (int i = 0; i < 3; i++) encode_everything(d, g, pattern);
  for (int i = 0; i < 2; i++) {
    bytes in = g.chance(1, 2) ? hostile_stream(g) : hostile_block(g);
    if (g.chance(1, 25)) in = foreign_stream(any_msg(g, 20000), g);
    else if (in.size() > 300) in.resize(300);
    Rng h(g.next());
    Rng h2 = h;
    decode_everything(d, in, h, [](const bytes &b) { return buf(b); });
    decode_everything(d, in, h2, [&](const bytes &b) { return bufs(split(b, g)); });
  }
  hostile_connections(d, g);
  legal_session(d, g);
  return d;
}
