// C03: HTTP/3 frames.
#include "bnlx.hpp"
const char *const RULE = "each case builds random frames of all nine types with edge-biased fields, checks three ways of encoding against an independent parser, decodes minimal and non-minimal encodings behind 0..4 unknown frames through all six byte-sequence kinds with random following bytes, cuts them at random points, and changes the declared payload length; non-trivial: at least one frame decoded; distinct by the encoded frames";
void harness_init() { base::logger = nullptr; }

using F = http3::frame;
using T = F::type;

struct Spec { // a frame as plain numbers
  uint64_t type = 0;
  uint64_t a = 0, b = 0; // ids, sizes
  unsigned pt = 0, dt = 0, weight = 0;
  uint64_t s[4] = { ref::VARINT_MAX, 0, 0, 0 }; // max_header_list_size, num_placeholders, table capacity, blocked streams
};
static const uint64_t SID[4] = { 0x6, 0x9, 0x1, 0x7 };

static F make(const Spec &s)
{
  switch (s.type) {
    case ref::DATA: { F::payload::data d; d.size = s.a; return F(d); }
    case ref::HEADERS: { F::payload::headers d; d.size = s.a; return F(d); }
    case ref::PRIORITY: {
      F::payload::priority p;
      p.prioritized_element_type = static_cast<F::payload::priority::type>(s.pt);
      p.element_dependency_type = static_cast<F::payload::priority::type>(s.dt);
      p.prioritized_element_id = s.a;
      p.element_dependency_id = s.b;
      p.weight = (uint8_t) s.weight;
      return F(p);
    }
    case ref::CANCEL_PUSH: { F::payload::cancel_push d; d.push_id = s.a; return F(d); }
    case ref::SETTINGS: {
      F::payload::settings d;
      d.max_header_list_size = s.s[0];
      d.num_placeholders = s.s[1];
      d.qpack_max_table_capacity = s.s[2];
      d.qpack_blocked_streams = s.s[3];
      return F(d);
    }
    case ref::PUSH_PROMISE: { F::payload::push_promise d; d.push_id = s.a; d.size = s.b; return F(d); }
    case ref::GOAWAY: { F::payload::goaway d; d.stream_id = s.a; return F(d); }
    case ref::MAX_PUSH_ID: { F::payload::max_push_id d; d.push_id = s.a; return F(d); }
    default: { F::payload::duplicate_push d; d.push_id = s.a; return F(d); }
  }
}
// The same rendering as render(frame), from the plain numbers.
static bytes render(const Spec &s)
{
  bytes r = u64(s.type);
  switch (s.type) {
    case ref::PRIORITY: r += (char) s.pt; r += (char) s.dt; r += u64(s.a) + u64(s.b); r += (char) s.weight; break;
    case ref::SETTINGS: for (auto v : s.s) r += u64(v); break;
    case ref::PUSH_PROMISE: r += u64(s.a) + u64(s.b); break;
    default: r += u64(s.a);
  }
  return r;
}
static bool fits(const Spec &s)
{
  switch (s.type) {
    case ref::PRIORITY: return s.a <= ref::VARINT_MAX && s.b <= ref::VARINT_MAX;
    case ref::SETTINGS: for (auto v : s.s) if (v > ref::VARINT_MAX) return false; return true;
    case ref::PUSH_PROMISE: return s.a <= ref::VARINT_MAX && s.b <= ref::VARINT_MAX && s.b + ref::varint_min(s.a) <= ref::VARINT_MAX;
    default: return s.a <= ref::VARINT_MAX;
  }
}
// Encoding by another implementation. `len_delta` falsifies the length.
static bytes foreign(const Spec &s, Rng &g, int64_t len_delta = 0, size_t *fields_len = nullptr)
{
  bytes p;
  uint64_t extra = 0;
  switch (s.type) {
    case ref::DATA: case ref::HEADERS: extra = s.a; break;
    case ref::PRIORITY: p = bytes(1, (char) (s.pt << 6 | s.dt << 4)) + ref::varint_any(s.a, g) + ref::varint_any(s.b, g) + (char) s.weight; break;
    case ref::SETTINGS: {
      std::vector<int> order{ 0, 1, 2, 3 };
      std::swap(order[g.below(4)], order[g.below(4)]);
      int many = g.chance(1, 200) ? 1 << (1 + g.below(11)) : 0;
      for (int i : order) {
        while (many-- > 0 || g.chance(1, 4)) { // unknown setting
          uint64_t id = any_varint(g);
          if (id == 1 || id == 6 || id == 7 || id == 9) id = 0x21;
          p += ref::varint_any(id, g) + ref::varint_any(any_varint(g), g);
        }
        uint64_t dflt = i == 0 ? ref::VARINT_MAX : 0;
        if (s.s[i] == dflt && g.chance(1, 2)) continue; // omitted: default
        p += ref::varint_any(SID[i], g) + ref::varint_any(s.s[i], g);
      }
      break;
    }
    case ref::PUSH_PROMISE: p = ref::varint_any(s.a, g); extra = s.b; break;
    default: p = ref::varint_any(s.a, g);
  }
  if (fields_len) *fields_len = p.size();
  uint64_t len = p.size() + extra + (uint64_t) len_delta;
  return ref::varint_any(s.type, g) + ref::varint_any(len, g) + p;
}
static Spec any_frame(Rng &g, bool allow_overflow)
{
  static const uint64_t types[] = { 0, 1, 2, 3, 4, 5, 7, 13, 14 };
  Spec s;
  s.type = types[g.below(9)];
  bool of = allow_overflow && g.chance(1, 4);
  auto num = [&] { return of ? any_u64(g) : any_varint(g); };
  s.a = num();
  s.b = num();
  s.pt = (unsigned) g.below(4);
  s.dt = (unsigned) g.below(4);
  s.weight = (unsigned) g.below(256);
  for (int i = 0; i < 4; i++)
    if (g.chance(2, 3)) s.s[i] = num();
  return s;
}
// The payload length of a PUSH_PROMISE with an overlong push id may not fit.
static void clamp(Spec &s)
{
  if (s.type == ref::PUSH_PROMISE && s.b > ref::VARINT_MAX - 8) s.b = ref::VARINT_MAX - 8;
}
static bytes unknown_frames(Rng &g, std::vector<size_t> *ends)
{
  bytes r;
  for (size_t k = g.below(5); k-- > 0;) {
    uint64_t t;
    do t = g.chance(1, 2) ? 0x1f * g.below(1000) + 0x21 : any_varint(g); while (ref::known_type(t));
    r += ref::frame_any(t, g.chance(1, 3000) ? bytes(60000 + g.below(20000), (char) g.below(256)) : any_bytes(g, g.chance(1, 30) ? 3000 : 40), g);
    if (ends) ends->push_back(r.size());
  }
  return r;
}
static std::string name(const Spec &s) { return strf("frame type %llu a=%llu b=%llu", (unsigned long long) s.type, (unsigned long long) s.a, (unsigned long long) s.b); }

// What an independent parser makes of an encoding. Returns "" if fine.
static std::string parse(const bytes &e, Spec &s, uint64_t &total)
{
  size_t pos = 0;
  uint64_t len;
  if (!ref::varint_get(e, pos, s.type) || !ref::varint_get(e, pos, len)) return "no type and length";
  size_t start = pos;
  auto num = [&](uint64_t &v) { return ref::varint_get(e, pos, v); };
  uint64_t extra = 0;
  switch (s.type) {
    case ref::DATA: case ref::HEADERS: s.a = extra = len; break;
    case ref::PRIORITY:
      if (pos >= e.size()) return "short";
      s.pt = (unsigned char) e[pos] >> 6;
      s.dt = ((unsigned char) e[pos] >> 4) & 3;
      if ((unsigned char) e[pos] & 15) return "reserved bits set";
      pos++;
      if (!num(s.a) || !num(s.b) || pos >= e.size()) return "short";
      s.weight = (unsigned char) e[pos++];
      break;
    case ref::SETTINGS: {
      std::set<uint64_t> seen;
      while (pos - start < len) {
        uint64_t id, v;
        if (!num(id) || !num(v)) return "short";
        if (!seen.insert(id).second) return "duplicate setting";
        for (int i = 0; i < 4; i++)
          if (SID[i] == id) s.s[i] = v;
      }
      break;
    }
    case ref::PUSH_PROMISE:
      if (!num(s.a)) return "short";
      if (len < pos - start) return "length too small";
      s.b = extra = len - (pos - start);
      break;
    default:
      if (!ref::known_type(s.type)) return "unknown type";
      if (!num(s.a)) return "short";
  }
  if (pos - start + extra != len) return "length does not match fields";
  if (pos != e.size()) return "trailing bytes";
  total = len;
  return "";
}

static void encode_case(Ctx &c)
{
  Rng &g = c.rng;
  Spec s = any_frame(g, true);
  F f = make(s);
  CHECK((uint64_t)(T) f == s.type, "type", "%s reports type %llu", name(s).c_str(), (unsigned long long) (T) f);
  auto es = F::encoded_size(f);
  auto eb = F::encode(f);
  if (!fits(s)) {
    CHECK(!es && es.error() == h3err::varint_overflow, "overflow", "%s: encoded_size does not report varint_overflow", name(s).c_str());
    CHECK(!eb && eb.error() == h3err::varint_overflow, "overflow", "%s: encode does not report varint_overflow", name(s).c_str());
    uint8_t raw[256];
    auto ed = F::encode(raw, f);
    CHECK(!ed && ed.error() == h3err::varint_overflow, "overflow", "%s: encode(dest) does not report varint_overflow", name(s).c_str());
    c.stat("overflows");
    return;
  }
  CHECK(es && eb, "encode-fails", "%s is not encoded", name(s).c_str());
  bytes e = str(eb.value());
  CHECK(e.size() == es.value(), "encoded-size", "%s: encoded_size %zu but %zu bytes", name(s).c_str(), es.value(), e.size());
  std::vector<uint8_t> raw(e.size() + 64, 0xab);
  auto ed = F::encode(raw.data() + 32, f);
  CHECK(ed && ed.value() == e.size(), "encoded-size", "%s: encode(dest) does not return %zu", name(s).c_str(), e.size());
  CHECK(bytes(raw.begin() + 32, raw.begin() + 32 + (long) e.size()) == e, "encode-bytes", "%s: encode(dest) differs from encode()", name(s).c_str());
  for (size_t i = 0; i < raw.size(); i++)
    if (i < 32 || i >= 32 + e.size()) CHECK(raw[i] == 0xab, "encode-outside", "%s: encode(dest) wrote outside its bytes", name(s).c_str());
  Spec back;
  uint64_t total = 0;
  std::string bad = parse(e, back, total);
  CHECK(bad.empty(), "encode-illegal", "%s encodes to %s: %s", name(s).c_str(), hex(e).c_str(), bad.c_str());
  CHECK(render(back) == render(s), "encode-value", "%s encodes to %s, which is another frame", name(s).c_str(), hex(e).c_str());
  bytes tail = any_bytes(g, 20);
  for (int k = 0; k < 6; k++) {
    Decoded d = decode_kind(k, e + tail, g, DecFrame{});
    CHECK(d.ok && d.value == render(s), "roundtrip", "%s: %s does not round-trip through %s: %s", KIND[k], name(s).c_str(), hex(e).c_str(), show(d).c_str());
    CHECK(d.consumed == e.size() && d.left == tail, "consumed", "%s: decoding %s consumed %zu", KIND[k], hex(e + tail).c_str(), d.consumed);
    c.stat("roundtrips");
  }
  base::buffer b = buf(e);
  auto r = F::decode(b);
  CHECK(r && r.value() == f && !(r.value() != f), "equality", "%s is not equal to its decoded encoding", name(s).c_str());
  Spec o = any_frame(g, false);
  if (g.chance(1, 2)) {
    o = s;
    switch (g.below(4)) {
      case 0: o.a ^= 1; break;
      case 1: o.b ^= 1; break;
      case 2: o.weight ^= 1; break;
      default: o.s[g.below(4)] ^= 1;
    }
  }
  F of = make(o);
  bool same = render(o) == render(s);
  CHECK((of == f) == same && (of != f) == !same, "equality", "%s and %s: equality is wrong", name(s).c_str(), name(o).c_str());
  c.interesting();
  c.observe(e);
  c.sample(name(s) + " = " + hex(e));
}

static void decode_case(Ctx &c)
{
  Rng &g = c.rng;
  Spec s = any_frame(g, false);
  clamp(s);
  std::vector<size_t> ends;
  bytes pre = unknown_frames(g, &ends);
  bytes e = foreign(s, g);
  bytes tail = any_bytes(g, 20);
  c.observe(pre);
  c.observe(e);
  for (int k = 0; k < 6; k++) {
    bytes in = pre + e + tail;
    Decoded p = decode_kind(k, in, g, PeekFrame{});
    CHECK(p.ok && p.value == u64(s.type), "peek", "%s: peek of %s should be type %llu: %s", KIND[k], hex(in).c_str(), (unsigned long long) s.type, show(p).c_str());
    CHECK(p.consumed == 0, "peek-consumes", "%s: peek of %s consumed %zu bytes", KIND[k], hex(in).c_str(), p.consumed);
    Decoded d = decode_kind(k, in, g, DecFrame{});
    CHECK(d.ok && d.value == render(s), "foreign-decode", "%s: %s should decode to %s (unknown frames: %zu bytes): %s", KIND[k], hex(in).c_str(), name(s).c_str(), pre.size(), show(d).c_str());
    CHECK(d.consumed == pre.size() + e.size() && d.left == tail, "consumed", "%s: decoding %s consumed %zu, not %zu", KIND[k], hex(in).c_str(), d.consumed, pre.size() + e.size());
    c.stat("foreign-decodes");
    c.stat("unknown-frames-skipped", ends.size());
    size_t cut = g.below(pre.size() + e.size());
    bytes part = in.substr(0, cut);
    Decoded t = decode_kind(k, part, g, DecFrame{});
    CHECK(!t.ok && t.err == h3err::incomplete, "truncated", "%s: truncated %s: %s", KIND[k], hex(part).c_str(), show(t).c_str());
    bool boundary = t.consumed == 0 || std::find(ends.begin(), ends.end(), t.consumed) != ends.end();
    CHECK(boundary, "truncated-consumed", "%s: truncated %s: %zu bytes consumed", KIND[k], hex(part).c_str(), t.consumed);
    Decoded q = decode_kind(k, part, g, PeekFrame{});
    CHECK(q.ok ? q.value == u64(s.type) : q.err == h3err::incomplete, "truncated-peek", "%s: peek of truncated %s: %s", KIND[k], hex(part).c_str(), show(q).c_str());
    CHECK(q.consumed == 0, "peek-consumes", "%s: peek of %s consumed %zu bytes", KIND[k], hex(part).c_str(), q.consumed);
    c.stat("truncations");
  }
  c.interesting();
  // A declared length that the fields do not fill, or overrun.
  if (s.type != ref::DATA && s.type != ref::HEADERS) {
    size_t fl = 0;
    Rng probe = g;
    foreign(s, probe, 0, &fl);
    Rng same = g;
    int64_t delta = 0;
    if (s.type == ref::PUSH_PROMISE) {
      s.b = 0;
      Rng pr = g;
      foreign(s, pr, 0, &fl);
      delta = -(int64_t) (1 + g.below(fl)); // declared length ends inside the push id
      same = g;
      probe = g;
      foreign(s, probe, 0, &fl);
      if ((uint64_t) -delta > fl) delta = -(int64_t) fl;
    } else if (s.type == ref::SETTINGS) {
      if (fl == 0) return;
      // Cutting at a setting boundary gives a legal shorter frame, so cut
      // inside the last value: its last byte always belongs to it.
      delta = -1;
    } else if (g.chance(1, 2) && fl > 0) {
      delta = -(int64_t) (1 + g.below(fl));
      same = g;
      probe = g;
      foreign(s, probe, 0, &fl);
      if ((uint64_t) -delta > fl) delta = -(int64_t) fl;
    } else {
      delta = 1 + (int64_t) g.below(10);
      same = g;
    }
    bytes bad = foreign(s, same, delta);
    bytes in = bad + bytes(40, '\0');
    for (int k = 0; k < 6; k++) {
      Decoded d = decode_kind(k, in, g, DecFrame{});
      CHECK(!d.ok, "malformed-accepted", "%s: %s with a declared length off by %lld is accepted: %s", KIND[k], hex(bad).c_str(), (long long) delta, show(d).c_str());
      CHECK(d.err == h3err::malformed_frame || d.err == h3err::incomplete, "malformed-error", "%s: %s with a declared length off by %lld: %s", KIND[k], hex(bad).c_str(), (long long) delta, show(d).c_str());
      c.stat("malformed-refused");
    }
  }
}
void run_case(Ctx &c)
{
  for (int i = 0; i < 6; i++) encode_case(c);
  for (int i = 0; i < 3; i++) decode_case(c);
}
