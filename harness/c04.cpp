// C04: QPACK.
#include "bnlx.hpp"
namespace qp = http3::qpack;
const char *const RULE = "cases 0..98 enumerate the static table (indexed, name reference, encoding of the entry and of near misses), cases 99..355 enumerate indices outside it; then random header lists are encoded and read back by the library and by an independent decoder, random representations by another encoder are decoded, and one invalid line is put behind a valid prefix; buffers and chunked buffers, with bytes following; non-trivial: at least one header decoded; distinct by header lists and blocks";
void harness_init() { base::logger = nullptr; }

struct Block {
  bool ok = true;
  h3err err = h3err::no_error;
  ref::Headers headers;
  uint64_t count = 0;
  bytes left;
};
// Decodes until `total` bytes are counted, or an error.
template<typename S> static Block decode_all(S &s, uint64_t total)
{
  Block r;
  qp::decoder d;
  while (d.count() < total) {
    uint64_t before = d.count();
    size_t size = s.size();
    auto h = d.decode(s);
    if (!h) {
      r.ok = false;
      r.err = h.error();
      break;
    }
    CHECK(d.count() - before == size - s.size(), "count", "count() grew by %llu but %zu bytes were consumed", (unsigned long long) (d.count() - before), size - s.size());
    r.headers.push_back({ str(h.value().name()), str(h.value().value()) });
    CHECK(r.headers.size() < 10000, "endless", "header block does not end");
  }
  r.count = d.count();
  r.left = content(s);
  return r;
}
static Block decode(const bytes &in, uint64_t total, bool chunked, Rng &g)
{
  if (chunked) {
    base::buffers b = bufs(split(in, g));
    return decode_all(b, total);
  }
  base::buffer b = buf(in);
  return decode_all(b, total);
}
static void valid(Ctx &c, const bytes &block, const ref::Headers &want)
{
  for (int k = 0; k < 2; k++) {
    bytes tail = any_bytes(c.rng, 20);
    Block r = decode(block + tail, block.size(), k, c.rng);
    CHECK(r.ok, "refuses-valid", "valid block %s is refused with %s after %zu headers (expected %s)", hex(block).c_str(), ename(r.err), r.headers.size(), ref::show(want).c_str());
    CHECK(r.headers == want, "decode-value", "%s decodes to %s, expected %s", hex(block).c_str(), ref::show(r.headers).c_str(), ref::show(want).c_str());
    CHECK(r.count == block.size() && r.left == tail, "count", "block of %zu bytes: count() is %llu, %zu bytes are left of %zu", block.size(), (unsigned long long) r.count, r.left.size(), tail.size());
    c.stat("blocks-decoded");
    c.stat("headers-decoded", want.size());
  }
  if (!want.empty()) c.interesting();
}
static void invalid(Ctx &c, const bytes &good, const ref::Headers &before, const bytes &line, h3err e, const char *what)
{
  bytes in = good + line + bytes(8, '\0');
  for (int k = 0; k < 2; k++) {
    Block r = decode(in, in.size(), k, c.rng);
    CHECK(!r.ok && r.headers.size() <= before.size(), "accepts-invalid", "%s: %s after %zu headers is accepted: %s", what, hex(line).c_str(), before.size(), ref::show(r.headers).c_str());
    CHECK(r.err == e, "wrong-error", "%s: %s is reported as %s, expected %s", what, hex(line).c_str(), ename(r.err), ename(e));
    CHECK(r.headers == before, "decode-value", "%s: headers before the invalid line are %s, expected %s", what, ref::show(r.headers).c_str(), ref::show(before).c_str());
    c.stat("invalid-refused");
  }
}
static void encode(Ctx &c, const ref::Headers &hs)
{
  Rng &g = c.rng;
  qp::encoder e, e2;
  bytes block, block2;
  for (auto &h : hs) {
    http3::header_view v(base::string_view(h.name.data(), h.name.size()), base::string_view(h.value.data(), h.value.size()));
    auto es = e.encoded_size(v);
    CHECK(es, "encode-fails", "encoded_size of %s fails", ref::show({ h }).c_str());
    uint64_t before = e.count();
    auto r = e.encode(v);
    CHECK(r, "encode-fails", "%s is not encoded: %s", ref::show({ h }).c_str(), ename(r.error()));
    CHECK(r.value().size() == es.value(), "encoded-size", "%s: encoded_size %zu but %zu bytes", ref::show({ h }).c_str(), es.value(), r.value().size());
    block += str(r.value());
    CHECK(e.count() - before == es.value() && e.count() == block.size(), "count", "encoder count() %llu after %zu bytes", (unsigned long long) e.count(), block.size());
    std::vector<uint8_t> raw(es.value() + 64, (uint8_t) g.next());
    uint8_t canary = raw[0];
    auto r2 = e2.encode(raw.data() + 32, v);
    CHECK(r2 && r2.value() == es.value(), "encoded-size", "%s: encode(dest) does not return %zu", ref::show({ h }).c_str(), es.value());
    block2 += bytes(raw.begin() + 32, raw.begin() + 32 + (long) es.value());
    for (size_t i = 0; i < raw.size(); i++)
      if (i < 32 || i >= 32 + es.value()) CHECK(raw[i] == canary, "encode-outside", "%s: encode(dest) wrote outside its bytes", ref::show({ h }).c_str());
  }
  CHECK(block == block2, "encode-bytes", "encode() gives %s and encode(dest) %s for %s", hex(block).c_str(), hex(block2).c_str(), ref::show(hs).c_str());
  ref::Headers back;
  std::string bad = ref::qpack_get(block, back);
  CHECK(bad.empty(), "encode-illegal", "%s encodes to %s: %s", ref::show(hs).c_str(), hex(block).c_str(), bad.c_str());
  CHECK(back == hs, "encode-value", "%s encodes to %s, which an independent decoder reads as %s", ref::show(hs).c_str(), hex(block).c_str(), ref::show(back).c_str());
  c.stat("lists-encoded");
  valid(c, block, hs);
}
static void uppercase(Ctx &c)
{
  Rng &g = c.rng;
  ref::Headers before = g.chance(1, 2) ? any_headers(g, 3, 30) : ref::Headers();
  ref::Header h = any_header(g, 40);
  if (h.name.empty()) h.name = "x";
  size_t at = g.below(h.name.size());
  h.name[at] = (char) ('A' + g.below(26));
  http3::header_view v(base::string_view(h.name.data(), h.name.size()), base::string_view(h.value.data(), h.value.size()));
  qp::encoder e;
  bytes block;
  for (auto &b : before) block += str(e.encode(http3::header_view(base::string_view(b.name.data(), b.name.size()), base::string_view(b.value.data(), b.value.size()))).value());
  uint64_t count = e.count();
  auto es = e.encoded_size(v);
  CHECK(!es && es.error() == h3err::malformed_header, "uppercase-encode", "encoded_size of %s is not refused", ref::show({ h }).c_str());
  auto r = e.encode(v);
  CHECK(!r && r.error() == h3err::malformed_header, "uppercase-encode", "%s is encoded", ref::show({ h }).c_str());
  CHECK(e.count() == count, "uppercase-count", "refused header changed count()");
  // The refused header leaves no trace.
  ref::Header next = any_header(g, 40);
  block += str(e.encode(http3::header_view(base::string_view(next.name.data(), next.name.size()), base::string_view(next.value.data(), next.value.size()))).value());
  ref::Headers all = before;
  all.push_back(next);
  valid(c, block, all);
  bytes good = ref::qpack(before, g);
  bytes line = ref::literal(h.name, 3, g.chance(1, 2), 0x20) + ref::literal(h.value, 7, g.chance(1, 2));
  invalid(c, good, before, line, h3err::malformed_header, "uppercase name");
  c.stat("uppercase");
}

void run_case(Ctx &c)
{
  Rng &g = c.rng;
  if (c.idx < 99) {
    auto &e = REF_STATIC[c.idx];
    valid(c, bytes(2, '\0') + ref::pint(c.idx, 6, 0xc0), { { e.name, e.value } });
    for (int i = 0; i < 8; i++) {
      bytes v = i == 0 ? bytes() : i == 1 ? bytes(e.value) : any_bytes(g, 60);
      bool never = i & 1;
      for (bool h : { false, true }) valid(c, bytes(2, '\0') + ref::pint(c.idx, 4, 0x50 | (never ? 0x20 : 0)) + ref::literal(v, 7, h), { { e.name, v } });
      encode(c, { { e.name, v } });
    }
    encode(c, { { e.name, e.value } });
    // Every other value of the table with this name, and this value with every name.
    for (auto &o : REF_STATIC) {
      encode(c, { { e.name, o.value } });
      encode(c, { { o.name, e.value }, { e.name, e.value } });
    }
    // Near misses: names and values that differ in one character.
    for (size_t i = 0; e.name[i]; i++) {
      bytes nm = e.name;
      nm[i] = (char) (nm[i] == 'z' ? 'y' : nm[i] + 1);
      if (nm == lower(nm)) encode(c, { { nm, e.value } });
    }
    for (size_t i = 0; e.value[i]; i++) {
      bytes v = e.value;
      v[i] = (char) (v[i] ^ 1);
      encode(c, { { e.name, v } });
      v = e.value;
      if (v[i] >= 'a' && v[i] <= 'z') {
        v[i] = (char) (v[i] - 32);
        encode(c, { { e.name, v } });
      }
    }
    c.observe(c.idx);
    return;
  }
  if (c.idx < 99 + 257) {
    uint64_t i = c.idx == 99 + 256 ? UINT64_MAX : c.idx; // 99..354
    bytes good(2, '\0');
    for (uint64_t j : std::vector<uint64_t>{ i, i + 256, i + 65536, i + (1ULL << 32), (1ULL << 62) + i }) {
      if (j < 99) continue;
      invalid(c, good, {}, ref::pint(j, 6, 0xc0), h3err::qpack_decompression_failed, "index outside the static table");
      invalid(c, good, {}, ref::pint(j, 4, 0x50) + ref::literal("v", 7, false), h3err::qpack_decompression_failed, "name index outside the static table");
    }
    c.observe(c.idx);
    c.interesting();
    return;
  }
  ref::Headers hs = any_headers(g, c.idx % 20 == 0 ? 40 : 6, c.idx % 30 == 0 ? 1500 : 100);
  if (c.idx % 150 == 0) { // large blocks
    switch (g.below(4)) {
      case 0: { size_t n = g.chance(1, 2) ? 16300 + g.below(200) : 60000 + g.below(80000); hs.insert(hs.begin() + (long) g.below(hs.size() + 1), { "x-large", g.chance(1, 2) ? big_raw(g, n) : big_text(g, n) }); break; }
      case 1: hs.push_back({ bytes(10000 + g.below(70000), (char) ('a' + g.below(26))), any_bytes(g, 40) }); break;
      case 2: { auto &e = REF_STATIC[g.below(99)]; hs.push_back({ e.name, big_text(g, 16000 + g.below(60000)) }); break; }
      default: for (size_t n = 250 + g.below(1500); n-- > 0;) hs.push_back(any_header(g, 40));
    }
    c.stat("large-blocks");
  }
  for (auto &h : hs) c.observe(h.name + "\n" + h.value);
  c.sample(ref::show(hs).substr(0, 600));
  encode(c, hs);
  for (int i = 0; i < 3; i++) {
    ref::Headers f = any_headers(g, 6, 80);
    bytes b = ref::qpack(f, g);
    c.observe(b);
    valid(c, b, f);
    c.stat("foreign-blocks");
  }
  if (c.idx % 150 == 0) valid(c, ref::qpack(hs, g), hs);
  // An invalid line behind a valid prefix.
  ref::Headers before = g.chance(1, 2) ? any_headers(g, 4, 40) : ref::Headers();
  bytes good = ref::qpack(before, g);
  uint64_t idx = any_u64(g);
  switch (g.below(6)) {
    case 0: invalid(c, good, before, ref::pint(idx & 0xffff, 6, 0x80), h3err::qpack_decompression_failed, "dynamic table reference"); break;
    case 1: invalid(c, good, before, ref::pint(idx & 0xffff, 4, 0x40 | (g.chance(1, 2) ? 0x20 : 0)) + ref::literal("v", 7, false), h3err::qpack_decompression_failed, "dynamic name reference"); break;
    case 2: invalid(c, good, before, ref::pint(idx & 0xff, 4, 0x10), h3err::qpack_decompression_failed, "post-base index"); break;
    case 3: invalid(c, good, before, ref::pint(idx & 0xff, 3, g.chance(1, 2) ? 0x08 : 0) + ref::literal("v", 7, false), h3err::qpack_decompression_failed, "post-base name reference"); break;
    case 4: {
      if (idx < 99) idx += 99;
      if (g.chance(1, 2)) invalid(c, good, before, ref::pint(idx, 6, 0xc0), h3err::qpack_decompression_failed, "index outside the static table");
      else invalid(c, good, before, ref::pint(idx, 4, 0x50) + ref::literal("v", 7, false), h3err::qpack_decompression_failed, "name index outside the static table");
      break;
    }
    default: { // bad Huffman string in name or value
      bytes hb;
      bytes dummy;
      do hb = g.chance(1, 2) ? bytes(4, '\xff') : any_bytes(g, 10); while (ref::huff_get(hb, dummy));
      if (g.chance(1, 2)) invalid(c, good, before, ref::pint(hb.size(), 3, 0x28) + hb + ref::literal("v", 7, false), h3err::qpack_decompression_failed, "bad Huffman name");
      else invalid(c, good, before, ref::pint(0, 4, 0x50) + ref::pint(hb.size(), 7, 0x80) + hb, h3err::qpack_decompression_failed, "bad Huffman value");
    }
  }
  uppercase(c);
}
