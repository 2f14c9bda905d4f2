// C06: prefix integers and string literals.
#include "bnlx.hpp"
namespace pi = http3::qpack::prefix_int;
namespace li = http3::qpack::literal;
const char *const RULE = "each case takes edge-biased 64-bit values and strings and runs every prefix size 1..8 (integers) and 1..7 (literals): encoding with arbitrary bits in front of the prefix, decoding with trailing bytes, truncation at every point, overlong and overflowing encodings, through all six byte-sequence kinds; non-trivial: at least one multi-byte integer or non-empty literal; distinct by values and strings";
void harness_init() { base::logger = nullptr; }

static void integer(Ctx &c, uint64_t v)
{
  Rng &g = c.rng;
  for (unsigned p = 1; p <= 8; p++) {
    bytes want = ref::pint(v, p);
    CHECK(pi::encoded_size(v, (uint8_t) p) == want.size(), "int-size", "encoded_size(%llu, %u) is not %zu", (unsigned long long) v, p, want.size());
    bytes got = str(pi::encode(v, (uint8_t) p));
    CHECK(got == want, "int-bytes", "encode(%llu, %u) is %s, expected %s", (unsigned long long) v, p, hex(got).c_str(), hex(want).c_str());
    // Bits in front of the prefix belong to the caller.
    unsigned high = p == 8 ? 0 : (unsigned) (g.below(256) >> p << p);
    uint8_t raw[64];
    memset(raw, 0xab, sizeof raw);
    raw[16] = (uint8_t) high;
    size_t n = pi::encode(raw + 16, v, (uint8_t) p);
    bytes wanth = ref::pint(v, p, high);
    CHECK(n == wanth.size() && bytes((char *) raw + 16, n) == wanth, "int-bytes", "encode(dest with 0x%02x, %llu, %u) wrote %s, expected %s", high, (unsigned long long) v, p, hex(bytes((char *) raw + 16, n)).c_str(), hex(wanth).c_str());
    for (size_t i = 0; i < sizeof raw; i++)
      if (i < 16 || i >= 16 + n) CHECK(raw[i] == 0xab, "int-outside", "encode(%llu, %u) wrote outside its bytes", (unsigned long long) v, p);
    bytes tail = any_bytes(g, 10);
    for (int k = 0; k < 6; k++) {
      Decoded d = decode_kind(k, wanth + tail, g, DecPint{ p });
      CHECK(d.ok && d.value == u64(v), "int-decode", "%s, prefix %u: %s does not decode to %llu: %s", KIND[k], p, hex(wanth + tail).c_str(), (unsigned long long) v, show(d).c_str());
      CHECK(d.consumed == wanth.size() && d.left == tail, "int-consumed", "%s, prefix %u: decoding %s consumed %zu bytes", KIND[k], p, hex(wanth + tail).c_str(), d.consumed);
      c.stat("ints-decoded");
      size_t cut = g.below(wanth.size());
      Decoded t = decode_kind(k, wanth.substr(0, cut), g, DecPint{ p });
      CHECK(!t.ok && t.err == h3err::incomplete && t.consumed == 0, "int-truncated", "%s, prefix %u: truncated %s: %s", KIND[k], p, hex(wanth.substr(0, cut)).c_str(), show(t).c_str());
    }
    if (want.size() > 1) c.interesting();
  }
}
// Encodings of another encoder: random continuation bytes.
static void foreign(Ctx &c)
{
  Rng &g = c.rng;
  unsigned p = (unsigned) g.range(1, 8);
  unsigned high = p == 8 ? 0 : (unsigned) (g.below(256) >> p << p);
  bytes in(1, (char) (high | ((1u << p) - 1)));
  size_t n = g.below(13);
  for (size_t i = 0; i < n; i++) in += (char) (0x80 | (g.chance(1, 3) ? 0x7f : g.chance(1, 3) ? 0 : g.below(128)));
  in += (char) (g.chance(1, 3) ? g.below(3) : g.below(128));
  if (g.chance(1, 4)) { // around 2^64
    in.resize(1);
    uint64_t rest = UINT64_MAX - g.below(300);
    for (; rest > 127; rest >>= 7) in += (char) (0x80 | (rest & 127));
    in += (char) rest;
    c.stat("largest-ints");
  }
  size_t pos = 0;
  uint64_t v = 0;
  int r = ref::pint_get(in, pos, p, v);
  if (r == -2) return; // zero padding beyond 64 bits: unspecified
  c.observe(in);
  int k = (int) g.below(6);
  Decoded d = decode_kind(k, in, g, DecPint{ p });
  if (r == 1) {
    CHECK(d.ok && d.value == u64(v) && d.consumed == pos, "int-foreign", "%s, prefix %u: %s should decode to %llu: %s", KIND[k], p, hex(in).c_str(), (unsigned long long) v, show(d).c_str());
    c.stat("foreign-ints");
    c.interesting();
  } else if (r == -1) {
    CHECK(!d.ok && d.err == h3err::qpack_decompression_failed, "int-overflow", "%s, prefix %u: %s does not fit 64 bits: %s", KIND[k], p, hex(in).c_str(), show(d).c_str());
    c.stat("overflowing-ints");
  }
}
static void literals(Ctx &c, const bytes &s)
{
  Rng &g = c.rng;
  base::string_view sv(s.data(), s.size());
  bool h = ref::huff(s).size() < s.size();
  for (unsigned p = 1; p <= 7; p++) {
    bytes want = ref::literal(s, p, h);
    bytes alt = ref::huff(s).size() == s.size() ? ref::literal(s, p, true) : want; // either form will do when they tie
    CHECK(li::encoded_size(sv, (uint8_t) p) == want.size(), "lit-size", "encoded_size(%s, %u) is %zu, not %zu", hex(s).c_str(), p, li::encoded_size(sv, (uint8_t) p), want.size());
    bytes got = str(li::encode(sv, (uint8_t) p));
    CHECK(got == want || got == alt, "lit-bytes", "prefix %u: %s encodes to %s, expected %s", p, hex(s).c_str(), hex(got).c_str(), hex(want).c_str());
    unsigned high = p >= 7 ? 0 : (unsigned) (g.below(256) >> (p + 1) << (p + 1));
    std::vector<uint8_t> raw(want.size() + 32, 0xab);
    raw[16] = (uint8_t) high;
    size_t n = li::encode(raw.data() + 16, sv, (uint8_t) p);
    bytes wanth = ref::literal(s, p, h, high);
    bytes alth = alt == want ? wanth : ref::literal(s, p, true, high);
    bytes gotd = n <= want.size() ? bytes(raw.begin() + 16, raw.begin() + 16 + (long) n) : bytes();
    CHECK(gotd == wanth || gotd == alth, "lit-bytes", "prefix %u, 0x%02x in front: %s is not encoded to %s", p, high, hex(s).c_str(), hex(wanth).c_str());
    for (size_t i = 0; i < raw.size(); i++)
      if (i < 16 || i >= 16 + n) CHECK(raw[i] == 0xab, "lit-outside", "encoding %s wrote outside its bytes", hex(s).c_str());
    c.stat(h ? "huffman-literals" : "raw-literals");
    for (int form = 0; form < 2; form++) {
      bytes in = ref::literal(s, p, form == 1, high);
      bytes tail = any_bytes(g, 10);
      for (int k = 0; k < 6; k++) {
        if (s.size() > 100 && k != (int) (p % 6)) continue;
        Decoded d = decode_kind(k, in + tail, g, DecLiteral{ p });
        CHECK(d.ok && d.value == s && d.consumed == in.size() && d.left == tail, "lit-decode", "%s, prefix %u, %s: %s does not decode to %s: %s", KIND[k], p, form ? "huffman" : "raw", hex(in + tail).c_str(), hex(s).c_str(), show(d).c_str());
        c.stat("literals-decoded");
        size_t cut = g.below(in.size());
        Decoded t = decode_kind(k, in.substr(0, cut), g, DecLiteral{ p });
        CHECK(!t.ok && t.err == h3err::incomplete && t.consumed == 0, "lit-truncated", "%s, prefix %u: truncated %s: %s", KIND[k], p, hex(in.substr(0, cut)).c_str(), show(t).c_str());
      }
    }
  }
  if (!s.empty()) c.interesting();
}
void run_case(Ctx &c)
{
  Rng &g = c.rng;
  if (c.idx < 512) { // small values and every boundary of every prefix
    integer(c, c.idx);
    c.observe(c.idx);
    return;
  }
  uint64_t v = any_u64(g);
  c.observe(v);
  integer(c, v);
  unsigned sh = (unsigned) g.below(9);
  uint64_t w = ((1ULL << sh) - 1) + (1ULL << (7 * g.below(10))) + g.below(3) - 1;
  c.observe(w);
  integer(c, w);
  for (int i = 0; i < 12; i++) foreign(c);
  bytes s = any_bytes(g, c.idx % 40 == 0 ? 2000 : 80);
  if (c.idx % 250 == 0) {
    size_t n = g.chance(1, 2) ? 16300 + g.below(200) : g.chance(1, 2) ? 65400 + g.below(300) : 20000 + g.below(150000);
    s = g.chance(1, 2) ? big_raw(g, n) : big_text(g, n);
    c.stat("large-literals");
  }
  c.observe(s);
  c.sample(strf("value 0x%llx, string %s", (unsigned long long) v, hex(s, 200).c_str()));
  literals(c, s);
}
