// C05: Huffman coding.
#include "bnlx.hpp"
#include <bnl/http3/codec/qpack/huffman.hpp>
namespace hf = http3::qpack::huffman;
const char *const RULE = "cases 0..255: every two-byte string starting with that byte is encoded, cases 256..511: every two-byte input starting with that byte (and one-byte inputs) is decoded; then random strings are encoded and decoded, and random, truncated, extended, bit-flipped and EOS-containing inputs decoded, through all six byte-sequence kinds; non-trivial: at least one accepted input; distinct by the strings used";
void harness_init() { base::logger = nullptr; }

static void enc(Ctx &c, const bytes &s, bool kinds)
{
  bytes want = ref::huff(s);
  base::string_view sv(s.data(), s.size());
  CHECK(hf::encoded_size(sv) == want.size(), "encoded-size", "encoded_size of %s is %zu, not %zu", hex(s).c_str(), hf::encoded_size(sv), want.size());
  bytes got = str(hf::encode(sv));
  CHECK(got == want, "encode-bytes", "%s encodes to %s, expected %s", hex(s).c_str(), hex(got).c_str(), hex(want).c_str());
  std::vector<uint8_t> raw(want.size() + 32, 0xab);
  size_t n = hf::encode(raw.data() + 16, sv);
  CHECK(n == want.size() && bytes(raw.begin() + 16, raw.begin() + 16 + (long) n) == want, "encode-bytes", "%s encoded to a destination gives another result than %s", hex(s).c_str(), hex(want).c_str());
  for (size_t i = 0; i < raw.size(); i++)
    if (i < 16 || i >= 16 + n) CHECK(raw[i] == 0xab, "encode-outside", "encoding %s wrote outside its bytes", hex(s).c_str());
  c.stat("strings-encoded");
  for (int k = 0; k < (kinds ? 6 : 1); k++) {
    bytes tail = kinds ? any_bytes(c.rng, 8) : bytes();
    Decoded d = decode_kind(k, got + tail, c.rng, DecHuffman{ got.size() });
    CHECK(d.ok && d.value == s && d.consumed == got.size() && d.left == tail, "roundtrip", "%s: %s does not round-trip: %s", KIND[k], hex(s).c_str(), show(d).c_str());
    c.stat("roundtrips");
  }
  c.interesting();
}
static void dec(Ctx &c, const bytes &in, bool kinds)
{
  bytes want;
  bool ok = ref::huff_get(in, want);
  c.stat(ok ? "accepted-inputs" : "refused-inputs");
  if (ok) c.interesting();
  for (int k = 0; k < (kinds ? 6 : 1); k++) {
    Decoded d = decode_kind(k, in, c.rng, DecHuffman{ in.size() });
    if (ok) {
      CHECK(d.ok, "refuses-valid", "%s: valid input %s is refused with %s", KIND[k], hex(in).c_str(), ename(d.err));
      CHECK(d.value == want && d.consumed == in.size(), "decode-value", "%s: %s decodes to %s, expected %s", KIND[k], hex(in).c_str(), hex(d.value).c_str(), hex(want).c_str());
    } else {
      CHECK(!d.ok, "accepts-invalid", "%s: invalid input %s is accepted as %s", KIND[k], hex(in).c_str(), hex(d.value).c_str());
      CHECK(d.err == h3err::qpack_decompression_failed, "wrong-error", "%s: invalid input %s is reported as %s", KIND[k], hex(in).c_str(), ename(d.err));
    }
  }
}

void run_case(Ctx &c)
{
  Rng &g = c.rng;
  if (c.idx < 256) {
    enc(c, bytes(1, (char) c.idx), true);
    for (int b = 0; b < 256; b++) enc(c, bytes(1, (char) c.idx) + (char) b, false);
    if (c.idx == 0) enc(c, "", true);
    c.observe(c.idx);
    return;
  }
  if (c.idx < 512) {
    bytes p(1, (char) (c.idx - 256));
    if (c.idx == 256) dec(c, "", true);
    dec(c, p, true);
    for (int b = 0; b < 256; b++) dec(c, p + (char) b, false);
    c.observe(c.idx);
    return;
  }
  if (c.idx % 400 == 0) { // large strings and inputs
    size_t n = g.chance(1, 2) ? 8000 + g.below(2000) : g.chance(1, 2) ? 65000 + g.below(1000) : 20000 + g.below(150000);
    bytes s = g.chance(1, 3) ? big_raw(g, n) : g.chance(1, 3) ? bytes(n, (char) g.next()) : big_text(g, n);
    c.observe(s);
    enc(c, s, true);
    bytes in = ref::huff(s);
    switch (g.below(4)) {
      case 0: in[g.below(in.size())] ^= (char) (1u << g.below(8)); break;
      case 1: in.resize(in.size() - 1 - g.below(4)); break;
      case 2: in += bytes(1 + g.below(4), '\xff'); break;
      default: in.insert(g.below(in.size()), bytes(4, '\xff'));
    }
    dec(c, in, true);
    c.stat("large-strings");
    return;
  }
  bytes s = any_bytes(g, c.idx % 50 == 0 ? 3000 : 60);
  c.observe(s);
  c.sample("string " + hex(s));
  enc(c, s, true);
  // Inputs to refuse or accept.
  for (int i = 0; i < 8; i++) {
    bytes in;
    switch (g.below(7)) {
      case 0: in = any_bytes(g, 40); break;
      case 1: { // bit flip
        in = ref::huff(any_bytes(g, 30));
        if (!in.empty()) in[g.below(in.size())] ^= (char) (1u << g.below(8));
        break;
      }
      case 2: { // truncated or extended by ones
        in = ref::huff(any_bytes(g, 30));
        if (g.chance(1, 2) && !in.empty()) in.resize(g.below(in.size()));
        else in += bytes(1 + g.below(4), '\xff');
        break;
      }
      case 3: { // symbols, then EOS or almost EOS, then symbols
        bytes bits;
        auto put = [&](uint32_t code, unsigned n) { for (unsigned k = n; k-- > 0;) bits += (char) ((code >> k) & 1); };
        auto sym = [&](unsigned char ch) { put(REF_CODE[ch], REF_LEN[ch]); };
        for (size_t k = g.below(6); k-- > 0;) sym((unsigned char) g.below(256));
        put(0x3fffffff, (unsigned) (g.chance(1, 2) ? 30 : 1 + g.below(30)));
        for (size_t k = g.below(3); k-- > 0;) sym((unsigned char) g.below(256));
        unsigned padbit = g.chance(3, 4);
        while (bits.size() % 8) bits += (char) padbit;
        for (size_t k = 0; k < bits.size(); k += 8) {
          unsigned b = 0;
          for (size_t j = 0; j < 8; j++) b = b << 1 | (unsigned) bits[k + j];
          in += (char) b;
        }
        break;
      }
      case 4: { // wrong padding
        in = ref::huff(any_bytes(g, 30));
        if (!in.empty()) in.back() = (char) ((unsigned char) in.back() & (0xff << g.below(8)));
        break;
      }
      case 5: in = ref::huff(any_bytes(g, 30)); break;
      default: { // long codes only
        for (size_t k = 1 + g.below(12); k-- > 0;) in += (char) (g.chance(3, 4) ? 0xff : 0xf0 | g.below(16));
      }
    }
    c.observe(in);
    dec(c, in, true);
  }
  // Less input than announced.
  bytes e = ref::huff(s);
  if (!e.empty()) {
    size_t cut = g.below(e.size());
    for (int k = 0; k < 6; k++) {
      Decoded d = decode_kind(k, e.substr(0, cut), g, DecHuffman{ e.size() });
      CHECK(!d.ok && d.err == h3err::incomplete && d.consumed == 0, "truncated", "%s: %zu of %zu announced bytes: %s", KIND[k], cut, e.size(), show(d).c_str());
    }
  }
}
