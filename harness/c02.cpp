// C02: variable-length integers.
#include "bnlx.hpp"
const char *const RULE = "a case is a block of 64 consecutive values (first 1024 cases: 0..65535) or 16 edge-biased random 64-bit values; each is encoded three ways, and all its encodings, extended by random trailing bytes and truncated at every point, are decoded through all six byte-sequence kinds; non-trivial: the case decoded at least one value; distinct by the values tried";
void harness_init() { base::logger = nullptr; }

static void one(Ctx &c, uint64_t v)
{
  auto es = http3::varint::encoded_size(v);
  uint8_t raw[40];
  memset(raw, 0xab, sizeof raw);
  uint8_t *dest = raw + 16;
  auto e1 = http3::varint::encode(dest, v);
  auto e2 = http3::varint::encode(v);
  c.stat("values");
  if (v > ref::VARINT_MAX) {
    CHECK(!es && es.error() == h3err::varint_overflow, "overflow-size", "encoded_size(%llu) does not report varint_overflow", (unsigned long long) v);
    CHECK(!e1 && e1.error() == h3err::varint_overflow, "overflow-encode", "encode(dest, %llu) does not report varint_overflow", (unsigned long long) v);
    CHECK(!e2 && e2.error() == h3err::varint_overflow, "overflow-encode", "encode(%llu) does not report varint_overflow", (unsigned long long) v);
    for (uint8_t b : raw) CHECK(b == 0xab, "overflow-write", "refused value %llu was written to the destination", (unsigned long long) v);
    c.stat("overflows");
    return;
  }
  bytes want = ref::varint(v);
  CHECK(es && es.value() == want.size(), "encoded-size", "encoded_size(%llu) is not %zu", (unsigned long long) v, want.size());
  CHECK(e1 && e1.value() == want.size(), "encode-size", "encode(dest, %llu) does not return %zu", (unsigned long long) v, want.size());
  CHECK(bytes((char *) dest, want.size()) == want, "encode-bytes", "encode(dest, %llu) wrote %s, expected %s", (unsigned long long) v, hex(bytes((char *) dest, want.size())).c_str(), hex(want).c_str());
  for (size_t i = 0; i < sizeof raw; i++)
    if (i < 16 || i >= 16 + want.size()) CHECK(raw[i] == 0xab, "encode-outside", "encode(dest, %llu) wrote outside its %zu bytes", (unsigned long long) v, want.size());
  CHECK(e2 && str(e2.value()) == want, "encode-bytes", "encode(%llu) is %s, expected %s", (unsigned long long) v, e2 ? hex(str(e2.value())).c_str() : "an error", hex(want).c_str());
  for (size_t len = want.size(); len <= 8; len *= 2) {
    bytes enc = ref::varint(v, len);
    bytes tail = any_bytes(c.rng, 12);
    for (int k = 0; k < 6; k++) {
      Decoded d = decode_kind(k, enc + tail, c.rng, DecVarint{});
      CHECK(d.ok, "decode-fails", "%s: %s does not decode: %s", KIND[k], hex(enc + tail).c_str(), ename(d.err));
      CHECK(d.value == ref::varint(v, 8), "decode-value", "%s: %s decodes to another value than %llu: %s", KIND[k], hex(enc + tail).c_str(), (unsigned long long) v, hex(d.value).c_str());
      CHECK(d.consumed == len && d.left == tail, "decode-consumed", "%s: decoding %s consumed %zu bytes", KIND[k], hex(enc + tail).c_str(), d.consumed);
      c.stat("decodes");
      if (c.idx < 1024 && (v + len) % 6 != (uint64_t) k) continue;
      for (size_t cut = 0; cut < len; cut++) {
        Decoded t = decode_kind(k, enc.substr(0, cut), c.rng, DecVarint{});
        CHECK(!t.ok && t.err == h3err::incomplete, "truncated", "%s: truncated %s: %s", KIND[k], hex(enc.substr(0, cut)).c_str(), show(t).c_str());
        CHECK(t.consumed == 0 && t.left == enc.substr(0, cut), "truncated-consumed", "%s: truncated %s consumed %zu bytes", KIND[k], hex(enc.substr(0, cut)).c_str(), t.consumed);
        c.stat("truncations");
      }
    }
  }
  c.interesting();
}

void run_case(Ctx &c)
{
  if (c.idx < 1024) {
    for (uint64_t v = c.idx * 64; v < c.idx * 64 + 64; v++) one(c, v);
    c.observe(c.idx);
    c.sample(strf("values %llu..%llu", (unsigned long long) c.idx * 64, (unsigned long long) c.idx * 64 + 63));
    return;
  }
  for (int i = 0; i < 16; i++) {
    uint64_t v = any_u64(c.rng);
    c.observe(v);
    c.sample(strf("value 0x%llx", (unsigned long long) v));
    one(c, v);
  }
}
