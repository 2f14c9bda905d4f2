// Reference codecs written from the specifications (RFC 9000 section 16, RFC
// 7541 section 5, RFC 9204, draft-ietf-quic-http-2x), independent of the code under
// test. They work on plain byte strings.
#pragma once
#include "common.hpp"
#include "tables.inc"

namespace ref {

static const uint64_t VARINT_MAX = (1ULL << 62) - 1;

static inline size_t varint_min(uint64_t v) { return v < 64 ? 1 : v < 16384 ? 2 : v < (1ULL << 30) ? 4 : 8; }
static inline bytes varint(uint64_t v, size_t len = 0)
{
  if (!len) len = varint_min(v);
  bytes r(len, '\0');
  uint64_t x = v;
  for (size_t i = len; i-- > 0;) {
    r[i] = (char) (x & 255);
    x >>= 8;
  }
  unsigned code = len == 1 ? 0 : len == 2 ? 1 : len == 4 ? 2 : 3;
  r[0] = (char) ((unsigned char) r[0] | (code << 6));
  return r;
}
// Non-minimal length chosen at random.
static inline bytes varint_any(uint64_t v, Rng &g)
{
  size_t l = varint_min(v);
  while (l < 8 && g.chance(1, 3)) l *= 2;
  return varint(v, l);
}
// Returns false when incomplete.
static inline bool varint_get(const bytes &b, size_t &pos, uint64_t &v)
{
  if (pos >= b.size()) return false;
  size_t len = (size_t) 1 << ((unsigned char) b[pos] >> 6);
  if (b.size() - pos < len) return false;
  v = (unsigned char) b[pos] & 63;
  for (size_t i = 1; i < len; i++) v = v << 8 | (unsigned char) b[pos + i];
  pos += len;
  return true;
}

static inline bytes pint(uint64_t v, unsigned prefix, unsigned high = 0)
{
  bytes r;
  uint64_t max = (1ULL << prefix) - 1;
  if (v < max) {
    r += (char) (high | v);
    return r;
  }
  r += (char) (high | max);
  v -= max;
  while (v >= 128) {
    r += (char) ((v & 127) | 128);
    v >>= 7;
  }
  r += (char) v;
  return r;
}
// 1 ok, 0 incomplete, -1 does not fit in 64 bits
static inline int pint_get(const bytes &b, size_t &pos, unsigned prefix, uint64_t &v)
{
  if (pos >= b.size()) return 0;
  size_t p = pos;
  uint64_t max = (1ULL << prefix) - 1;
  v = (unsigned char) b[p++] & max;
  if (v == max) {
    unsigned __int128 acc = v;
    unsigned sh = 0;
    for (;;) {
      if (p >= b.size()) return 0;
      unsigned char c = (unsigned char) b[p++];
      if (sh <= 63) acc += (unsigned __int128)(c & 127) << sh;
      else if (c & 127) return -1;
      if (acc > UINT64_MAX) return -1;
      sh += 7;
      if (!(c & 128)) break;
      if (sh > 63) {
        // Continuation past 64 bits: padding with zero groups is legal in
        // principle, callers treat it as unspecified.
        return -2;
      }
    }
    v = (uint64_t) acc;
  }
  pos = p;
  return 1;
}

static inline bytes huff(const bytes &s)
{
  bytes r;
  uint64_t acc = 0;
  unsigned n = 0;
  for (unsigned char c : s) {
    acc = acc << REF_LEN[c] | REF_CODE[c];
    n += REF_LEN[c];
    while (n >= 8) {
      n -= 8;
      r += (char) (acc >> n);
    }
    acc &= (1ULL << n) - 1;
  }
  if (n) r += (char) (acc << (8 - n) | ((1u << (8 - n)) - 1));
  return r;
}
static inline size_t huff_bits(const bytes &s)
{
  size_t n = 0;
  for (unsigned char c : s) n += REF_LEN[c];
  return n;
}
static inline bool huff_get(const bytes &b, bytes &out)
{
  static const std::map<std::pair<unsigned, uint32_t>, int> dec = [] {
    std::map<std::pair<unsigned, uint32_t>, int> m;
    for (int i = 0; i < 256; i++) m[{ REF_LEN[i], REF_CODE[i] }] = i;
    return m;
  }();
  out.clear();
  uint32_t cur = 0;
  unsigned n = 0;
  for (unsigned char c : b)
    for (int i = 7; i >= 0; i--) {
      cur = cur << 1 | ((c >> i) & 1u);
      n++;
      if (n > 30) return false;
      if (n == 30 && cur == 0x3fffffff) return false; // EOS
      auto it = dec.find({ n, cur });
      if (it != dec.end()) {
        out += (char) it->second;
        cur = 0;
        n = 0;
      }
    }
  // Fewer than eight one bits of padding.
  return n < 8 && cur == (1u << n) - 1;
}

// A literal whose length has the given prefix, `high` are the bits above the H
// bit.
static inline bytes literal(const bytes &s, unsigned prefix, bool h, unsigned high = 0)
{
  bytes p = h ? huff(s) : s;
  return pint(p.size(), prefix, high | (h ? 1u << prefix : 0)) + p;
}
static inline int literal_get(const bytes &b, size_t &pos, unsigned prefix, bytes &out)
{
  if (pos >= b.size()) return 0;
  bool h = ((unsigned char) b[pos] >> prefix) & 1;
  size_t p = pos;
  uint64_t n;
  int r = pint_get(b, p, prefix, n);
  if (r != 1) return r;
  if (n > b.size() - p) return 0;
  bytes raw = b.substr(p, n);
  p += n;
  if (h) {
    if (!huff_get(raw, out)) return -1;
  } else
    out = raw;
  pos = p;
  return 1;
}

struct Header {
  bytes name, value;
  bool operator==(const Header &o) const { return name == o.name && value == o.value; }
};
using Headers = std::vector<Header>;

static inline std::string show(const Headers &hs)
{
  std::string r = "[";
  for (auto &h : hs) {
    if (r.size() > 300) { r += "..."; break; }
    r += "(" + h.name.substr(0, 40) + ": " + h.value.substr(0, 40) + ")";
  }
  return r + "]";
}

// One field line in a representation of the encoder's choice.
static inline bytes qpack_line(const Header &h, Rng &g)
{
  std::vector<unsigned> exact, names;
  for (unsigned i = 0; i < 99; i++) {
    if (h.name == REF_STATIC[i].name) {
      names.push_back(i);
      if (h.value == REF_STATIC[i].value) exact.push_back(i);
    }
  }
  unsigned how = (unsigned) g.below(4);
  if (!exact.empty() && how < 2) return pint(g.pick(exact), 6, 0xc0);
  bool n = g.chance(1, 3);
  bool hv = g.chance(1, 2), hn = g.chance(1, 2);
  if (!names.empty() && how < 3) return pint(g.pick(names), 4, 0x50 | (n ? 0x20 : 0)) + literal(h.value, 7, hv);
  return literal(h.name, 3, hn, 0x20 | (n ? 0x10 : 0)) + literal(h.value, 7, hv);
}
static inline bytes qpack(const Headers &hs, Rng &g)
{
  bytes r(2, '\0');
  for (auto &h : hs) r += qpack_line(h, g);
  return r;
}
// Decodes a complete header block. Returns "" or what is wrong with it.
static inline std::string qpack_get(const bytes &b, Headers &out)
{
  out.clear();
  size_t pos = 0;
  uint64_t ric, base;
  if (pint_get(b, pos, 8, ric) != 1) return "no required insert count";
  if (ric != 0) return "required insert count is not zero";
  if (pint_get(b, pos, 7, base) != 1) return "no base";
  while (pos < b.size()) {
    unsigned char c = (unsigned char) b[pos];
    uint64_t i;
    Header h;
    if (c & 0x80) {
      if (!(c & 0x40)) return "dynamic table reference";
      if (pint_get(b, pos, 6, i) != 1) return "bad index";
      if (i >= 99) return "index outside static table";
      h = { REF_STATIC[i].name, REF_STATIC[i].value };
    } else if (c & 0x40) {
      if (!(c & 0x10)) return "dynamic name reference";
      if (pint_get(b, pos, 4, i) != 1) return "bad name index";
      if (i >= 99) return "name index outside static table";
      h.name = REF_STATIC[i].name;
      if (literal_get(b, pos, 7, h.value) != 1) return "bad value literal";
    } else if (c & 0x20) {
      if (literal_get(b, pos, 3, h.name) != 1) return "bad name literal";
      if (literal_get(b, pos, 7, h.value) != 1) return "bad value literal";
    } else
      return "post-base representation";
    out.push_back(h);
  }
  return "";
}

// HTTP/3 frames of the draft the library implements.
enum : uint64_t { DATA = 0, HEADERS = 1, PRIORITY = 2, CANCEL_PUSH = 3, SETTINGS = 4, PUSH_PROMISE = 5, GOAWAY = 7, MAX_PUSH_ID = 13, DUPLICATE_PUSH = 14 };
static inline bool known_type(uint64_t t)
{
  switch (t) {
    case DATA: case HEADERS: case PRIORITY: case CANCEL_PUSH: case SETTINGS:
    case PUSH_PROMISE: case GOAWAY: case MAX_PUSH_ID: case DUPLICATE_PUSH:
      return true;
  }
  return false;
}
static inline bytes frame(uint64_t type, const bytes &payload) { return varint(type) + varint(payload.size()) + payload; }
static inline bytes frame_any(uint64_t type, const bytes &payload, Rng &g) { return varint_any(type, g) + varint_any(payload.size(), g) + payload; }

} // namespace ref
