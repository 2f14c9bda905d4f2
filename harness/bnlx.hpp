// Glue between byte strings and the library's public types.
#pragma once
#include "common.hpp"
#include "oracle.hpp"

#include <bnl/base/buffer.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/base/log.hpp>
#include <bnl/base/system_error.hpp>
#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/varint.hpp>
#include <bnl/http3/server/connection.hpp>

namespace base = bnl::base;
namespace http3 = bnl::http3;
namespace quic = bnl::quic;
using h3err = http3::error;

static inline base::buffer buf(const bytes &b)
{
  base::buffer r(b.size());
  std::copy(b.begin(), b.end(), reinterpret_cast<char *>(r.data()));
  return r;
}
static inline bytes str(const base::buffer &b) { return bytes(b.begin(), b.end()); }
static inline bytes str(base::buffer_view b) { return bytes(b.begin(), b.end()); }
static inline bytes str(base::string_view s) { return s.size() ? bytes(s.data(), s.size()) : bytes(); }
template<typename Seq> static bytes content(const Seq &s)
{
  bytes r;
  size_t n = s.size();
  for (size_t i = 0; i < n; i++) r += (char) s[i];
  return r;
}

// Random split points. Pieces may be empty.
static inline std::vector<bytes> split(const bytes &b, Rng &g, size_t max_pieces = 12)
{
  std::vector<bytes> r;
  size_t pos = 0;
  unsigned mode = (unsigned) g.below(5);
  if (mode == 0) return { b };
  if (mode == 1 && b.size() <= 64) { // byte by byte
    for (char c : b) r.emplace_back(1, c);
    if (r.empty()) r.emplace_back();
    return r;
  }
  while (pos < b.size() && r.size() + 1 < max_pieces) {
    size_t left = b.size() - pos;
    size_t n = mode == 2 ? 1 + g.below(3) : mode == 3 ? g.below(left + 1) : g.below(std::min<size_t>(left, 40) + 1);
    n = std::min(n, left);
    r.push_back(b.substr(pos, n));
    pos += n;
  }
  r.push_back(b.substr(pos));
  if (g.chance(1, 4)) r.insert(r.begin() + (long) g.below(r.size() + 1), bytes());
  return r;
}
static inline base::buffers bufs(const std::vector<bytes> &pieces)
{
  base::buffers r;
  for (auto &p : pieces) r.push(buf(p));
  return r;
}

static inline const char *ename(h3err e)
{
  switch (e) {
    case h3err::no_error: return "no_error";
    case h3err::internal: return "internal";
    case h3err::wrong_stream: return "wrong_stream";
    case h3err::closed_critical_stream: return "closed_critical_stream";
    case h3err::missing_settings: return "missing_settings";
    case h3err::unexpected_frame: return "unexpected_frame";
    case h3err::malformed_frame: return "malformed_frame";
    case h3err::qpack_decompression_failed: return "qpack_decompression_failed";
    case h3err::incomplete: return "incomplete";
    case h3err::idle: return "idle";
    case h3err::delegate: return "delegate";
    case h3err::not_implemented: return "not_implemented";
    case h3err::varint_overflow: return "varint_overflow";
    case h3err::malformed_header: return "malformed_header";
    case h3err::stream_closed: return "stream_closed";
    case h3err::invalid_handle: return "invalid_handle";
  }
  return "unknown";
}

// The four kinds of byte sequences every low-level decoder accepts. `f` gets
// the sequence and a function that returns what is left of it.
struct Decoded {
  bool ok = false;
  h3err err = h3err::no_error;
  bytes value;       // canonical rendering of the decoded value
  size_t consumed = 0;
  bytes left;        // what remains visible
  bool operator==(const Decoded &o) const { return ok == o.ok && (ok || err == o.err) && value == o.value && consumed == o.consumed && left == o.left; }
};
static inline std::string show(const Decoded &d) { return strf("%s value=%s consumed=%zu left=%s", d.ok ? "ok" : ename(d.err), hex(d.value, 60).c_str(), d.consumed, hex(d.left, 40).c_str()); }

template<typename Seq, typename F> static Decoded run_decode(Seq &s, F f)
{
  Decoded d;
  size_t before = s.size();
  d.ok = f(s, d.value, d.err);
  d.consumed = before - s.size();
  d.left = content(s);
  return d;
}
// kind: 0 buffer, 1 buffers, 2 buffer lookahead, 3 buffers lookahead, 4/5
// lookahead of a lookahead that has already advanced by `skip` bytes.
template<typename F> static Decoded decode_kind(int kind, const bytes &in, Rng &g, F f)
{
  switch (kind) {
    case 0: {
      base::buffer b = buf(in);
      return run_decode(b, f);
    }
    case 1: {
      base::buffers b = bufs(split(in, g));
      return run_decode(b, f);
    }
    case 2: {
      base::buffer b = buf(in);
      base::buffer::lookahead l(b);
      Decoded d = run_decode(l, f);
      CHECK(content(b) == in, "lookahead-mutates", "decoding through a lookahead changed the buffer");
      CHECK(l.consumed() == d.consumed, "lookahead-consumed", "lookahead consumed() %zu, size shrank by %zu", l.consumed(), d.consumed);
      return d;
    }
    case 3: {
      base::buffers b = bufs(split(in, g));
      base::buffers::lookahead l(b);
      Decoded d = run_decode(l, f);
      CHECK(content(b) == in, "lookahead-mutates", "decoding through a lookahead changed the buffers");
      CHECK(l.consumed() == d.consumed, "lookahead-consumed", "lookahead consumed() %zu, size shrank by %zu", l.consumed(), d.consumed);
      return d;
    }
    case 4: {
      bytes pre(g.below(30), 'x');
      base::buffer b = buf(pre + in);
      base::buffer::lookahead o(b);
      o.consume(pre.size());
      base::buffer::lookahead l(o);
      Decoded d = run_decode(l, f);
      CHECK(o.consumed() == pre.size(), "lookahead-mutates", "decoding through a nested lookahead changed the outer one");
      return d;
    }
    default: {
      bytes pre(g.below(30), 'x');
      base::buffers b = bufs(split(pre + in, g));
      base::buffers::lookahead o(b);
      o.consume(pre.size());
      base::buffers::lookahead l(o);
      Decoded d = run_decode(l, f);
      CHECK(o.consumed() == pre.size(), "lookahead-mutates", "decoding through a nested lookahead changed the outer one");
      return d;
    }
  }
}
static const char *const KIND[] = { "buffer", "buffers", "buffer lookahead", "buffers lookahead", "nested buffer lookahead", "nested buffers lookahead" };

// Decoder wrappers: return ok, fill value or err.
struct DecVarint {
  template<typename S> bool operator()(S &s, bytes &v, h3err &e) const
  {
    auto r = http3::varint::decode(s);
    if (!r) { e = r.error(); return false; }
    v = ref::varint(r.value(), 8);
    return true;
  }
};
static inline bytes u64(uint64_t v) { bytes b; for (int i = 56; i >= 0; i -= 8) b += (char) (v >> i); return b; }
struct DecPint {
  unsigned prefix;
  template<typename S> bool operator()(S &s, bytes &v, h3err &e) const
  {
    auto r = http3::qpack::prefix_int::decode(s, (uint8_t) prefix);
    if (!r) { e = r.error(); return false; }
    v = u64(r.value());
    return true;
  }
};
struct DecLiteral {
  unsigned prefix;
  template<typename S> bool operator()(S &s, bytes &v, h3err &e) const
  {
    auto r = http3::qpack::literal::decode(s, (uint8_t) prefix);
    if (!r) { e = r.error(); return false; }
    v = r.value();
    return true;
  }
};
struct DecHuffman {
  size_t size;
  template<typename S> bool operator()(S &s, bytes &v, h3err &e) const
  {
    auto r = http3::qpack::huffman::decode(s, size);
    if (!r) { e = r.error(); return false; }
    v = r.value();
    return true;
  }
};
// Canonical rendering of a frame.
static inline bytes render(const http3::frame &f)
{
  using t = http3::frame::type;
  bytes r = u64((uint64_t)(t) f);
  switch ((t) f) {
    case t::data: r += u64(f.data.size); break;
    case t::headers: r += u64(f.headers.size); break;
    case t::priority:
      r += (char) f.priority.prioritized_element_type;
      r += (char) f.priority.element_dependency_type;
      r += u64(f.priority.prioritized_element_id) + u64(f.priority.element_dependency_id);
      r += (char) f.priority.weight;
      break;
    case t::cancel_push: r += u64(f.cancel_push.push_id); break;
    case t::settings:
      r += u64(f.settings.max_header_list_size) + u64(f.settings.num_placeholders) + u64(f.settings.qpack_max_table_capacity) + u64(f.settings.qpack_blocked_streams);
      break;
    case t::push_promise: r += u64(f.push_promise.push_id) + u64(f.push_promise.size); break;
    case t::goaway: r += u64(f.goaway.stream_id); break;
    case t::max_push_id: r += u64(f.max_push_id.push_id); break;
    case t::duplicate_push: r += u64(f.duplicate_push.push_id); break;
  }
  return r;
}
struct DecFrame {
  template<typename S> bool operator()(S &s, bytes &v, h3err &e) const
  {
    auto r = http3::frame::decode(s);
    if (!r) { e = r.error(); return false; }
    v = render(r.value());
    return true;
  }
};
struct PeekFrame {
  template<typename S> bool operator()(S &s, bytes &v, h3err &e) const
  {
    auto r = http3::frame::peek(s);
    if (!r) { e = r.error(); return false; }
    v = u64((uint64_t) r.value());
    return true;
  }
};

// ---- generators of values ----
static inline uint64_t any_u64(Rng &g)
{
  static const uint64_t edges[] = { 0, 1, 63, 64, 16383, 16384, (1ULL << 30) - 1, 1ULL << 30, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 62) - 1, 1ULL << 62, UINT64_MAX, 1ULL << 63, 127, 128, 255, 256, 65535, 65536 };
  switch (g.below(4)) {
    case 0: {
      uint64_t e = edges[g.below(sizeof edges / 8)];
      return e + g.below(3) - 1;
    }
    case 1: return g.next() >> g.below(64);
    case 2: return (1ULL << g.below(64)) + g.below(3) - 1;
    default: return g.below(1000);
  }
}
static inline uint64_t any_varint(Rng &g)
{
  uint64_t v = any_u64(g);
  return v & ref::VARINT_MAX;
}
static inline bytes any_bytes(Rng &g, size_t max)
{
  size_t n = g.chance(1, 3) ? g.below(8) : g.chance(1, 2) ? g.below(std::min<size_t>(max, 48) + 1) : g.below(max + 1);
  if (n > max) n = max;
  bytes r(n, '\0');
  unsigned mode = (unsigned) g.below(4);
  for (auto &c : r) c = mode == 0 ? (char) g.next() : mode == 1 ? (char) (32 + g.below(95)) : mode == 2 ? "0123456789aceiost"[g.below(17)] : (char) (g.chance(1, 8) ? g.next() : 'a' + (int) g.below(26));
  return r;
}
static inline bytes big_raw(Rng &g, size_t n)
{
  bytes b(n, '\0');
  uint64_t x = g.next();
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    b[i] = (char) (x >> (8 * (i % 8)));
  }
  return b;
}
// Text of `n` characters, mostly of few kinds.
static inline bytes big_text(Rng &g, size_t n)
{
  bytes b = big_raw(g, n);
  bool digits = g.chance(1, 3);
  for (auto &ch : b) ch = digits ? (char) ('0' + (unsigned char) ch % 10) : (char) (32 + (unsigned char) ch % 95);
  return b;
}
static inline bytes lower(bytes s)
{
  for (auto &c : s)
    if (c >= 'A' && c <= 'Z') c = (char) (c + 32);
  return s;
}
static inline ref::Header any_header(Rng &g, size_t max = 200)
{
  switch (g.below(6)) {
    case 0: {
      auto &e = REF_STATIC[g.below(99)];
      return { e.name, e.value };
    }
    case 1: {
      auto &e = REF_STATIC[g.below(99)];
      return { e.name, any_bytes(g, max) };
    }
    case 2: { // value of another entry, or a near miss
      auto &e = REF_STATIC[g.below(99)];
      bytes v = REF_STATIC[g.below(99)].value;
      if (!v.empty() && g.chance(1, 2)) v[g.below(v.size())] = (char) g.next();
      return { e.name, v };
    }
    case 3: { // near-miss name
      auto &e = REF_STATIC[g.below(99)];
      bytes n = e.name;
      switch (g.below(3)) {
        case 0: n[g.below(n.size())] = (char) ('a' + g.below(26)); break;
        case 1: n += (char) ('a' + g.below(26)); break;
        default: n.pop_back();
      }
      return { n, g.chance(1, 2) ? bytes(e.value) : any_bytes(g, max) };
    }
    case 4: return { lower(any_bytes(g, 60)), any_bytes(g, max) };
    default: {
      bytes n;
      for (size_t i = 0, k = 1 + g.below(20); i < k; i++) n += (char) ('a' + g.below(26));
      return { n, any_bytes(g, max) };
    }
  }
}
static inline ref::Headers any_headers(Rng &g, size_t max_count = 8, size_t max = 200)
{
  ref::Headers r;
  size_t n = 1 + g.below(max_count);
  for (size_t i = 0; i < n; i++) r.push_back(any_header(g, max));
  return r;
}
