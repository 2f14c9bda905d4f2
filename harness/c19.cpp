// C19: header-block and body codecs.
#include "h3.hpp"
const char *const RULE = "each case drives one headers encoder and one body encoder through a random interleaving of adding, finishing and encoding against a model, parses what they produced with an independent parser, decodes it and foreign encodings with the decoders in random chunks, and tries frames of other types and the largest payload lengths; non-trivial: at least one message encoded; distinct by the encoded bytes";
void harness_init() { base::logger = nullptr; }

static base::string_view sv(const bytes &b) { return { b.data(), b.size() }; }

static bytes encode_headers(Ctx &c, Rng &g, const ref::Headers &hs)
{
  http3::headers::encoder e;
  auto expect_idle = [&]() {
    auto r = e.encode();
    CHECK(!r && r.error() == h3err::idle, "idle", "headers encoder: encode() before fin(): %s", r ? "data" : ename(r.error()));
    CHECK(!e.finished(), "finished-early", "headers encoder finished before fin()");
  };
  expect_idle();
  auto f0 = e.fin();
  CHECK(!f0, "empty-fin", "headers encoder: fin() without headers succeeds");
  for (auto &h : hs) {
    if (g.chance(1, 6)) expect_idle();
    if (g.chance(1, 10)) {
      auto r = e.add({ { "Bad", 3 }, { "v", 1 } });
      CHECK(!r && r.error() == h3err::malformed_header, "uppercase", "headers encoder accepts an uppercase name");
    }
    if (g.chance(1, 10)) {
      http3::headers::encoder t(std::move(e));
      e = std::move(t);
    }
    CHECK(e.add({ sv(h.name), sv(h.value) }), "add", "headers encoder refuses a header");
  }
  expect_idle();
  CHECK(e.fin(), "fin", "headers encoder: fin() fails");
  CHECK(!e.add({ { "a", 1 }, { "b", 1 } }), "add-after-fin", "headers encoder: add() after fin() succeeds");
  CHECK(!e.fin(), "fin-twice", "headers encoder: fin() twice succeeds");
  bytes out;
  unsigned k = 0;
  while (!e.finished()) {
    auto r = e.encode();
    CHECK(r, "encode", "headers encoder: encode() fails with %s", ename(r.error()));
    out += str(r.value());
    CHECK(++k < 10000, "endless", "headers encoder never finishes");
    if (g.chance(1, 6)) {
      http3::headers::encoder t(std::move(e));
      e = std::move(t);
    }
    if (g.chance(1, 8)) CHECK(!e.add({ { "a", 1 }, { "b", 1 } }), "add-after-fin", "headers encoder: add() after fin() succeeds");
  }
  auto r = e.encode();
  CHECK(!r && r.error() != h3err::idle, "encode-after-end", "headers encoder: encode() after the end: %s", r ? "data" : ename(r.error()));
  size_t pos = 0;
  uint64_t type, len;
  CHECK(ref::varint_get(out, pos, type) && type == ref::HEADERS && ref::varint_get(out, pos, len), "headers-frame", "headers encoder produced %s", hex(out).c_str());
  CHECK(len == out.size() - pos, "headers-length", "HEADERS frame length %llu for a block of %zu bytes", (unsigned long long) len, out.size() - pos);
  ref::Headers back;
  std::string bad = ref::qpack_get(out.substr(pos), back);
  CHECK(bad.empty() && back == hs, "headers-content", "header block holds %s (%s) instead of %s", ref::show(back).c_str(), bad.c_str(), ref::show(hs).c_str());
  c.stat("header-blocks-encoded");
  return out;
}
// Decodes in random chunks; `after` follows the frame in the input.
static void decode_headers(Ctx &c, Rng &g, const bytes &frame, const ref::Headers &hs, const bytes &after)
{
  http3::headers::decoder d;
  base::buffers in;
  bytes all = frame + after;
  ref::Headers got;
  size_t fed = 0;
  std::vector<bytes> parts = split(all, g);
  auto pull = [&]() {
    for (;;) {
      CHECK(!d.started() || fed > 0, "started", "headers decoder started without input");
      auto r = d.decode(in);
      if (!r) {
        if (d.finished() || got.size() == hs.size()) return;
        CHECK(r.error() == h3err::incomplete, "headers-decode", "headers decoder: %s after %zu bytes of %s", ename(r.error()), fed, hex(all).c_str());
        CHECK(!d.finished(), "finished-early", "headers decoder finished early");
        return;
      }
      CHECK(d.started(), "started", "headers decoder delivers a header but did not start");
      got.push_back({ str(r.value().name()), str(r.value().value()) });
      CHECK(got.size() <= hs.size() && got.back() == hs[got.size() - 1], "headers-differ", "header %zu decoded as (%s: %s)", got.size(), got.back().name.c_str(), got.back().value.substr(0, 60).c_str());
      CHECK(d.finished() == (got.size() == hs.size()), "finished", "headers decoder %s after header %zu of %zu", d.finished() ? "finished" : "not finished", got.size(), hs.size());
      if (d.finished()) return;
      if (g.chance(1, 8)) {
        http3::headers::decoder t(std::move(d));
        d = std::move(t);
      }
    }
  };
  bool whole = g.chance(1, 4);
  if (whole) {
    base::buffer b = buf(all);
    while (!d.finished()) {
      auto r = d.decode(b);
      CHECK(r, "headers-decode", "headers decoder: %s for %s", ename(r.error()), hex(all).c_str());
      got.push_back({ str(r.value().name()), str(r.value().value()) });
    }
    CHECK(str(b) == after, "headers-consumed", "headers decoder left %s of what follows the frame %s", hex(str(b)).c_str(), hex(after).c_str());
  } else {
    for (auto &p : parts) {
      in.push(buf(p));
      fed += p.size();
      if (!d.finished()) pull();
    }
    CHECK(content(in) == after, "headers-consumed", "headers decoder left %s of what follows the frame %s", hex(content(in)).c_str(), hex(after).c_str());
  }
  CHECK(got == hs && d.finished(), "headers-differ", "decoded %s instead of %s", ref::show(got).c_str(), ref::show(hs).c_str());
  auto r = [&]() { base::buffer b = buf(frame); return d.decode(b); }();
  CHECK(!r && r.error() != h3err::incomplete, "decode-after-end", "headers decoder: decode() after the end: %s", r ? "header" : ename(r.error()));
  c.stat("header-blocks-decoded");
}

static bytes encode_body(Ctx &c, Rng &g, const std::vector<bytes> &chunks, bool &used)
{
  http3::body::encoder e;
  bytes out, given;
  size_t i = 0;
  bool fin = false;
  unsigned k = 0;
  auto sent = [&]() {
    // What the output carries so far, and whether a frame is open.
    size_t pos = 0;
    bytes body;
    while (pos < out.size()) {
      uint64_t type, len;
      if (!ref::varint_get(out, pos, type) || !ref::varint_get(out, pos, len)) break;
      CHECK(type == ref::DATA, "body-frame", "body encoder produced a frame of type %llu", (unsigned long long) type);
      body += out.substr(pos, std::min<size_t>(len, out.size() - pos));
      if (len > out.size() - pos) { pos = out.size() + 1; break; }
      pos += len;
    }
    return std::make_pair(body, pos == out.size());
  };
  while (!e.finished()) {
    CHECK(++k < 100000, "endless", "body encoder never finishes");
    if (g.chance(1, 10)) {
      http3::body::encoder t(std::move(e));
      e = std::move(t);
    }
    if (g.chance(1, 2)) {
      if (i < chunks.size()) {
        CHECK(e.add(buf(chunks[i])), "add", "body encoder refuses a chunk");
        given += chunks[i++];
      } else if (!fin) {
        CHECK(e.fin(), "fin", "body encoder: fin() fails");
        fin = true;
      } else
        CHECK(!e.add(buf("late")), "add-after-fin", "body encoder: add() after fin() succeeds");
      continue;
    }
    auto r = e.encode();
    auto s = sent();
    if (!r) {
      CHECK(r.error() == h3err::idle, "encode", "body encoder: encode() fails with %s", ename(r.error()));
      CHECK(s.first == given && s.second, "idle-early", "body encoder idle with %zu of %zu bytes encoded", s.first.size(), given.size());
      CHECK(!fin, "not-finished", "body encoder idle although everything was encoded and it is complete");
      continue;
    }
    out += str(r.value());
    auto t = sent();
    CHECK(given.compare(0, t.first.size(), t.first) == 0 && t.first.size() <= given.size(), "body-differs", "body encoder encoded %s, was given %s", hex(t.first).c_str(), hex(given).c_str());
    CHECK(e.finished() == (fin && t.second && t.first == given), "finished", "body encoder %s with %zu of %zu bytes encoded%s", e.finished() ? "finished" : "not finished", t.first.size(), given.size(), fin ? ", complete" : "");
  }
  auto s = sent();
  CHECK(fin && s.first == given && s.second && i == chunks.size(), "finished-early", "body encoder finished with %zu of %zu bytes encoded", s.first.size(), given.size());
  auto r = e.encode();
  CHECK(!r && r.error() != h3err::idle, "encode-after-end", "body encoder: encode() after the end: %s", r ? "data" : ename(r.error()));
  CHECK(!e.add(buf("late")) && !e.fin(), "add-after-fin", "body encoder: add() or fin() after the end succeeds");
  c.stat("bodies-encoded");
  used = !out.empty();
  return out;
}
static void decode_body(Ctx &c, Rng &g, const bytes &in, const bytes &want, bool whole)
{
  http3::body::decoder d;
  bytes got;
  base::buffers b;
  base::buffer one = buf(in);
  auto pull = [&](auto &s, bool complete) {
    for (unsigned k = 0;; k++) {
      CHECK(k < 100000, "endless", "body decoder never ends");
      size_t before = s.size();
      auto r = d.decode(s);
      if (!r) {
        CHECK(r.error() == h3err::incomplete, "body-decode", "body decoder: %s", ename(r.error()));
        if (complete) CHECK(!d.in_progress(), "in-progress", "body decoder expects more data after the last byte");
        return;
      }
      CHECK(r.value().size() <= before, "body-decode", "body decoder made up bytes");
      got += str(r.value());
      if (g.chance(1, 8)) {
        http3::body::decoder t(std::move(d));
        d = std::move(t);
      }
    }
  };
  if (whole) pull(one, true);
  else {
    std::vector<bytes> parts = split(in, g);
    for (size_t i = 0; i < parts.size(); i++) {
      b.push(buf(parts[i]));
      pull(b, i + 1 == parts.size());
    }
  }
  CHECK(got == want, "body-differs", "decoded %zu bytes %s instead of %zu %s", got.size(), hex(got, 40).c_str(), want.size(), hex(want, 40).c_str());
  c.stat("bodies-decoded");
}
void run_case(Ctx &c)
{
  Rng &g = c.rng;
  Msg m = any_msg(g, 400);
  if (c.idx % 100 == 0) { // large header blocks and bodies
    switch (g.below(5)) {
      case 0: { size_t n = g.chance(1, 2) ? 16300 + g.below(200) : 60000 + g.below(80000); m.hs.insert(m.hs.begin() + (long) g.below(m.hs.size() + 1), { "x-large", g.chance(1, 2) ? big_raw(g, n) : big_text(g, n) }); break; }
      case 1: for (size_t n = 250 + g.below(1500); n-- > 0;) m.hs.push_back(any_header(g, 40)); break;
      case 2: m.chunks.push_back(big_raw(g, (g.chance(1, 2) ? 16384 : 65536) + g.below(5) - 2)); break;
      case 3: m.chunks.insert(m.chunks.begin() + (long) g.below(m.chunks.size() + 1), big_raw(g, 100000 + g.below(1500000))); break;
      default: for (size_t n = 100 + g.below(200); n-- > 0;) m.chunks.push_back(any_bytes(g, 30));
    }
    c.stat("large-messages");
  }
  bool used = false;
  bytes h = encode_headers(c, g, m.hs);
  bytes b = encode_body(c, g, m.chunks, used);
  c.observe(h);
  c.observe(b);
  c.interesting();
  c.sample(ref::show(m.hs) + strf(" + %zu chunks, %zu bytes", m.chunks.size(), m.body().size()));
  bytes after = g.chance(1, 2) ? b : any_bytes(g, 10);
  decode_headers(c, g, h, m.hs, after);
  decode_headers(c, g, ref::frame_any(ref::HEADERS, ref::qpack(m.hs, g), g), m.hs, any_bytes(g, 20));
  decode_body(c, g, b, m.body(), g.chance(1, 3));
  bytes foreign;
  for (auto &ch : m.chunks) {
    if (g.chance(1, 3)) { uint64_t t; do t = any_varint(g); while (ref::known_type(t)); foreign += ref::frame_any(t, any_bytes(g, 20), g); }
    foreign += ref::frame_any(ref::DATA, ch, g);
  }
  decode_body(c, g, foreign, m.body(), g.chance(1, 3));
  // Frames of other types are handed back untouched.
  static const uint64_t types[] = { 0, 1, 2, 3, 4, 5, 7, 13, 14 };
  for (uint64_t t : types) {
    bytes f = ref::frame_any(t, t == 2 ? bytes("\x10\x01\x02\x03", 4) : t == 4 ? bytes() : bytes("\x05", 1), g) + any_bytes(g, 6);
    if (t != ref::HEADERS) {
      http3::headers::decoder d;
      base::buffers s = bufs(split(f, g));
      auto r = d.decode(s);
      CHECK(!r && r.error() == h3err::delegate && content(s) == f && !d.started(), "delegate", "headers decoder and a frame of type %llu: %s, %zu of %zu bytes left", (unsigned long long) t, r ? "header" : ename(r.error()), s.size(), f.size());
      // It still works afterwards.
      base::buffer n = buf(h);
      auto r2 = d.decode(n);
      CHECK(r2 && str(r2.value().name()) == m.hs[0].name, "delegate", "headers decoder unusable after handing a frame back");
    }
    if (t != ref::DATA) {
      http3::body::decoder d;
      base::buffers s = bufs(split(f, g));
      auto r = d.decode(s);
      CHECK(!r && r.error() == h3err::delegate && content(s) == f && !d.in_progress(), "delegate", "body decoder and a frame of type %llu: %s, %zu of %zu bytes left", (unsigned long long) t, r ? "data" : ename(r.error()), s.size(), f.size());
      base::buffer n = buf(ref::frame(ref::DATA, "xyz"));
      auto r2 = d.decode(n);
      CHECK(r2 && str(r2.value()) == "xyz", "delegate", "body decoder unusable after handing a frame back");
    }
    c.stat("delegations", 2);
  }
  // Huge payload lengths: everything that arrives is delivered and the frame
  // stays open.
  {
    uint64_t len = g.chance(1, 2) ? ref::VARINT_MAX - g.below(3) : (1ULL << (20 + g.below(42))) + g.below(3) - 1;
    http3::body::decoder d;
    bytes data = any_bytes(g, 300), got;
    base::buffers s;
    for (auto &p : split(ref::varint_any(0, g) + ref::varint(len, 8) + data, g)) {
      s.push(buf(p));
      for (;;) {
        auto r = d.decode(s);
        if (!r) {
          CHECK(r.error() == h3err::incomplete, "body-huge", "DATA frame of %llu bytes: %s", (unsigned long long) len, ename(r.error()));
          break;
        }
        got += str(r.value());
      }
    }
    CHECK(got == data && d.in_progress(), "body-huge", "DATA frame of %llu bytes: delivered %zu of %zu bytes%s", (unsigned long long) len, got.size(), data.size(), d.in_progress() ? "" : ", frame closed");
    c.stat("huge-frames");
  }
}
