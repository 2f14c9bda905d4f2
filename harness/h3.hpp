// Sessions between connections: transport, reference stream parsers, monitors.
#pragma once
#include "bnlx.hpp"

// ---------------------------------------------------------------- reference parser
// What a receiver of a request stream must have delivered after `b` arrived.
// Only for streams made of HEADERS, DATA and unknown frames.
struct Parsed {
  ref::Headers hs;
  bool hdone = false;
  bytes body;
  bool boundary = false; // `b` ends exactly at the end of a frame
  std::string bad;       // not legal
  size_t data_frames = 0;
  bool trailers = false;
};
static inline Parsed ref_request(const bytes &b)
{
  Parsed r;
  size_t pos = 0;
  for (;;) {
    if (pos == b.size()) { r.boundary = true; return r; }
    uint64_t type, len;
    size_t p = pos;
    if (!ref::varint_get(b, p, type) || !ref::varint_get(b, p, len)) return r;
    size_t have = b.size() - p;
    bool whole = len <= have;
    bytes payload = b.substr(p, whole ? len : have);
    if (!ref::known_type(type)) {
      if (!whole) return r;
    } else if (type == ref::HEADERS) {
      if (r.trailers) { r.bad = "HEADERS after the trailers"; return r; }
      if (r.hdone) { // trailing headers are ignored, whatever they are
        r.trailers = true;
        if (!whole) return r;
        pos = p + len;
        continue;
      }
      // Header lines one by one: find the longest prefix of the payload that
      // is a whole number of lines.
      size_t q = 0;
      uint64_t v;
      int st = ref::pint_get(payload, q, 8, v);
      if (st == 1) st = ref::pint_get(payload, q, 7, v);
      while (st == 1 && q < payload.size()) {
        ref::Headers one;
        unsigned char c = (unsigned char) payload[q];
        uint64_t i;
        ref::Header h;
        size_t s = q;
        if (c & 0x80) {
          st = ref::pint_get(payload, s, 6, i);
          if (st != 1) break;
          if (!(c & 0x40) || i >= 99) { r.bad = "bad index"; return r; }
          h = { REF_STATIC[i].name, REF_STATIC[i].value };
        } else if (c & 0x40) {
          st = ref::pint_get(payload, s, 4, i);
          if (st != 1) break;
          if (!(c & 0x10) || i >= 99) { r.bad = "bad name index"; return r; }
          h.name = REF_STATIC[i].name;
          st = ref::literal_get(payload, s, 7, h.value);
        } else if (c & 0x20) {
          st = ref::literal_get(payload, s, 3, h.name);
          if (st == 1) st = ref::literal_get(payload, s, 7, h.value);
        } else {
          r.bad = "post-base";
          return r;
        }
        if (st != 1) break;
        q = s;
        r.hs.push_back(h);
      }
      if (st < 0) { r.bad = "bad header block"; return r; }
      if (!whole) return r;
      if (st == 0 || q != payload.size()) { r.bad = "header block does not fill its frame"; return r; }
      r.hdone = true;
    } else if (type == ref::DATA) {
      if (!r.hdone) { r.bad = "DATA before HEADERS"; return r; }
      if (r.trailers) { r.bad = "DATA after the trailers"; return r; }
      r.body += payload;
      r.data_frames++;
      if (!whole) return r;
    } else {
      r.bad = strf("frame of type %llu", (unsigned long long) type);
      return r;
    }
    pos = p + len;
  }
}

// ---------------------------------------------------------------- what a receiver observed
struct Rx {
  ref::Headers hs;
  bool hdone = false;
  bytes body;
  bool body_end = false;
  unsigned finished = 0;
  bool error = false;
  h3err err = h3err::no_error;
  unsigned settings = 0;
  http3::settings peer;
  unsigned events = 0;
  bytes digest() const
  {
    bytes r;
    for (auto &h : hs) r += h.name + "\1" + h.value + "\2";
    r += hdone ? "D" : "-";
    r += "|" + body + "|" + (finished ? "F" : "-") + (error ? ename(err) : "") + "|" + std::to_string(settings);
    if (settings) r += u64(peer.max_header_list_size) + u64(peer.num_placeholders) + u64(peer.qpack_max_table_capacity) + u64(peer.qpack_blocked_streams);
    return r;
  }
};
static inline std::string show(const Rx &r)
{
  return strf("headers=%s%s body=%zu bytes %s%s%s%s settings=%u", ref::show(r.hs).c_str(), r.hdone ? "(complete)" : "", r.body.size(), hex(r.body, 24).c_str(), r.body_end ? " end" : "", r.finished ? " finished" : "", r.error ? (std::string(" error=") + ename(r.err)).c_str() : "", r.settings);
}

// Feeds one event to the observation and checks the order of events.
static inline void observe_event(Rx &x, uint64_t id, http3::event &e, const char *who)
{
  using t = http3::event::type;
  x.events++;
  CHECK(!x.finished, "event-after-finished", "%s: event on stream %llu after the end of the message", who, (unsigned long long) id);
  CHECK(!x.error, "event-after-error", "%s: event on stream %llu after an error", who, (unsigned long long) id);
  switch ((t) e) {
    case t::settings:
      x.settings++;
      x.peer = e.settings;
      CHECK(id == 2 || id == 3, "settings-stream", "%s: settings event on stream %llu", who, (unsigned long long) id);
      break;
    case t::header:
      CHECK(e.header.id == id, "event-stream-id", "%s: header event of stream %llu says stream %llu", who, (unsigned long long) id, (unsigned long long) e.header.id);
      CHECK(!x.hdone, "header-after-last", "%s: header event on stream %llu after the last header", who, (unsigned long long) id);
      x.hs.push_back({ str(e.header.header.name()), str(e.header.header.value()) });
      x.hdone = e.header.fin;
      break;
    case t::body:
      CHECK(e.body.id == id, "event-stream-id", "%s: body event of stream %llu says stream %llu", who, (unsigned long long) id, (unsigned long long) e.body.id);
      CHECK(x.hdone, "body-before-headers", "%s: body event on stream %llu before the headers were complete", who, (unsigned long long) id);
      CHECK(!x.body_end, "body-after-end", "%s: body event on stream %llu after the last body event", who, (unsigned long long) id);
      x.body += str(e.body.buffer);
      x.body_end = e.body.fin;
      break;
    case t::finished:
      CHECK(e.finished.id == id, "event-stream-id", "%s: finished event of stream %llu says stream %llu", who, (unsigned long long) id, (unsigned long long) e.finished.id);
      CHECK(x.hdone, "finished-before-headers", "%s: stream %llu finished before its headers", who, (unsigned long long) id);
      x.finished++;
      break;
  }
}

static const unsigned DRAIN_LIMIT = 2000000;

// Drains a generator. Stops at the first error. `max` limits the number of
// events; returns false when it stopped because of it.
template<typename Gen> static bool drain(Gen &gen, Rx &x, uint64_t id, const char *who, unsigned max = DRAIN_LIMIT)
{
  unsigned k = 0;
  while (k < max && gen.next()) {
    k++;
    auto r = gen.get();
    if (!r) {
      if (x.finished) fail("error-after-finished", "%s: error %s on stream %llu after the end of the message", who, ename(r.error()), (unsigned long long) id);
      x.error = true;
      x.err = r.error();
      return true;
    }
    http3::event e = std::move(r).value();
    observe_event(x, id, e, who);
  }
  CHECK(k < DRAIN_LIMIT, "drain-endless", "%s: draining stream %llu never ends", who, (unsigned long long) id);
  return k < max;
}

template<typename Conn> struct gen_of;
template<> struct gen_of<http3::client::connection> { using type = http3::client::generator; };
template<> struct gen_of<http3::server::connection> { using type = http3::server::generator; };

// Delivers bytes to a connection and drains.
template<typename Conn> static void deliver(Conn &c, Rx &x, uint64_t id, const bytes &b, bool fin, const char *who, unsigned max = DRAIN_LIMIT)
{
  quic::data d;
  d.id = id;
  d.fin = fin;
  d.buffer = buf(b);
  auto r = c.recv(quic::event(std::move(d)));
  if (!r) {
    x.error = true;
    x.err = r.error();
    return;
  }
  drain(r.value(), x, id, who, max);
}
template<typename Conn> static void redrain(Conn &c, Rx &x, uint64_t id, const char *who)
{
  if (x.finished || x.error) return;
  typename gen_of<Conn>::type gen(id, c);
  drain(gen, x, id, who);
}

// ---------------------------------------------------------------- what a sender put on the wire
struct Sent {
  bytes data;
  bool fin = false;
  size_t delivered = 0;
  bool fin_delivered = false;
  unsigned events = 0;
  std::vector<size_t> ends; // offsets at which deliveries ended
  bool pending() const { return delivered < data.size() || (fin && !fin_delivered); }
};
using Wire = std::map<uint64_t, Sent>;

// One send() call. Returns false when idle. Checks everything that can be
// checked about a single event.
template<typename Conn> static bool send_one(Conn &c, Wire &w, const char *who)
{
  auto r = c.send();
  if (!r) {
    CHECK(r.error() == h3err::idle, "send-error", "%s: send() fails with %s", who, ename(r.error()));
    return false;
  }
  quic::event e = std::move(r).value();
  CHECK(e == quic::event::type::data, "send-not-data", "%s: send() returned something other than data", who);
  Sent &s = w[e.data.id];
  CHECK(!s.fin, "send-after-fin", "%s: data on stream %llu after its end", who, (unsigned long long) e.data.id);
  bytes b = str(e.data.buffer);
  s.data += b;
  s.fin = e.data.fin;
  s.events++;
  return true;
}

// ---------------------------------------------------------------- C10 monitors
static inline void check_control_wire(const Wire &w, bool client, bool must, const char *who)
{
  uint64_t id = client ? 2 : 3;
  auto it = w.find(id);
  if (it == w.end()) {
    CHECK(!must, "control-missing", "%s: no control stream", who);
    return;
  }
  const Sent &s = it->second;
  CHECK(!s.fin, "control-ended", "%s: the control stream was ended", who);
  size_t pos = 0;
  uint64_t v, len;
  CHECK(ref::varint_get(s.data, pos, v) && v == 0, "control-type", "%s: control stream starts with %s", who, hex(s.data, 16).c_str());
  if (pos == s.data.size() && !must) return;
  CHECK(ref::varint_get(s.data, pos, v) && v == ref::SETTINGS, "control-no-settings", "%s: control stream %s has no SETTINGS frame", who, hex(s.data, 16).c_str());
  CHECK(ref::varint_get(s.data, pos, len) && s.data.size() - pos == len, "control-settings-length", "%s: control stream %s has bytes besides a single SETTINGS frame", who, hex(s.data, 64).c_str());
  std::map<uint64_t, uint64_t> got;
  while (pos < s.data.size()) {
    uint64_t k;
    CHECK(ref::varint_get(s.data, pos, k) && ref::varint_get(s.data, pos, v), "control-settings-payload", "%s: SETTINGS payload does not parse: %s", who, hex(s.data, 64).c_str());
    CHECK(got.emplace(k, v).second, "control-settings-repeated", "%s: setting %llu twice", who, (unsigned long long) k);
  }
  // The settings of a default-constructed connection; what is not listed has
  // the protocol's default.
  auto val = [&](uint64_t k, uint64_t d) { auto i = got.find(k); if (i == got.end()) return d; uint64_t x = i->second; got.erase(i); return x; };
  uint64_t a = val(0x6, ref::VARINT_MAX), b = val(0x9, 0), c = val(0x1, 0), d = val(0x7, 0);
  CHECK(a == ref::VARINT_MAX && b == 0 && c == 0 && d == 0 && got.empty(), "control-settings-value", "%s: settings on the wire are not the connection's settings: %s", who, hex(s.data, 64).c_str());
}
// `fin_allowed`: the message was completed by its handle. Returns the parse.
static inline Parsed check_request_wire(uint64_t id, const Sent &s, const char *who)
{
  Parsed p = ref_request(s.data);
  CHECK(p.bad.empty(), "wire-illegal", "%s: stream %llu: %s in %s", who, (unsigned long long) id, p.bad.c_str(), hex(s.data, 64).c_str());
  CHECK((id & 3) == 0, "wire-stream-id", "%s: sent on stream %llu", who, (unsigned long long) id);
  // No unknown frames, one HEADERS frame, minimal order: walk again.
  size_t pos = 0;
  bool first = true;
  while (pos < s.data.size()) {
    uint64_t type, len;
    if (!ref::varint_get(s.data, pos, type)) break;
    CHECK(type == (first ? ref::HEADERS : ref::DATA), "wire-frame-order", "%s: stream %llu: frame of type %llu as %s frame", who, (unsigned long long) id, (unsigned long long) type, first ? "first" : "later");
    if (!ref::varint_get(s.data, pos, len)) break;
    first = false;
    if (len > s.data.size() - pos) break;
    pos += len;
  }
  if (s.fin) CHECK(p.boundary && p.hdone, "wire-fin-inside", "%s: stream %llu ends inside a frame", who, (unsigned long long) id);
  return p;
}

// ---------------------------------------------------------------- messages
struct Msg {
  ref::Headers hs;
  std::vector<bytes> chunks;
  bytes body() const { bytes r; for (auto &c : chunks) r += c; return r; }
};
static inline Msg any_msg(Rng &g, size_t max_body = 3000)
{
  Msg m;
  m.hs = any_headers(g, g.chance(1, 8) ? 30 : 5, 120);
  size_t n = g.chance(1, 6) ? 0 : 1 + g.below(g.chance(1, 6) ? 12 : 4);
  for (size_t i = 0; i < n; i++) {
    switch (g.below(6)) {
      case 0: m.chunks.push_back(bytes()); break;
      case 1: m.chunks.push_back(any_bytes(g, max_body)); break;
      case 2: { bytes b(g.below(64) + g.below(2) * 16384, 'x'); for (auto &ch : b) ch = (char) g.next(); m.chunks.push_back(b.substr(0, std::min(b.size(), max_body * 6))); break; }
      default: m.chunks.push_back(any_bytes(g, 80));
    }
  }
  return m;
}
// A message as another implementation would put it on a stream: any
// representation, any varint length, unknown frames in between.
static inline bytes foreign_stream(const Msg &m, Rng &g, std::vector<size_t> *bounds = nullptr, bool unknown = true, bool trailers = true)
{
  bytes r;
  auto junk = [&]() {
    while (unknown && g.chance(1, 5)) {
      uint64_t t;
      do t = g.chance(1, 2) ? 0x21 + 0x1f * g.below(1000) : any_varint(g); while (ref::known_type(t));
      r += ref::frame_any(t, any_bytes(g, g.chance(1, 6) ? 400 : 30), g);
      if (bounds) bounds->push_back(r.size());
    }
  };
  junk();
  r += ref::frame_any(ref::HEADERS, ref::qpack(m.hs, g), g);
  if (bounds) bounds->push_back(r.size());
  for (auto &c : m.chunks) {
    junk();
    r += ref::frame_any(ref::DATA, c, g);
    if (bounds) bounds->push_back(r.size());
  }
  junk();
  if (trailers && g.chance(1, 5)) {
    r += ref::frame_any(ref::HEADERS, g.chance(1, 2) ? ref::qpack(any_headers(g, 3, 30), g) : any_bytes(g, 30), g);
    if (bounds) bounds->push_back(r.size());
    junk();
  }
  return r;
}
static inline bytes foreign_control(Rng &g, http3::settings *out = nullptr, unsigned extra_unknown = 2)
{
  http3::settings s;
  bytes p;
  auto unknown_setting = [&]() {
    while (g.chance(1, 4)) {
      uint64_t id;
      do id = any_varint(g); while (id == 6 || id == 9 || id == 1 || id == 7);
      p += ref::varint_any(id, g) + ref::varint_any(any_varint(g), g);
    }
  };
  auto put = [&](uint64_t id, uint64_t &f) {
    unknown_setting();
    if (g.chance(1, 3)) return;
    f = any_varint(g);
    p += ref::varint_any(id, g) + ref::varint_any(f, g);
  };
  unsigned rot = (unsigned) g.below(4);
  for (unsigned i = 0; i < 4; i++) switch ((i + rot) % 4) {
      case 0: put(6, s.max_header_list_size); break;
      case 1: put(9, s.num_placeholders); break;
      case 2: put(1, s.qpack_max_table_capacity); break;
      default: put(7, s.qpack_blocked_streams);
    }
  unknown_setting();
  bytes r = ref::varint(0);
  auto junk = [&]() {
    for (unsigned i = 0; i < extra_unknown; i++)
      if (g.chance(1, 4)) {
        uint64_t t;
        do t = any_varint(g); while (ref::known_type(t));
        r += ref::frame_any(t, any_bytes(g, 40), g);
      }
  };
  junk();
  r += ref::frame_any(ref::SETTINGS, p, g);
  junk();
  if (out) *out = s;
  return r;
}
static inline bool same(const http3::settings &a, const http3::settings &b)
{
  return a.max_header_list_size == b.max_header_list_size && a.num_placeholders == b.num_placeholders && a.qpack_max_table_capacity == b.qpack_max_table_capacity && a.qpack_blocked_streams == b.qpack_blocked_streams;
}
template<typename Handle> static void say(Handle &h, const Msg &m)
{
  for (auto &x : m.hs) CHECK(h.header({ { x.name.data(), x.name.size() }, { x.value.data(), x.value.size() } }), "api-header", "header() refused");
  CHECK(h.start(), "api-start", "start() refused");
  for (auto &c : m.chunks) CHECK(h.body(buf(c)), "api-body", "body() refused");
  CHECK(h.fin(), "api-fin", "fin() refused");
}
// A client connection with one request sent, so that responses are accepted.
struct Client {
  http3::client::connection c;
  std::vector<http3::request::handle> handles;
  Wire wire;
  explicit Client(unsigned requests = 1, bool send = true)
  {
    for (unsigned i = 0; i < requests; i++) {
      auto r = c.request();
      CHECK(r, "api-request", "request() fails");
      handles.push_back(std::move(r).value());
      ref::Headers hs = { { ":method", "GET" } };
      CHECK(handles.back().header({ ":method", "GET" }), "api-header", "header() refused");
      CHECK(handles.back().start(), "api-start", "start() refused");
    }
    if (send) while (send_one(c, wire, "client")) {}
  }
};
// Fragments of a stream with the end of the stream on the last one, or in a
// separate empty one.
struct Frag {
  bytes b;
  bool fin;
};
static inline std::vector<Frag> fragments(const bytes &b, bool fin, Rng &g, size_t max = 14)
{
  std::vector<Frag> r;
  for (auto &p : split(b, g, max)) r.push_back({ p, false });
  if (fin) {
    if (g.chance(1, 3)) r.push_back({ bytes(), true });
    else r.back().fin = true;
  }
  return r;
}
