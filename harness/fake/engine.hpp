// A scripted QUIC engine behind ngtcp2's API. It keeps to what ngtcp2
// promises its user: packets carry the crypto and stream data the user offers,
// as much of it as policy (space, flow control, stream limits, congestion)
// allows; it refers to that data, without copying it, until it has told the
// user that it was acknowledged; it reports acknowledgements in order.
//
// It is also a monitor: it remembers what was offered and reports when the
// user breaks the rules or when data it still refers to changes. (When the
// memory is gone AddressSanitizer reports it.)
//
// Packets (both ways) are sequences of frames:
//   kind(1) level(1) id(8) offset(8) flags(1) length(4) bytes
#pragma once
#include <algorithm>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <random>
#include <string>
#include <vector>

#include <ngtcp2/ngtcp2.h>

namespace fake {

using bytes = std::vector<uint8_t>;

struct frame {
  char kind = 0;
  uint8_t level = 0;
  uint64_t id = 0, offset = 0;
  uint8_t flags = 0;
  bytes data;
};

inline void
put(bytes &out, uint64_t v, int n)
{
  for (int i = 0; i < n; i++)
    out.push_back((uint8_t)(v >> (8 * i)));
}

inline void
put(bytes &out, const frame &f)
{
  out.push_back((uint8_t) f.kind);
  out.push_back(f.level);
  put(out, f.id, 8);
  put(out, f.offset, 8);
  out.push_back(f.flags);
  put(out, f.data.size(), 4);
  out.insert(out.end(), f.data.begin(), f.data.end());
}

static const size_t FRAME_HEADER = 23;

inline bool
parse(const uint8_t *p, size_t n, std::vector<frame> &out)
{
  auto get = [&](int k) {
    uint64_t v = 0;
    for (int i = 0; i < k; i++)
      v |= (uint64_t) *p++ << (8 * i);
    n -= (size_t) k;
    return v;
  };
  while (n) {
    if (n < FRAME_HEADER)
      return false;
    frame f;
    f.kind = (char) get(1);
    f.level = (uint8_t) get(1);
    f.id = get(8);
    f.offset = get(8);
    f.flags = (uint8_t) get(1);
    size_t len = (size_t) get(4);
    if (len > n)
      return false;
    f.data.assign(p, p + len);
    p += len;
    n -= len;
    out.push_back(std::move(f));
  }
  return true;
}

// A piece of memory of the user that the engine refers to.
struct piece {
  const uint8_t *p;
  bytes copy;
  uint64_t offset;
  bool lost = false;
};

struct outgoing {
  std::deque<piece> pieces; // Not acknowledged yet.
  uint64_t written = 0, acked = 0;
  bool opened = false, fin = false, fin_reported = false, shut = false;
  uint64_t credit = UINT64_MAX;
  bytes all; // Everything accepted so far.
  unsigned fin_count = 0;
  uint64_t fin_offset = 0; // where the frame with the end of the stream starts
  bool fin_acked = false, fin_lost = false;
};

struct keys {
  std::string what;
  bytes key, iv, hp;
};

// Where the engine's decisions come from.
struct policy {
  std::mt19937_64 rng;
  unsigned partial = 0;     // out of 100: accept only a part of the data
  unsigned congested = 0;   // out of 100: no packet fits the congestion window
  unsigned datablocked = 0; // out of 100: flow control blocks the stream
  unsigned nodata = 0;      // out of 100: a packet without the stream's data
  unsigned idblocked = 0;   // out of 100: the stream limit blocks opening
  unsigned retransmit = 0;  // out of 100: a packet repeats unacknowledged data
  uint64_t bidi = UINT64_MAX, uni = UINT64_MAX; // streams that may be opened
  bool roll(unsigned pct) { return pct && rng() % 100 < pct; }
};

inline std::vector<std::string> &
complaints()
{
  static thread_local std::vector<std::string> v;
  return v;
}

inline void
complain(std::string s)
{
  complaints().push_back(std::move(s));
}

inline std::function<void(ngtcp2_conn *)> &
on_new()
{
  static thread_local std::function<void(ngtcp2_conn *)> f;
  return f;
}

struct call_time {
  std::string what;
  uint64_t ts;
};

inline std::map<std::string, uint64_t> &
counters()
{
  static thread_local std::map<std::string, uint64_t> m;
  return m;
}

}

struct ngtcp2_conn {
  ngtcp2_cid dcid, scid;
  ngtcp2_conn_callbacks cb;
  ngtcp2_settings settings;
  std::string local, remote;
  std::vector<std::pair<std::string, std::string>> paths_seen;
  void *user = nullptr;
  size_t aead_overhead = 0;
  bool completed = false, started = false;
  unsigned completions = 0;
  std::vector<fake::keys> keys;
  ngtcp2_transport_params remote_tp = {};
  bool remote_tp_set = false;
  bool fail_timer = false;
  // The next call of this function fails.
  std::string fail_api;
  int fail_code = 0;
  bool fails(const char *what)
  {
    if (fail_api != what)
      return false;
    fail_api.clear();
    return true;
  }
  int fail_install = 0; // how many more key installations succeed, 0: all
  struct {
    std::deque<fake::piece> pieces;
    uint64_t written = 0, sent = 0, acked = 0;
    fake::bytes all;
  } crypto[4];
  uint64_t crypto_received[4] = {};
  std::map<uint64_t, fake::outgoing> out;
  std::map<uint64_t, uint64_t> received;
  // The windows of the peer, how far the user extended them, and what arrived.
  std::map<uint64_t, uint64_t> extended;
  uint64_t extended_all = 0, received_all = 0;
  // Would the peer send this much on the stream?
  bool window(uint64_t id, uint64_t end, uint64_t size)
  {
    uint64_t initial = (id & 3) == 0 ? settings.max_stream_data_bidi_local : (id & 3) == 1 ? settings.max_stream_data_bidi_remote : settings.max_stream_data_uni;
    uint64_t streams = (id & 3) == 1 ? settings.max_streams_bidi : (id & 3) == 3 ? settings.max_streams_uni : UINT64_MAX;
    return id / 4 < streams && end <= initial + extended[id] && received_all + size <= settings.max_data + extended_all;
  }
  uint64_t next_bidi = 0, next_uni = 2;
  fake::policy pol;
  std::vector<fake::call_time> calls;
  uint64_t idle_timeout = 0, expiry = UINT64_MAX, loss_expiry = UINT64_MAX, ack_expiry = UINT64_MAX;
  unsigned retransmitted = 0;
  std::vector<int> crypto_results; // of recv_crypto_data
  fake::bytes last; // The packet made last.

  // With a real peer (fake/wire.cpp) the engine also acknowledges what arrives,
  // retransmits what is not acknowledged in time, and ignores packets that
  // cannot be from its peer. Acknowledgements are absolute offsets then.
  bool wire = false, ack_pending = false;
  uint64_t pto = 0, backoff = 0, last_sent = 0;
  std::map<uint64_t, bool> received_fin;
  bool in_flight() const
  {
    for (auto &o : out)
      if (!o.second.shut && (!o.second.pieces.empty() || (o.second.fin && !o.second.fin_acked)))
        return true;
    for (auto &c : crypto)
      if (c.sent > c.acked)
        return true;
    return false;
  }
  void wire_timer(uint64_t ts, bool sent)
  {
    if (!wire)
      return;
    if (sent)
      last_sent = ts;
    loss_expiry = expiry = in_flight() ? last_sent + (pto << std::min<uint64_t>(backoff, 24)) : UINT64_MAX;
  }

  void path(const ngtcp2_path *p)
  {
    if (p)
      paths_seen.push_back({ std::string((const char *) p->local.addr, p->local.addrlen), std::string((const char *) p->remote.addr, p->remote.addrlen) });
  }

  // Reads a piece again the way a retransmission does.
  fake::bytes read(const fake::piece &pc, const std::string &what)
  {
    fake::bytes b(pc.p, pc.p + pc.copy.size());
    if (b != pc.copy)
      fake::complain(what + " changed before it was acknowledged");
    return b;
  }

  // All data that may be sent again must still be there.
  void check()
  {
    for (auto &o : out)
      for (auto &p : o.second.pieces)
        read(p, "data of a stream");
    for (auto &c : crypto)
      for (auto &p : c.pieces)
        read(p, "handshake data");
  }

  // The peer acknowledges the next `n` bytes of a stream.
  int ack(uint64_t id, uint64_t n)
  {
    fake::outgoing &o = out[id];
    if (n > o.written - o.acked)
      n = o.written - o.acked;
    if (n == 0)
      return 0;
    uint64_t from = o.acked;
    o.acked += n;
    int rv = cb.acked_stream_data_offset(this, (int64_t) id, from, (size_t) n, user, nullptr);
    while (!o.pieces.empty() && o.pieces.front().offset + o.pieces.front().copy.size() <= o.acked)
      o.pieces.pop_front();
    // What is left of a piece may still be sent again.
    if (!o.pieces.empty() && o.pieces.front().offset < o.acked) {
      fake::piece &p = o.pieces.front();
      size_t d = (size_t)(o.acked - p.offset);
      p.p += d;
      p.copy.erase(p.copy.begin(), p.copy.begin() + (ptrdiff_t) d);
      p.offset += d;
    }
    return rv;
  }

  // The peer acknowledges the frame with the end of the stream; that makes no
  // further data acknowledged.
  int ack_fin(uint64_t id)
  {
    fake::outgoing &o = out[id];
    if (!o.fin || o.fin_reported || (o.fin_offset != o.written && o.acked >= o.fin_offset))
      return 0;
    o.fin_reported = true;
    return cb.acked_stream_data_offset(this, (int64_t) id, o.acked, 0, user, nullptr);
  }

  int ack_crypto(int level, uint64_t n)
  {
    auto &c = crypto[level];
    if (n > c.sent - c.acked)
      n = c.sent - c.acked;
    if (n == 0)
      return 0;
    uint64_t from = c.acked;
    c.acked += n;
    int rv = cb.acked_crypto_offset(this, (ngtcp2_crypto_level) level, from, (size_t) n, user);
    while (!c.pieces.empty() && c.pieces.front().offset + c.pieces.front().copy.size() <= c.acked)
      c.pieces.pop_front();
    if (!c.pieces.empty() && c.pieces.front().offset < c.acked) {
      fake::piece &p = c.pieces.front();
      size_t d = (size_t)(c.acked - p.offset);
      p.p += d;
      p.copy.erase(p.copy.begin(), p.copy.begin() + (ptrdiff_t) d);
      p.offset += d;
    }
    return rv;
  }
};

struct ngtcp2_fake_init {};

const char *
ngtcp2_strerror(int rv)
{
  return rv == NGTCP2_ERR_PROTO ? "ERR_PROTO" : "ERR";
}

void
ngtcp2_path_storage_init(ngtcp2_path_storage *s, const uint8_t *l, size_t ln, void *lu, const uint8_t *r, size_t rn, void *ru)
{
  std::copy(l, l + ln, s->local_addrbuf);
  std::copy(r, r + rn, s->remote_addrbuf);
  s->path.local = { ln, s->local_addrbuf, lu };
  s->path.remote = { rn, s->remote_addrbuf, ru };
}

void
ngtcp2_settings_default(ngtcp2_settings *s)
{
  memset(s, 0, sizeof(*s));
  s->max_packet_size = 65527;
  s->ack_delay_exponent = 3;
  s->max_ack_delay = 25;
}

int
ngtcp2_conn_client_new(ngtcp2_conn **out, const ngtcp2_cid *dcid, const ngtcp2_cid *scid, const ngtcp2_path *path, uint32_t version, const ngtcp2_conn_callbacks *cb, const ngtcp2_settings *s, const void *, void *user)
{
  auto c = new ngtcp2_conn;
  c->dcid = *dcid;
  c->scid = *scid;
  c->cb = *cb;
  c->settings = *s;
  c->user = user;
  c->local.assign((const char *) path->local.addr, path->local.addrlen);
  c->remote.assign((const char *) path->remote.addr, path->remote.addrlen);
  c->calls.push_back({ "new", s->initial_ts });
  c->idle_timeout = s->idle_timeout * NGTCP2_MILLISECONDS;
  if (version != NGTCP2_PROTO_VER)
    fake::complain("the connection was made with another version");
  if (fake::on_new())
    fake::on_new()(c);
  *out = c;
  return 0;
}

void
ngtcp2_conn_del(ngtcp2_conn *c)
{
  if (c)
    fake::counters()["connections-deleted"]++;
  delete c;
}

const ngtcp2_cid *
ngtcp2_conn_get_dcid(ngtcp2_conn *c)
{
  return &c->dcid;
}

void
ngtcp2_conn_set_aead_overhead(ngtcp2_conn *c, size_t n)
{
  c->aead_overhead = n;
}

int
ngtcp2_conn_get_handshake_completed(ngtcp2_conn *c)
{
  return c->completed ? 1 : 0;
}

void
ngtcp2_conn_handshake_completed(ngtcp2_conn *c)
{
  c->completed = true;
  c->completions++;
  c->cb.handshake_completed(c, c->user);
}

void
ngtcp2_conn_get_local_transport_params(ngtcp2_conn *c, ngtcp2_transport_params *p)
{
  const ngtcp2_settings &s = c->settings;
  *p = { s.max_stream_data_bidi_local, s.max_stream_data_bidi_remote, s.max_stream_data_uni, s.max_data, s.max_streams_bidi, s.max_streams_uni, s.idle_timeout, s.max_packet_size, s.ack_delay_exponent, s.disable_migration, s.max_ack_delay };
}

namespace fake {

inline size_t
varint_size(uint64_t v)
{
  return v < 64 ? 1 : v < 16384 ? 2 : v < (1u << 30) ? 4 : 8;
}

inline void
varint(bytes &b, uint64_t v)
{
  size_t n = varint_size(v);
  for (size_t i = n; i--;) {
    uint8_t x = (uint8_t)(v >> (8 * i));
    if (i == n - 1)
      x = (uint8_t)(x | (n == 1 ? 0 : n == 2 ? 0x40 : n == 4 ? 0x80 : 0xc0));
    b.push_back(x);
  }
}

// Draft 23, section 18: a list of parameters with 16-bit ids and lengths.
inline bytes
encode(const ngtcp2_transport_params &p)
{
  bytes b;
  auto param = [&](unsigned id, uint64_t v) {
    b.push_back((uint8_t)(id >> 8));
    b.push_back((uint8_t) id);
    b.push_back(0);
    b.push_back((uint8_t) varint_size(v));
    varint(b, v);
  };
  if (p.initial_max_stream_data_bidi_local)
    param(5, p.initial_max_stream_data_bidi_local);
  if (p.initial_max_stream_data_bidi_remote)
    param(6, p.initial_max_stream_data_bidi_remote);
  if (p.initial_max_stream_data_uni)
    param(7, p.initial_max_stream_data_uni);
  if (p.initial_max_data)
    param(4, p.initial_max_data);
  if (p.initial_max_streams_bidi)
    param(8, p.initial_max_streams_bidi);
  if (p.initial_max_streams_uni)
    param(9, p.initial_max_streams_uni);
  if (p.max_packet_size != 65527)
    param(3, p.max_packet_size);
  if (p.ack_delay_exponent != 3)
    param(10, p.ack_delay_exponent);
  if (p.disable_migration) {
    b.push_back(0);
    b.push_back(12);
    b.push_back(0);
    b.push_back(0);
  }
  if (p.max_ack_delay != 25)
    param(11, p.max_ack_delay);
  if (p.idle_timeout)
    param(1, p.idle_timeout);
  bytes out;
  out.push_back((uint8_t)(b.size() >> 8));
  out.push_back((uint8_t) b.size());
  out.insert(out.end(), b.begin(), b.end());
  return out;
}

inline bool
decode(const uint8_t *d, size_t n, ngtcp2_transport_params &p)
{
  p = {};
  p.max_packet_size = 65527;
  p.ack_delay_exponent = 3;
  p.max_ack_delay = 25;
  if (n < 2 || (size_t)(d[0] << 8 | d[1]) != n - 2)
    return false;
  d += 2;
  n -= 2;
  while (n) {
    if (n < 4)
      return false;
    unsigned id = (unsigned) (d[0] << 8 | d[1]);
    size_t len = (size_t)(d[2] << 8 | d[3]);
    d += 4;
    n -= 4;
    if (len > n)
      return false;
    uint64_t v = 0;
    if (len) {
      size_t k = (size_t) 1 << (d[0] >> 6);
      if (k != len && id != 13)
        return false;
      v = d[0] & 0x3f;
      for (size_t i = 1; i < k && i < len; i++)
        v = v << 8 | d[i];
    }
    switch (id) {
      case 1: p.idle_timeout = v; break;
      case 3: p.max_packet_size = v; break;
      case 4: p.initial_max_data = v; break;
      case 5: p.initial_max_stream_data_bidi_local = v; break;
      case 6: p.initial_max_stream_data_bidi_remote = v; break;
      case 7: p.initial_max_stream_data_uni = v; break;
      case 8: p.initial_max_streams_bidi = v; break;
      case 9: p.initial_max_streams_uni = v; break;
      case 10: p.ack_delay_exponent = v; break;
      case 11: p.max_ack_delay = v; break;
      case 12: p.disable_migration = 1; break;
    }
    d += len;
    n -= len;
  }
  return true;
}

inline bool
operator==(const ngtcp2_transport_params &a, const ngtcp2_transport_params &b)
{
  return encode(a) == encode(b);
}

}

ssize_t
ngtcp2_encode_transport_params(uint8_t *dest, size_t size, ngtcp2_transport_params_type type, const ngtcp2_transport_params *p)
{
  if (type != NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO)
    fake::complain("local transport parameters encoded as another type");
  fake::bytes b = fake::encode(*p);
  if (b.size() > size)
    return NGTCP2_ERR_NOBUF;
  std::copy(b.begin(), b.end(), dest);
  return (ssize_t) b.size();
}

int
ngtcp2_decode_transport_params(ngtcp2_transport_params *p, ngtcp2_transport_params_type type, const uint8_t *d, size_t n)
{
  if (type != NGTCP2_TRANSPORT_PARAMS_TYPE_ENCRYPTED_EXTENSIONS)
    fake::complain("remote transport parameters decoded as another type");
  return fake::decode(d, n, *p) ? 0 : NGTCP2_ERR_MALFORMED_TRANSPORT_PARAM;
}

int
ngtcp2_conn_set_remote_transport_params(ngtcp2_conn *c, const ngtcp2_transport_params *p)
{
  c->remote_tp = *p;
  c->remote_tp_set = true;
  return 0;
}

#define FAKE_INSTALL(name)                                                                                                                                                 \
  int ngtcp2_conn_##name(ngtcp2_conn *c, const uint8_t *k, size_t kn, const uint8_t *v, size_t vn, const uint8_t *h, size_t hn)                                    \
  {                                                                                                                                                                        \
    if (c->fail_install && --c->fail_install == 0)                                                                                                                         \
      return NGTCP2_ERR_INVALID_ARGUMENT;                                                                                                                                  \
    c->keys.push_back({ #name, fake::bytes(k, k + kn), fake::bytes(v, v + vn), fake::bytes(h, h + hn) });                                                                  \
    return 0;                                                                                                                                                              \
  }
FAKE_INSTALL(install_initial_tx_keys)
FAKE_INSTALL(install_initial_rx_keys)
FAKE_INSTALL(install_early_keys)
FAKE_INSTALL(install_handshake_tx_keys)
FAKE_INSTALL(install_handshake_rx_keys)
FAKE_INSTALL(install_tx_keys)
FAKE_INSTALL(install_rx_keys)

int
ngtcp2_conn_update_tx_key(ngtcp2_conn *c, const uint8_t *k, size_t kn, const uint8_t *v, size_t vn)
{
  c->keys.push_back({ "update_tx", fake::bytes(k, k + kn), fake::bytes(v, v + vn), {} });
  return 0;
}

int
ngtcp2_conn_update_rx_key(ngtcp2_conn *c, const uint8_t *k, size_t kn, const uint8_t *v, size_t vn)
{
  c->keys.push_back({ "update_rx", fake::bytes(k, k + kn), fake::bytes(v, v + vn), {} });
  return 0;
}

int
ngtcp2_conn_submit_crypto_data(ngtcp2_conn *c, ngtcp2_crypto_level level, const uint8_t *d, size_t n)
{
  if (c->fails("submit_crypto_data"))
    return c->fail_code;
  auto &o = c->crypto[level];
  if (n)
    o.pieces.push_back({ d, fake::bytes(d, d + n), o.written });
  o.all.insert(o.all.end(), d, d + n);
  o.written += n;
  return 0;
}

ssize_t
ngtcp2_conn_write_pkt(ngtcp2_conn *c, ngtcp2_path *path, uint8_t *dest, size_t size, ngtcp2_tstamp ts)
{
  c->calls.push_back({ "write_pkt", ts });
  c->path(path);
  if (c->fails("write_pkt"))
    return c->fail_code;
  if (!c->started) {
    c->started = true;
    if (c->cb.client_initial(c, c->user))
      return NGTCP2_ERR_CALLBACK_FAILURE;
  }
  fake::bytes pkt;
  bool eliciting = false;
  if (c->wire && c->ack_pending) {
    c->ack_pending = false;
    for (auto &r : c->received) {
      fake::frame f;
      f.kind = 'A';
      f.id = r.first;
      f.offset = r.second;
      fake::put(pkt, f);
    }
    for (auto &r : c->received_fin) {
      fake::frame f;
      f.kind = 'Z';
      f.id = r.first;
      fake::put(pkt, f);
    }
    for (int level = 0; level < 4; level++)
      if (c->crypto_received[level]) {
        fake::frame f;
        f.kind = 'K';
        f.level = (uint8_t) level;
        f.offset = c->crypto_received[level];
        fake::put(pkt, f);
      }
  }
  // Handshake data, then data that counts as lost.
  for (int level = 0; level < 4; level++) {
    auto &o = c->crypto[level];
    for (auto &p : o.pieces) {
      if (p.offset + p.copy.size() <= o.sent || pkt.size() + fake::FRAME_HEADER >= size)
        continue;
      size_t skip = (size_t)(o.sent > p.offset ? o.sent - p.offset : 0);
      size_t n = std::min(p.copy.size() - skip, size - pkt.size() - fake::FRAME_HEADER);
      if (n > 1 && c->pol.roll(c->pol.partial))
        n = 1 + c->pol.rng() % n;
      fake::bytes b = c->read(p, "handshake data");
      fake::frame f;
      f.kind = 'C';
      f.level = (uint8_t) level;
      f.offset = p.offset + skip;
      f.data.assign(b.begin() + (ptrdiff_t) skip, b.begin() + (ptrdiff_t)(skip + n));
      fake::put(pkt, f);
      eliciting = true;
      o.sent += n;
      if (n + skip < p.copy.size())
        break;
    }
  }
  if (c->pol.roll(c->pol.retransmit)) {
    std::vector<std::pair<uint64_t, fake::piece *>> lost;
    for (auto &o : c->out)
      for (auto &p : o.second.pieces)
        lost.push_back({ o.first, &p });
    if (!lost.empty()) {
      auto &l = lost[c->pol.rng() % lost.size()];
      if (pkt.size() + fake::FRAME_HEADER + l.second->copy.size() <= size) {
        fake::frame f;
        f.kind = 'S';
        f.id = l.first;
        f.offset = l.second->offset;
        f.data = c->read(*l.second, "data of a stream");
        fake::outgoing &o = c->out[l.first];
        f.flags = o.fin && f.offset + f.data.size() == o.written;
        fake::put(pkt, f);
        c->retransmitted++;
      }
    }
  }
  if (c->wire)
    for (auto &o : c->out) {
      if (o.second.shut)
        continue;
      for (auto &p : o.second.pieces)
        if (p.lost && pkt.size() + fake::FRAME_HEADER + p.copy.size() <= size) {
          p.lost = false;
          fake::frame f;
          f.kind = 'S';
          f.id = o.first;
          f.offset = p.offset;
          f.data = c->read(p, "data of a stream");
          fake::put(pkt, f);
          c->retransmitted++;
          fake::counters()["retransmitted"]++;
          eliciting = true;
        }
      if (o.second.fin_lost && pkt.size() + fake::FRAME_HEADER <= size) {
        o.second.fin_lost = false;
        fake::frame f;
        f.kind = 'S';
        f.id = o.first;
        f.offset = o.second.written;
        f.flags = 1;
        fake::put(pkt, f);
        eliciting = true;
      }
    }
  std::copy(pkt.begin(), pkt.end(), dest);
  c->last = pkt;
  c->wire_timer(ts, eliciting);
  return (ssize_t) pkt.size();
}

ssize_t
ngtcp2_conn_write_stream(ngtcp2_conn *c, ngtcp2_path *path, uint8_t *dest, size_t size, ssize_t *pdatalen, uint32_t flags, int64_t sid, uint8_t fin, const uint8_t *d, size_t n, ngtcp2_tstamp ts)
{
  uint64_t id = (uint64_t) sid;
  c->calls.push_back({ "write_stream", ts });
  c->path(path);
  if (pdatalen)
    *pdatalen = -1;
  if (flags != NGTCP2_WRITE_STREAM_FLAG_NONE)
    fake::complain("write_stream was called with flags");
  if (!c->completed)
    fake::complain("stream data was offered before the handshake completed");
  auto it = c->out.find(id);
  if (it == c->out.end() || !it->second.opened) {
    fake::complain("stream data was offered on a stream that was not opened");
    return NGTCP2_ERR_STREAM_NOT_FOUND;
  }
  fake::outgoing &o = it->second;
  if (o.shut)
    return NGTCP2_ERR_STREAM_NOT_FOUND;
  if (o.fin) {
    fake::complain("stream data was offered after the end of the stream");
    return NGTCP2_ERR_STREAM_SHUT_WR;
  }
  if (c->fails("write_stream"))
    return c->fail_code;
  if ((!c->wire || c->in_flight()) && c->pol.roll(c->pol.congested))
    return 0;
  if (n && (o.credit == 0 || c->pol.roll(c->pol.datablocked)))
    return NGTCP2_ERR_STREAM_DATA_BLOCKED;
  fake::bytes pkt;
  if (c->pol.roll(c->pol.nodata)) {
    // The packet is full of something else.
    fake::frame f;
    f.kind = 'P';
    fake::put(pkt, f);
    std::copy(pkt.begin(), pkt.end(), dest);
    c->last = pkt;
    return (ssize_t) pkt.size();
  }
  size_t k = std::min(n, size - fake::FRAME_HEADER);
  if (k > o.credit)
    k = (size_t) o.credit;
  if (k > 1 && c->pol.roll(c->pol.partial))
    k = 1 + c->pol.rng() % k;
  fake::frame f;
  f.kind = 'S';
  f.id = id;
  f.offset = o.written;
  f.flags = fin && k == n;
  f.data.assign(d, d + k);
  fake::put(pkt, f);
  std::copy(pkt.begin(), pkt.end(), dest);
  if (k)
    o.pieces.push_back({ d, f.data, o.written });
  o.all.insert(o.all.end(), d, d + k);
  o.written += k;
  if (o.credit != UINT64_MAX)
    o.credit -= k;
  if (f.flags) {
    o.fin = true;
    o.fin_offset = f.offset;
    o.fin_count++;
  }
  if (pdatalen)
    *pdatalen = (ssize_t) k;
  c->last = pkt;
  c->wire_timer(ts, true);
  return (ssize_t) pkt.size();
}

int
ngtcp2_conn_read_pkt(ngtcp2_conn *c, const ngtcp2_path *path, const uint8_t *d, size_t n, ngtcp2_tstamp ts)
{
  c->calls.push_back({ "read_pkt", ts });
  c->path(path);
  if (c->fails("read_pkt"))
    return c->fail_code;
  std::vector<fake::frame> fs;
  bool parsed = fake::parse(d, n, fs);
  if (c->wire) {
    for (auto &f : fs)
      parsed = parsed && strchr("PCSAZKRXOU", f.kind) && f.kind;
    if (!parsed) {
      fake::counters()["packets-ignored"]++;
      return 0;
    }
    c->ack_pending = c->ack_pending || std::any_of(fs.begin(), fs.end(), [](const fake::frame &f) { return strchr("CSROX", f.kind); });
  }
  if (!parsed)
    return NGTCP2_ERR_PROTO;
  for (auto &f : fs) {
    int rv = 0;
    // What is handed to the user is only good during the call.
    uint8_t *p = f.data.empty() ? nullptr : new uint8_t[f.data.size()];
    std::copy(f.data.begin(), f.data.end(), p);
    switch (f.kind) {
      case 'P':
        break;
      case 'C':
        // Only in order, once.
        if (f.offset == c->crypto_received[f.level & 3]) {
          c->crypto_received[f.level & 3] += f.data.size();
          rv = c->cb.recv_crypto_data(c, (ngtcp2_crypto_level) f.level, f.offset, p, f.data.size(), c->user);
          c->crypto_results.push_back(rv);
          if (rv != 0 && rv != NGTCP2_ERR_CRYPTO)
            rv = NGTCP2_ERR_CALLBACK_FAILURE;
        }
        break;
      case 'S':
        if (c->wire && !c->completed)
          break; // Not decryptable yet; the peer will send it again.
        if (c->wire && !c->window(f.id, f.offset + f.data.size(), f.data.size())) {
          fake::counters()["windows-closed"]++;
          break; // A peer that keeps to the limits would not have sent it yet.
        }
        if (f.offset == c->received[f.id] && !(c->wire && (c->received_fin.count(f.id) || (f.data.empty() && !(f.flags & 1))))) {
          c->received[f.id] += f.data.size();
          c->received_all += f.data.size();
          if (f.flags & 1)
            c->received_fin[f.id] = true;
          rv = c->cb.recv_stream_data(c, (int64_t) f.id, f.flags & 1, f.offset, p, f.data.size(), c->user, nullptr);
        }
        break;
      case 'A':
        if (c->wire) {
          if (c->out.count(f.id) && f.offset > c->out[f.id].acked) {
            c->backoff = 0;
            rv = c->ack(f.id, f.offset - c->out[f.id].acked);
          }
        } else
          rv = c->ack(f.id, f.offset);
        break;
      case 'Z':
        if (c->wire) {
          if (!c->out.count(f.id) || c->out[f.id].fin_acked)
            break;
          c->out[f.id].fin_acked = true;
        }
        rv = c->ack_fin(f.id);
        break;
      case 'K':
        if (c->wire) {
          if (f.offset > c->crypto[f.level & 3].acked) {
            c->backoff = 0;
            rv = c->ack_crypto(f.level & 3, f.offset - c->crypto[f.level & 3].acked);
          }
        } else
          rv = c->ack_crypto(f.level & 3, f.offset);
        break;
      case 'R':
        rv = c->cb.stream_reset(c, (int64_t) f.id, 0, f.offset, c->user, nullptr);
        break;
      case 'X':
        rv = c->cb.stream_close(c, (int64_t) f.id, f.offset, c->user, nullptr);
        break;
      case 'O':
        rv = c->cb.stream_open(c, (int64_t) f.id, c->user);
        break;
      case 'U':
        rv = c->cb.update_key(c, c->user);
        break;
      default:
        rv = NGTCP2_ERR_PROTO;
    }
    delete[] p;
    if (rv)
      return rv;
  }
  c->wire_timer(ts, false);
  return 0;
}

ngtcp2_duration
ngtcp2_conn_get_idle_timeout(ngtcp2_conn *c)
{
  return c->idle_timeout;
}

ngtcp2_tstamp
ngtcp2_conn_get_expiry(ngtcp2_conn *c)
{
  return c->expiry;
}

ngtcp2_tstamp
ngtcp2_conn_loss_detection_expiry(ngtcp2_conn *c)
{
  return c->loss_expiry;
}

ngtcp2_tstamp
ngtcp2_conn_ack_delay_expiry(ngtcp2_conn *c)
{
  return c->ack_expiry;
}

int
ngtcp2_conn_on_loss_detection_timer(ngtcp2_conn *c, ngtcp2_tstamp ts)
{
  c->calls.push_back({ "on_loss_detection_timer", ts });
  if (ts < c->loss_expiry)
    fake::complain("the loss detection timer fired early");
  if (c->wire) {
    fake::counters()["timeouts"]++;
    for (auto &o : c->out) {
      for (auto &p : o.second.pieces)
        p.lost = true;
      o.second.fin_lost = o.second.fin && !o.second.fin_acked;
    }
    for (auto &cr : c->crypto)
      cr.sent = cr.acked;
    c->backoff++;
    c->wire_timer(ts, true);
  }
  return c->fail_timer ? NGTCP2_ERR_INVALID_ARGUMENT : 0;
}

void
ngtcp2_conn_cancel_expired_ack_delay_timer(ngtcp2_conn *c, ngtcp2_tstamp ts)
{
  c->calls.push_back({ "cancel_expired_ack_delay_timer", ts });
  if (ts < c->ack_expiry)
    fake::complain("the ack delay timer fired early");
}

inline int
fake_open(ngtcp2_conn *c, int64_t *id, uint64_t &next, uint64_t limit)
{
  if (next / 4 >= limit || c->pol.roll(c->pol.idblocked))
    return NGTCP2_ERR_STREAM_ID_BLOCKED;
  if (!c->completed)
    fake::complain("a stream was opened before the handshake completed");
  c->out[next].opened = true;
  *id = (int64_t) next;
  next += 4;
  return 0;
}

int
ngtcp2_conn_extend_max_stream_offset(ngtcp2_conn *c, int64_t id, size_t n)
{
  if (c->extended[(uint64_t) id] += n, c->extended[(uint64_t) id] > c->received[(uint64_t) id])
    fake::complain("the window of stream " + std::to_string(id) + " was extended by more than what arrived");
  return 0;
}

void
ngtcp2_conn_extend_max_offset(ngtcp2_conn *c, size_t n)
{
  if (c->extended_all += n, c->extended_all > c->received_all)
    fake::complain("the window of the connection was extended by more than what arrived");
}

int
ngtcp2_conn_open_bidi_stream(ngtcp2_conn *c, int64_t *id, void *)
{
  if (c->fails("open_stream"))
    return c->fail_code;
  return fake_open(c, id, c->next_bidi, c->pol.bidi);
}

int
ngtcp2_conn_open_uni_stream(ngtcp2_conn *c, int64_t *id, void *)
{
  if (c->fails("open_stream"))
    return c->fail_code;
  return fake_open(c, id, c->next_uni, c->pol.uni);
}
