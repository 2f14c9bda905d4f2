// A client connection of bnl's QUIC layer on top of the scripted engine and the
// scripted TLS, with the peer's side of the handshake.
#pragma once
#include "bnlx.hpp"
#include "quicref.hpp"
#include "fake/tls.hpp"
#include <openssl/aead.h>
#include <openssl/hkdf.h>
#include <bnl/quic/client/connection.hpp>

using qerr = quic::error;

static inline const char *qname(qerr e)
{
  switch (e) {
    case qerr::no_error: return "no_error";
    case qerr::internal: return "internal";
    case qerr::incomplete: return "incomplete";
    case qerr::idle: return "idle";
    case qerr::delegate: return "delegate";
    case qerr::finished: return "finished";
    case qerr::not_implemented: return "not_implemented";
    case qerr::handshake: return "handshake";
    case qerr::crypto: return "crypto";
    case qerr::ngtcp2: return "ngtcp2";
    case qerr::path_validation: return "path_validation";
    case qerr::stream_not_found: return "stream_not_found";
    case qerr::stream_id_blocked: return "stream_id_blocked";
    case qerr::stream_data_blocked: return "stream_data_blocked";
  }
  return "unknown";
}

static inline bytes any_raw(Rng &g, size_t n)
{
  bytes b;
  for (size_t i = 0; i < n; i++) b += (char) g.next();
  return b;
}
static inline fake::bytes vec(const bytes &b) { return fake::bytes(b.begin(), b.end()); }
static inline bytes str(const fake::bytes &b) { return bytes(b.begin(), b.end()); }
static inline std::vector<fake::bytes> vecs(const bytes &b, Rng &g)
{
  std::vector<fake::bytes> r;
  for (auto &p : split(b, g, 5)) r.push_back(vec(p));
  return r;
}

// What a TLS handshake of this suite hands out.
static inline fake::script any_script(Rng &g)
{
  fake::script s;
  int suite = (int) g.below(3);
  s.cipher = suite == 0 ? 0x03001301 : suite == 1 ? 0x03001302 : 0x03001303;
  size_t hash = suite == 1 ? 48 : 32;
  s.early = g.chance(1, 4);
  // Some client hellos are larger than any single packet, or many of them.
  bool huge = g.chance(1, 25);
  s.hello = huge && g.chance(1, 2) ? std::vector<fake::bytes>{ vec(any_raw(g, 4000 + g.below(g.chance(1, 8) ? 300000 : 30000))) } : vecs(any_raw(g, 1 + g.below(huge ? 40000 : g.chance(1, 8) ? 4000 : 600)), g);
  s.finished = vecs(any_raw(g, 1 + g.below(200)), g);
  s.server_hello = vec(any_raw(g, 1 + g.below(300)));
  s.server_flight = vec(any_raw(g, 1 + g.below(huge ? 40000 : 3000)));
  for (auto *p : { &s.early_secret, &s.hs_read, &s.hs_write, &s.app_read, &s.app_write }) *p = vec(any_raw(g, hash));
  ngtcp2_transport_params tp = {};
  tp.max_packet_size = 65527;
  tp.ack_delay_exponent = 3;
  tp.max_ack_delay = 25;
  if (g.chance(1, 2)) tp.initial_max_data = any_varint(g);
  if (g.chance(1, 2)) tp.initial_max_streams_bidi = any_varint(g);
  if (g.chance(1, 2)) tp.idle_timeout = any_varint(g);
  s.peer_tp = fake::encode(tp);
  return s;
}

struct Quic {
  uint64_t now = 1;
  ngtcp2_conn *e = nullptr;
  SSL *ssl = nullptr;
  fake::script script;
  uint64_t sent_hello = 0, sent_flight = 0;
  std::unique_ptr<quic::client::connection> c;
  uint64_t packets = 0;

  Quic(const fake::script &s, const quic::params &params, quic::path path, const std::string &host)
    : script(s)
  {
    fake::complaints().clear();
    fake::next_script() = s;
    fake::on_new() = [this](ngtcp2_conn *n) { e = n; };
    c.reset(new quic::client::connection(ip_host(host), path, params, [this] { return quic::duration(now); }));
    fake::on_new() = nullptr;
    ssl = fake::last_ssl();
    CHECK(e && ssl, "engine", "no QUIC engine or no TLS was made");
  }
  static bnl::ip::host ip_host(const std::string &h) { return bnl::ip::host(bnl::base::string(h.data(), h.size())); }

  // The engine's complaints are violations.
  void rules() const
  {
    if (!fake::complaints().empty()) fail("rules", "%s", fake::complaints()[0].c_str());
  }

  // One packet of the connection, or false if it is idle.
  bool send(bytes &out)
  {
    e->last.clear();
    quic::result<base::buffer> r = c->send();
    rules();
    if (!r) {
      CHECK(r.error() == qerr::idle, "send-failed", "send() failed: %s", qname(r.error()));
      return false;
    }
    out = str(r.value());
    CHECK(!out.empty(), "empty-packet", "send() returned an empty packet");
    CHECK(out == str(e->last), "packet", "send() returned %s, the packet is %s", hex(out).c_str(), hex(str(e->last)).c_str());
    packets++;
    return true;
  }
  bool send()
  {
    bytes b;
    return send(b);
  }

  bool done() const { return e->completed; }

  // The next handshake frame of the peer, if there is any.
  bool peer(Rng &g, fake::frame &f)
  {
    f = {};
    f.kind = 'C';
    auto part = [&](const fake::bytes &all, uint64_t &sent) {
      size_t left = all.size() - (size_t) sent;
      size_t k = g.chance(1, 3) ? left : 1 + g.below(left);
      f.offset = sent;
      f.data.assign(all.begin() + (long) sent, all.begin() + (long) (sent + k));
      sent += k;
    };
    if (sent_hello < script.server_hello.size()) {
      if (!e->started) return false;
      f.level = NGTCP2_CRYPTO_LEVEL_INITIAL;
      part(script.server_hello, sent_hello);
      return true;
    }
    if (sent_flight < script.server_flight.size()) {
      f.level = NGTCP2_CRYPTO_LEVEL_HANDSHAKE;
      part(script.server_flight, sent_flight);
      return true;
    }
    return false;
  }

  static bytes packet(const std::vector<fake::frame> &fs)
  {
    fake::bytes b;
    for (auto &f : fs) fake::put(b, f);
    return str(b);
  }

  // Gives a packet to the connection in memory that is gone afterwards.
  quic::result<quic::client::generator> recv(const bytes &b)
  {
    std::unique_ptr<uint8_t[]> p(new uint8_t[b.size()]);
    std::copy(b.begin(), b.end(), (char *) p.get());
    return c->recv(base::buffer_view(p.get(), b.size()));
  }
};

static inline bnl::ip::endpoint v4(const bytes &b, uint16_t port)
{
  bnl::ip::address a(base::buffer_view((const uint8_t *) b.data(), b.size()));
  return bnl::ip::endpoint(a, port);
}
