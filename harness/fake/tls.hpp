// A scripted TLS behind BoringSSL's QUIC interface: the flights and secrets of
// a TLS 1.3 client handshake come from a script, and what bnl gives to TLS is
// recorded. It is a monitor as well: it reports when its rules are broken.
#pragma once
#include "engine.hpp"
#include <openssl/ssl.h>

namespace fake {

// What the other side of the script needs to know and can choose.
struct script {
  uint32_t cipher = 0x03001301;
  bool early = false;                // resumption: 0-RTT secrets
  std::vector<bytes> hello;          // client hello, in the pieces TLS adds
  std::vector<bytes> finished;       // client's second flight, in pieces
  bytes server_hello, server_flight; // what completes the levels
  bytes early_secret, hs_read, hs_write, app_read, app_write;
  bytes peer_tp;
  std::string fail; // "", "hello", "flight", "provide", "post"
};

inline script &
next_script()
{
  static thread_local script s;
  return s;
}

}

struct ssl_ctx_st {
  int refs;
};
struct ssl_cipher_st {
  uint32_t id;
};
struct ssl_st {
  void *ex = nullptr;
  ssl_ctx_st *ctx = nullptr;
  fake::bytes alpn, tp;
  std::string host;
  uint16_t min = 0, max = 0;
  bool client = false;
  const SSL_QUIC_METHOD *method = nullptr;
  fake::script s;
  int state = 0; // 0 start, 1 hello sent, 2 server hello seen, 3 done
  fake::bytes in[4];
  bool cipher_known = false;
  ssl_cipher_st cipher;
  int error = SSL_ERROR_NONE;
  bool failed = false;
  unsigned post = 0, alive = 1;
};

namespace fake {
inline SSL *&
last_ssl()
{
  static thread_local SSL *s = nullptr;
  return s;
}
}

const SSL_METHOD *
TLS_method()
{
  return nullptr;
}
SSL_CTX *
SSL_CTX_new(const SSL_METHOD *)
{
  return new ssl_ctx_st{ 1 };
}
void
SSL_CTX_free(SSL_CTX *c)
{
  if (--c->refs == 0)
    delete c;
}
int
SSL_CTX_set_default_verify_paths(SSL_CTX *)
{
  return 1;
}
SSL *
SSL_new(SSL_CTX *c)
{
  c->refs++;
  SSL *s = new ssl_st;
  s->ctx = c;
  s->s = fake::next_script();
  s->cipher.id = s->s.cipher;
  fake::last_ssl() = s;
  return s;
}
void
SSL_free(SSL *s)
{
  if (!s)
    return;
  SSL_CTX_free(s->ctx);
  if (fake::last_ssl() == s)
    fake::last_ssl() = nullptr;
  delete s;
}
int
SSL_set_ex_data(SSL *s, int i, void *p)
{
  if (i == 0)
    s->ex = p;
  return 1;
}
void *
SSL_get_ex_data(const SSL *s, int)
{
  return s->ex;
}
uint32_t
SSL_CIPHER_get_id(const SSL_CIPHER *c)
{
  return c->id;
}
const char *
SSL_CIPHER_standard_name(const SSL_CIPHER *)
{
  return "SOME_CIPHER {}";
}
const SSL_CIPHER *
SSL_get_current_cipher(const SSL *s)
{
  return s->cipher_known ? &s->cipher : nullptr;
}
int
SSL_set_alpn_protos(SSL *s, const uint8_t *p, unsigned n)
{
  s->alpn.assign(p, p + n);
  return 0; // BoringSSL: 0 is success.
}
void
SSL_set_connect_state(SSL *s)
{
  s->client = true;
}
int
SSL_set_min_proto_version(SSL *s, uint16_t v)
{
  s->min = v;
  return 1;
}
int
SSL_set_max_proto_version(SSL *s, uint16_t v)
{
  s->max = v;
  return 1;
}
int
SSL_set_tlsext_host_name(SSL *s, const char *n)
{
  s->host = n;
  return 1;
}
int
SSL_set_quic_transport_params(SSL *s, const uint8_t *p, size_t n)
{
  s->tp.assign(p, p + n);
  return 1;
}
void
SSL_get_peer_quic_transport_params(const SSL *s, const uint8_t **p, size_t *n)
{
  *p = s->s.peer_tp.data();
  *n = s->s.peer_tp.size();
}
int
SSL_set_quic_method(SSL *s, const SSL_QUIC_METHOD *m)
{
  s->method = m;
  return 1;
}

namespace fake {

// Buffers given to the callbacks are only good during the call.
inline int
add(SSL *s, ssl_encryption_level_t l, const bytes &b)
{
  uint8_t *p = new uint8_t[b.size() ? b.size() : 1];
  std::copy(b.begin(), b.end(), p);
  int rv = s->method->add_handshake_data(s, l, p, b.size());
  delete[] p;
  return rv;
}

inline int
secrets(SSL *s, ssl_encryption_level_t l, const bytes &r, const bytes &w)
{
  size_t n = w.size();
  uint8_t *pr = l == ssl_encryption_early_data ? nullptr : new uint8_t[n], *pw = new uint8_t[n];
  if (pr)
    std::copy(r.begin(), r.end(), pr);
  std::copy(w.begin(), w.end(), pw);
  int rv = s->method->set_encryption_secrets(s, l, pr, pw, n);
  delete[] pr;
  delete[] pw;
  return rv;
}

}

int
SSL_do_handshake(SSL *s)
{
  auto fail = [&] {
    s->error = SSL_ERROR_SSL;
    s->failed = true;
    return -1;
  };
  auto want = [&] {
    s->error = SSL_ERROR_WANT_READ;
    return -1;
  };
  if (s->failed)
    return fail();
  if (!s->client || !s->method || s->min != TLS1_3_VERSION || s->max != TLS1_3_VERSION)
    fake::complain("the handshake was started before TLS was set up");
  if (s->state == 0) {
    for (auto &b : s->s.hello)
      if (!fake::add(s, ssl_encryption_initial, b))
        return fail();
    s->state = 1;
    if (s->s.early) {
      s->cipher_known = true;
      if (!fake::secrets(s, ssl_encryption_early_data, {}, s->s.early_secret))
        return fail();
    }
    return want();
  }
  if (s->state == 1) {
    if (s->in[ssl_encryption_initial].size() < s->s.server_hello.size())
      return want();
    if (s->in[ssl_encryption_initial] != s->s.server_hello) {
      fake::complain("TLS was given other data than the peer sent (initial)");
      return fail();
    }
    if (s->s.fail == "hello")
      return fail();
    s->cipher_known = true;
    if (!fake::secrets(s, ssl_encryption_handshake, s->s.hs_read, s->s.hs_write))
      return fail();
    s->state = 2;
  }
  if (s->state == 2) {
    if (s->in[ssl_encryption_handshake].size() < s->s.server_flight.size())
      return want();
    if (s->in[ssl_encryption_handshake] != s->s.server_flight) {
      fake::complain("TLS was given other data than the peer sent (handshake)");
      return fail();
    }
    if (s->s.fail == "flight")
      return fail();
    for (auto &b : s->s.finished)
      if (!fake::add(s, ssl_encryption_handshake, b))
        return fail();
    if (!fake::secrets(s, ssl_encryption_application, s->s.app_read, s->s.app_write))
      return fail();
    s->state = 3;
  }
  return 1;
}

int
SSL_provide_quic_data(SSL *s, ssl_encryption_level_t l, const uint8_t *p, size_t n)
{
  if (s->s.fail == "provide") {
    s->failed = true;
    return 0;
  }
  s->in[l].insert(s->in[l].end(), p, p + n);
  return 1;
}

int
SSL_process_quic_post_handshake(SSL *s)
{
  s->post++;
  return s->s.fail == "post" ? 0 : 1;
}

int
SSL_get_error(const SSL *s, int rv)
{
  return rv > 0 ? SSL_ERROR_NONE : s->error;
}

inline int &
fake_errors()
{
  static thread_local int n = 0;
  return n;
}

uint32_t
ERR_get_error()
{
  static thread_local int n = 0;
  return n++ % 2 ? 0 : 1;
}

char *
ERR_error_string_n(uint32_t, char *b, size_t n)
{
  snprintf(b, n, "error:{}:{0}:{:x}");
  return b;
}
