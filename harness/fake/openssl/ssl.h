// The part of BoringSSL's ssl.h that bnl uses. The functions are implemented by
// the scripted TLS in fake/tls.hpp, which plays the handshake of a TLS 1.3
// client the way BoringSSL presents it to QUIC implementations.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <utility>

typedef struct ssl_st SSL;
typedef struct ssl_ctx_st SSL_CTX;
typedef struct ssl_cipher_st SSL_CIPHER;
typedef struct ssl_method_st SSL_METHOD;

enum ssl_encryption_level_t { ssl_encryption_initial = 0, ssl_encryption_early_data, ssl_encryption_handshake, ssl_encryption_application };

struct ssl_quic_method_st {
  int (*set_encryption_secrets)(SSL *ssl, enum ssl_encryption_level_t level, const uint8_t *read_secret, const uint8_t *write_secret, size_t secret_len);
  int (*add_handshake_data)(SSL *ssl, enum ssl_encryption_level_t level, const uint8_t *data, size_t len);
  int (*flush_flight)(SSL *ssl);
  int (*send_alert)(SSL *ssl, enum ssl_encryption_level_t level, uint8_t alert);
};
typedef struct ssl_quic_method_st SSL_QUIC_METHOD;

#define TLS1_3_VERSION 0x0304
#define SSL_ERROR_NONE 0
#define SSL_ERROR_SSL 1
#define SSL_ERROR_WANT_READ 2
#define SSL_ERROR_WANT_WRITE 3

const SSL_METHOD *TLS_method();
SSL_CTX *SSL_CTX_new(const SSL_METHOD *);
void SSL_CTX_free(SSL_CTX *);
int SSL_CTX_set_default_verify_paths(SSL_CTX *);
SSL *SSL_new(SSL_CTX *);
void SSL_free(SSL *);
int SSL_set_ex_data(SSL *, int, void *);
void *SSL_get_ex_data(const SSL *, int);
#define SSL_get_app_data(s) (SSL_get_ex_data(s, 0))
#define SSL_set_app_data(s, p) (SSL_set_ex_data(s, 0, (char *) (p)))
uint32_t SSL_CIPHER_get_id(const SSL_CIPHER *);
const char *SSL_CIPHER_standard_name(const SSL_CIPHER *);
const SSL_CIPHER *SSL_get_current_cipher(const SSL *);
int SSL_set_alpn_protos(SSL *, const uint8_t *, unsigned);
void SSL_set_connect_state(SSL *);
int SSL_set_min_proto_version(SSL *, uint16_t);
int SSL_set_max_proto_version(SSL *, uint16_t);
int SSL_set_tlsext_host_name(SSL *, const char *);
int SSL_set_quic_transport_params(SSL *, const uint8_t *, size_t);
void SSL_get_peer_quic_transport_params(const SSL *, const uint8_t **, size_t *);
int SSL_set_quic_method(SSL *, const SSL_QUIC_METHOD *);
int SSL_do_handshake(SSL *);
int SSL_provide_quic_data(SSL *, enum ssl_encryption_level_t, const uint8_t *, size_t);
int SSL_process_quic_post_handshake(SSL *);
int SSL_get_error(const SSL *, int);
uint32_t ERR_get_error();
char *ERR_error_string_n(uint32_t, char *, size_t);
