// The part of ngtcp2's API (at the commit that external/CMakeLists.txt pins)
// that bnl uses. Implemented by the scripted engine in fake/engine.hpp.
#pragma once
#include <array>
#include <cstdarg>
#include <cstdio>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

#define NGTCP2_PROTO_VER 0xff000017u
#define NGTCP2_ALPN_H3 "\x5h3-23"
#define NGTCP2_INITIAL_SALT "\xc3\xee\xf7\x12\xc7\x2e\xbb\x5a\x11\xa7\xd2\x43\x2b\xb4\x63\x65\xbe\xf9\xf5\x02"
#define NGTCP2_MAX_CIDLEN 18
#define NGTCP2_MAX_PKTLEN_IPV4 1252
#define NGTCP2_MAX_PKTLEN_IPV6 1232
#define NGTCP2_STATELESS_RESET_TOKENLEN 16
#define NGTCP2_HP_MASKLEN 5
#define NGTCP2_HP_SAMPLELEN 16
#define NGTCP2_SECONDS ((uint64_t) 1000000000ULL)
#define NGTCP2_MILLISECONDS ((uint64_t) 1000000ULL)
#define NGTCP2_MICROSECONDS ((uint64_t) 1000ULL)

enum {
  NGTCP2_ERR_INVALID_ARGUMENT = -201,
  NGTCP2_ERR_NOBUF = -203,
  NGTCP2_ERR_PROTO = -205,
  NGTCP2_ERR_STREAM_ID_BLOCKED = -208,
  NGTCP2_ERR_STREAM_DATA_BLOCKED = -210,
  NGTCP2_ERR_CRYPTO = -212,
  NGTCP2_ERR_STREAM_SHUT_WR = -221,
  NGTCP2_ERR_STREAM_NOT_FOUND = -222,
  NGTCP2_ERR_MALFORMED_TRANSPORT_PARAM = -218,
  NGTCP2_ERR_TLS_DECRYPT = -225,
  NGTCP2_ERR_CALLBACK_FAILURE = -502,
};

enum ngtcp2_crypto_level : int { NGTCP2_CRYPTO_LEVEL_INITIAL, NGTCP2_CRYPTO_LEVEL_HANDSHAKE, NGTCP2_CRYPTO_LEVEL_APP, NGTCP2_CRYPTO_LEVEL_EARLY };
enum ngtcp2_rand_ctx : int { NGTCP2_RAND_CTX_NONE, NGTCP2_RAND_CTX_PATH_CHALLENGE };
enum ngtcp2_path_validation_result : int { NGTCP2_PATH_VALIDATION_RESULT_SUCCESS, NGTCP2_PATH_VALIDATION_RESULT_FAILURE };
enum ngtcp2_transport_params_type : int { NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO, NGTCP2_TRANSPORT_PARAMS_TYPE_ENCRYPTED_EXTENSIONS };
enum ngtcp2_write_stream_flag : int { NGTCP2_WRITE_STREAM_FLAG_NONE = 0, NGTCP2_WRITE_STREAM_FLAG_MORE = 1 };

typedef uint64_t ngtcp2_tstamp;
typedef uint64_t ngtcp2_duration;

struct ngtcp2_conn;
struct ngtcp2_cid {
  size_t datalen;
  uint8_t data[NGTCP2_MAX_CIDLEN];
};
struct ngtcp2_pkt_stateless_reset {
  const uint8_t *stateless_reset_token;
  const uint8_t *rand;
  size_t randlen;
};
struct ngtcp2_pkt_hd {
  uint64_t pkt_num;
};
struct ngtcp2_pkt_retry {
  ngtcp2_cid odcid;
  const uint8_t *token;
  size_t tokenlen;
};
struct ngtcp2_addr {
  size_t addrlen;
  uint8_t *addr;
  void *user_data;
};
struct ngtcp2_path {
  ngtcp2_addr local;
  ngtcp2_addr remote;
};
struct ngtcp2_path_storage {
  uint8_t local_addrbuf[128];
  uint8_t remote_addrbuf[128];
  ngtcp2_path path;
};
struct ngtcp2_preferred_addr {
  ngtcp2_cid cid;
  uint16_t ipv4_port;
  uint16_t ipv6_port;
  uint8_t ipv4_addr[4];
  uint8_t ipv6_addr[16];
  uint8_t stateless_reset_token[NGTCP2_STATELESS_RESET_TOKENLEN];
};
typedef void (*ngtcp2_printf)(void *user_data, const char *format, ...);
struct ngtcp2_settings {
  ngtcp2_preferred_addr preferred_address;
  ngtcp2_tstamp initial_ts;
  ngtcp2_printf log_printf;
  uint64_t max_stream_data_bidi_local;
  uint64_t max_stream_data_bidi_remote;
  uint64_t max_stream_data_uni;
  uint64_t max_data;
  uint64_t max_streams_bidi;
  uint64_t max_streams_uni;
  uint64_t idle_timeout; // milliseconds
  uint64_t max_packet_size;
  uint8_t stateless_reset_token[NGTCP2_STATELESS_RESET_TOKENLEN];
  uint64_t ack_delay_exponent;
  uint8_t disable_migration;
  uint64_t max_ack_delay; // milliseconds
};
struct ngtcp2_transport_params {
  uint64_t initial_max_stream_data_bidi_local;
  uint64_t initial_max_stream_data_bidi_remote;
  uint64_t initial_max_stream_data_uni;
  uint64_t initial_max_data;
  uint64_t initial_max_streams_bidi;
  uint64_t initial_max_streams_uni;
  uint64_t idle_timeout;
  uint64_t max_packet_size;
  uint64_t ack_delay_exponent;
  uint8_t disable_migration;
  uint64_t max_ack_delay;
};

typedef ssize_t (*ngtcp2_crypt)(ngtcp2_conn *, uint8_t *dest, size_t destlen, const uint8_t *text, size_t textlen, const uint8_t *key, size_t keylen, const uint8_t *nonce, size_t noncelen, const uint8_t *ad, size_t adlen, void *user_data);
typedef ssize_t (*ngtcp2_mask)(ngtcp2_conn *, uint8_t *dest, size_t destlen, const uint8_t *key, size_t keylen, const uint8_t *sample, size_t samplelen, void *user_data);

struct ngtcp2_conn_callbacks {
  int (*client_initial)(ngtcp2_conn *, void *);
  int (*recv_client_initial)(ngtcp2_conn *, const ngtcp2_cid *, void *);
  int (*recv_crypto_data)(ngtcp2_conn *, ngtcp2_crypto_level, uint64_t offset, const uint8_t *, size_t, void *);
  int (*handshake_completed)(ngtcp2_conn *, void *);
  int (*recv_version_negotiation)(ngtcp2_conn *, const ngtcp2_pkt_hd *, const uint32_t *, size_t, void *);
  ngtcp2_crypt in_encrypt;
  ngtcp2_crypt in_decrypt;
  ngtcp2_crypt encrypt;
  ngtcp2_crypt decrypt;
  ngtcp2_mask in_hp_mask;
  ngtcp2_mask hp_mask;
  int (*recv_stream_data)(ngtcp2_conn *, int64_t, int fin, uint64_t offset, const uint8_t *, size_t, void *, void *);
  int (*acked_crypto_offset)(ngtcp2_conn *, ngtcp2_crypto_level, uint64_t offset, size_t, void *);
  int (*acked_stream_data_offset)(ngtcp2_conn *, int64_t, uint64_t offset, size_t, void *, void *);
  int (*stream_open)(ngtcp2_conn *, int64_t, void *);
  int (*stream_close)(ngtcp2_conn *, int64_t, uint64_t, void *, void *);
  int (*recv_stateless_reset)(ngtcp2_conn *, const ngtcp2_pkt_stateless_reset *, void *);
  int (*recv_retry)(ngtcp2_conn *, const ngtcp2_pkt_hd *, const ngtcp2_pkt_retry *, void *);
  int (*extend_max_local_streams_bidi)(ngtcp2_conn *, uint64_t, void *);
  int (*extend_max_local_streams_uni)(ngtcp2_conn *, uint64_t, void *);
  int (*rand)(ngtcp2_conn *, uint8_t *, size_t, ngtcp2_rand_ctx, void *);
  int (*get_new_connection_id)(ngtcp2_conn *, ngtcp2_cid *, uint8_t *, size_t, void *);
  int (*remove_connection_id)(ngtcp2_conn *, const ngtcp2_cid *, void *);
  int (*update_key)(ngtcp2_conn *, void *);
  int (*path_validation)(ngtcp2_conn *, const ngtcp2_path *, ngtcp2_path_validation_result, void *);
  int (*select_preferred_addr)(ngtcp2_conn *, ngtcp2_addr *, const ngtcp2_preferred_addr *, void *);
  int (*stream_reset)(ngtcp2_conn *, int64_t, uint64_t, uint64_t, void *, void *);
  int (*extend_max_remote_streams_bidi)(ngtcp2_conn *, uint64_t, void *);
  int (*extend_max_remote_streams_uni)(ngtcp2_conn *, uint64_t, void *);
  int (*extend_max_stream_data)(ngtcp2_conn *, int64_t, uint64_t, void *, void *);
};

const char *ngtcp2_strerror(int);
void ngtcp2_path_storage_init(ngtcp2_path_storage *, const uint8_t *local, size_t locallen, void *, const uint8_t *remote, size_t remotelen, void *);
void ngtcp2_settings_default(ngtcp2_settings *);
int ngtcp2_conn_client_new(ngtcp2_conn **, const ngtcp2_cid *dcid, const ngtcp2_cid *scid, const ngtcp2_path *, uint32_t version, const ngtcp2_conn_callbacks *, const ngtcp2_settings *, const void *mem, void *user_data);
void ngtcp2_conn_del(ngtcp2_conn *);
const ngtcp2_cid *ngtcp2_conn_get_dcid(ngtcp2_conn *);
void ngtcp2_conn_set_aead_overhead(ngtcp2_conn *, size_t);
int ngtcp2_conn_get_handshake_completed(ngtcp2_conn *);
void ngtcp2_conn_handshake_completed(ngtcp2_conn *);
void ngtcp2_conn_get_local_transport_params(ngtcp2_conn *, ngtcp2_transport_params *);
int ngtcp2_conn_set_remote_transport_params(ngtcp2_conn *, const ngtcp2_transport_params *);
ssize_t ngtcp2_encode_transport_params(uint8_t *, size_t, ngtcp2_transport_params_type, const ngtcp2_transport_params *);
int ngtcp2_decode_transport_params(ngtcp2_transport_params *, ngtcp2_transport_params_type, const uint8_t *, size_t);
#define FAKE_KEYS(name) int ngtcp2_conn_##name(ngtcp2_conn *, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen, const uint8_t *hp, size_t hplen)
FAKE_KEYS(install_initial_tx_keys);
FAKE_KEYS(install_initial_rx_keys);
FAKE_KEYS(install_early_keys);
FAKE_KEYS(install_handshake_tx_keys);
FAKE_KEYS(install_handshake_rx_keys);
FAKE_KEYS(install_tx_keys);
FAKE_KEYS(install_rx_keys);
int ngtcp2_conn_update_tx_key(ngtcp2_conn *, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen);
int ngtcp2_conn_update_rx_key(ngtcp2_conn *, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen);
int ngtcp2_conn_submit_crypto_data(ngtcp2_conn *, ngtcp2_crypto_level, const uint8_t *, size_t);
ssize_t ngtcp2_conn_write_pkt(ngtcp2_conn *, ngtcp2_path *, uint8_t *, size_t, ngtcp2_tstamp);
ssize_t ngtcp2_conn_write_stream(ngtcp2_conn *, ngtcp2_path *, uint8_t *, size_t, ssize_t *pdatalen, uint32_t flags, int64_t id, uint8_t fin, const uint8_t *, size_t, ngtcp2_tstamp);
int ngtcp2_conn_read_pkt(ngtcp2_conn *, const ngtcp2_path *, const uint8_t *, size_t, ngtcp2_tstamp);
ngtcp2_duration ngtcp2_conn_get_idle_timeout(ngtcp2_conn *);
ngtcp2_tstamp ngtcp2_conn_get_expiry(ngtcp2_conn *);
ngtcp2_tstamp ngtcp2_conn_loss_detection_expiry(ngtcp2_conn *);
ngtcp2_tstamp ngtcp2_conn_ack_delay_expiry(ngtcp2_conn *);
int ngtcp2_conn_on_loss_detection_timer(ngtcp2_conn *, ngtcp2_tstamp);
void ngtcp2_conn_cancel_expired_ack_delay_timer(ngtcp2_conn *, ngtcp2_tstamp);
int ngtcp2_conn_extend_max_stream_offset(ngtcp2_conn *, int64_t, size_t);
void ngtcp2_conn_extend_max_offset(ngtcp2_conn *, size_t);
int ngtcp2_conn_open_bidi_stream(ngtcp2_conn *, int64_t *, void *);
int ngtcp2_conn_open_uni_stream(ngtcp2_conn *, int64_t *, void *);
