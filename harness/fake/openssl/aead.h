// BoringSSL's EVP_AEAD functions on top of OpenSSL's EVP_CIPHER, with
// BoringSSL's documented behaviour at the edges: seal fails when max_out_len is
// smaller than the plaintext and the overhead, open fails when it is smaller
// than the plaintext, both fail for nonces of another size, and the context
// can't be created for keys of another size.
#pragma once
#include <openssl/evp.h>
#include "fault.h"
#include <stddef.h>
#include <stdint.h>
#include <string.h>

struct fake_evp_aead {
  const EVP_CIPHER *(*cipher)();
  size_t key_len;
};
typedef struct fake_evp_aead EVP_AEAD;

struct fake_evp_aead_ctx {
  const EVP_AEAD *aead;
  uint8_t key[32];
};
typedef struct fake_evp_aead_ctx EVP_AEAD_CTX;

#define EVP_AEAD_DEFAULT_TAG_LENGTH 0

static inline const EVP_AEAD *
EVP_aead_aes_128_gcm()
{
  static const EVP_AEAD a = { EVP_aes_128_gcm, 16 };
  return &a;
}
static inline const EVP_AEAD *
EVP_aead_aes_256_gcm()
{
  static const EVP_AEAD a = { EVP_aes_256_gcm, 32 };
  return &a;
}
static inline const EVP_AEAD *
EVP_aead_chacha20_poly1305()
{
  static const EVP_AEAD a = { EVP_chacha20_poly1305, 32 };
  return &a;
}
static inline size_t
EVP_AEAD_max_overhead(const EVP_AEAD *)
{
  return 16;
}
static inline size_t
EVP_AEAD_key_length(const EVP_AEAD *a)
{
  return a->key_len;
}
static inline size_t
EVP_AEAD_nonce_length(const EVP_AEAD *)
{
  return 12;
}
static inline EVP_AEAD_CTX *
EVP_AEAD_CTX_new(const EVP_AEAD *aead, const uint8_t *key, size_t key_len, size_t)
{
  if (key_len != aead->key_len || fake_crypto_fails())
    return nullptr;
  EVP_AEAD_CTX *c = new EVP_AEAD_CTX;
  c->aead = aead;
  memcpy(c->key, key, key_len);
  return c;
}
static inline void
EVP_AEAD_CTX_free(EVP_AEAD_CTX *c)
{
  delete c;
}
static inline int
EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *c, uint8_t *out, size_t *out_len, size_t max_out_len, const uint8_t *nonce, size_t nonce_len, const uint8_t *in, size_t in_len, const uint8_t *ad, size_t ad_len)
{
  *out_len = 0;
  if (max_out_len < in_len + 16 || nonce_len != 12 || fake_crypto_fails())
    return 0;
  EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
  int n = 0, ok = EVP_EncryptInit_ex(x, c->aead->cipher(), nullptr, c->key, nonce);
  if (ok && ad_len)
    ok = EVP_EncryptUpdate(x, nullptr, &n, ad, (int) ad_len);
  int m = 0;
  if (ok && in_len)
    ok = EVP_EncryptUpdate(x, out, &m, in, (int) in_len);
  if (ok)
    ok = EVP_EncryptFinal_ex(x, out + m, &n);
  if (ok)
    ok = EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, out + in_len);
  EVP_CIPHER_CTX_free(x);
  if (ok)
    *out_len = in_len + 16;
  return ok == 1;
}
static inline int
EVP_AEAD_CTX_open(const EVP_AEAD_CTX *c, uint8_t *out, size_t *out_len, size_t max_out_len, const uint8_t *nonce, size_t nonce_len, const uint8_t *in, size_t in_len, const uint8_t *ad, size_t ad_len)
{
  *out_len = 0;
  if (in_len < 16 || max_out_len < in_len - 16 || nonce_len != 12 || fake_crypto_fails())
    return 0;
  uint8_t tag[16];
  memcpy(tag, in + in_len - 16, 16);
  size_t len = in_len - 16;
  EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
  int n = 0, m = 0, ok = EVP_DecryptInit_ex(x, c->aead->cipher(), nullptr, c->key, nonce);
  if (ok && ad_len)
    ok = EVP_DecryptUpdate(x, nullptr, &n, ad, (int) ad_len);
  if (ok && len)
    ok = EVP_DecryptUpdate(x, out, &m, in, (int) len);
  if (ok)
    ok = EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, 16, tag);
  if (ok)
    ok = EVP_DecryptFinal_ex(x, out + m, &n) > 0;
  EVP_CIPHER_CTX_free(x);
  if (!ok)
    memset(out, 0, max_out_len < len ? max_out_len : len);
  else
    *out_len = len;
  return ok == 1;
}
