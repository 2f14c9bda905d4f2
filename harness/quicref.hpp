// Reference key schedule: HKDF written out with HMAC (RFC 5869, RFC 8446 7.1,
// the QUIC labels), AEADs and header protection straight from libcrypto.
#pragma once
#include "common.hpp"
#include <openssl/evp.h>
#include <openssl/hmac.h>

namespace ref {

inline const EVP_MD *
md(bool sha384)
{
  return sha384 ? EVP_sha384() : EVP_sha256();
}

inline bytes
hmac(bool sha384, const bytes &key, const bytes &data)
{
  unsigned char out[64];
  unsigned n = 0;
  HMAC(md(sha384), key.data(), (int) key.size(), (const unsigned char *) data.data(), data.size(), out, &n);
  return bytes((char *) out, n);
}

inline bytes
expand(bool sha384, const bytes &prk, const bytes &info, size_t n)
{
  bytes out, t;
  for (unsigned i = 1; out.size() < n; i++) {
    t = hmac(sha384, prk, t + info + bytes(1, (char) i));
    out += t;
  }
  return out.substr(0, n);
}

inline bytes
expand_label(bool sha384, const bytes &secret, const bytes &label, size_t n)
{
  bytes full = "tls13 " + label, info;
  info += (char) (n >> 8);
  info += (char) n;
  info += (char) full.size();
  info += full;
  info += '\0';
  return expand(sha384, secret, info, n);
}

struct suite {
  int aead; // 0 AES-128-GCM, 1 AES-256-GCM, 2 ChaCha20-Poly1305
  bool sha384;
  size_t key() const { return aead == 0 ? 16 : 32; }
  size_t hash() const { return sha384 ? 48 : 32; }
};

struct keyset {
  bytes key, iv, hp;
};

inline keyset
protection(suite s, const bytes &secret)
{
  return { expand_label(s.sha384, secret, "quic key", s.key()), expand_label(s.sha384, secret, "quic iv", 12), expand_label(s.sha384, secret, "quic hp", s.key()) };
}

inline bytes
initial(suite s, const bytes &dcid, const bytes &salt)
{
  return hmac(s.sha384, salt, dcid);
}

inline bytes
seal(int aead, const bytes &key, const bytes &nonce, const bytes &ad, const bytes &plain)
{
  const EVP_CIPHER *c = aead == 0 ? EVP_aes_128_gcm() : aead == 1 ? EVP_aes_256_gcm() : EVP_chacha20_poly1305();
  EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
  bytes out(plain.size() + 16, 0);
  int n = 0;
  EVP_EncryptInit_ex(x, c, nullptr, nullptr, nullptr);
  EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_IVLEN, (int) nonce.size(), nullptr);
  EVP_EncryptInit_ex(x, nullptr, nullptr, (const unsigned char *) key.data(), (const unsigned char *) nonce.data());
  if (!ad.empty())
    EVP_EncryptUpdate(x, nullptr, &n, (const unsigned char *) ad.data(), (int) ad.size());
  if (!plain.empty())
    EVP_EncryptUpdate(x, (unsigned char *) &out[0], &n, (const unsigned char *) plain.data(), (int) plain.size());
  unsigned char rest[32];
  EVP_EncryptFinal_ex(x, rest, &n);
  EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, &out[plain.size()]);
  EVP_CIPHER_CTX_free(x);
  return out;
}

// The five mask bytes of header protection.
inline bytes
mask(int aead, const bytes &key, const bytes &sample)
{
  EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
  unsigned char out[32] = {};
  int n = 0;
  if (aead == 2) {
    // The first 16 bytes of the sample are OpenSSL's counter and nonce.
    EVP_EncryptInit_ex(x, EVP_chacha20(), nullptr, (const unsigned char *) key.data(), (const unsigned char *) sample.data());
    unsigned char zero[5] = {};
    EVP_EncryptUpdate(x, out, &n, zero, 5);
  } else {
    EVP_EncryptInit_ex(x, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, (const unsigned char *) key.data(), nullptr);
    EVP_CIPHER_CTX_set_padding(x, 0);
    EVP_EncryptUpdate(x, out, &n, (const unsigned char *) sample.data(), 16);
  }
  EVP_CIPHER_CTX_free(x);
  return bytes((char *) out, 5);
}

inline bytes
unhex(const char *s)
{
  bytes r;
  for (; *s; s += 2) {
    unsigned v = 0;
    sscanf(s, "%2x", &v);
    r += (char) v;
  }
  return r;
}

}
