// BoringSSL's ChaCha20 function on top of OpenSSL's EVP_chacha20.
#pragma once
#include <openssl/evp.h>
#include <stdint.h>
#include <string.h>

static inline void
CRYPTO_chacha_20(uint8_t *out, const uint8_t *in, size_t in_len, const uint8_t key[32], const uint8_t nonce[12], uint32_t counter)
{
  uint8_t iv[16] = { (uint8_t) counter, (uint8_t)(counter >> 8), (uint8_t)(counter >> 16), (uint8_t)(counter >> 24) };
  memcpy(iv + 4, nonce, 12);
  EVP_CIPHER_CTX *ctx = EVP_CIPHER_CTX_new();
  int n = 0;
  EVP_EncryptInit_ex(ctx, EVP_chacha20(), nullptr, key, iv);
  EVP_EncryptUpdate(ctx, out, &n, in, (int) in_len);
  EVP_CIPHER_CTX_free(ctx);
}
