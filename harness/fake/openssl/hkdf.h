// BoringSSL's HKDF functions on top of OpenSSL's EVP_KDF.
#pragma once
#include <openssl/core_names.h>
#include <openssl/evp.h>
#include <openssl/kdf.h>
#include <openssl/params.h>
#include "fault.h"
#include <stddef.h>
#include <stdint.h>

static inline int
fake_hkdf(int mode, uint8_t *out, size_t out_len, const EVP_MD *md, const uint8_t *key, size_t key_len, const uint8_t *salt, size_t salt_len, const uint8_t *info, size_t info_len)
{
  if (fake_crypto_fails())
    return 0;
  EVP_KDF *kdf = EVP_KDF_fetch(nullptr, "HKDF", nullptr);
  EVP_KDF_CTX *ctx = EVP_KDF_CTX_new(kdf);
  EVP_KDF_free(kdf);
  OSSL_PARAM params[6], *p = params;
  *p++ = OSSL_PARAM_construct_int(OSSL_KDF_PARAM_MODE, &mode);
  *p++ = OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, const_cast<char *>(EVP_MD_get0_name(md)), 0);
  *p++ = OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, const_cast<uint8_t *>(key), key_len);
  if (salt)
    *p++ = OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SALT, const_cast<uint8_t *>(salt), salt_len);
  if (info)
    *p++ = OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, const_cast<uint8_t *>(info), info_len);
  *p = OSSL_PARAM_construct_end();
  int ok = EVP_KDF_derive(ctx, out, out_len, params) == 1;
  EVP_KDF_CTX_free(ctx);
  return ok;
}

static inline int
HKDF_extract(uint8_t *out, size_t *out_len, const EVP_MD *md, const uint8_t *secret, size_t secret_len, const uint8_t *salt, size_t salt_len)
{
  *out_len = (size_t) EVP_MD_get_size(md);
  return fake_hkdf(EVP_KDF_HKDF_MODE_EXTRACT_ONLY, out, *out_len, md, secret, secret_len, salt, salt_len, nullptr, 0);
}

static inline int
HKDF_expand(uint8_t *out, size_t out_len, const EVP_MD *md, const uint8_t *prk, size_t prk_len, const uint8_t *info, size_t info_len)
{
  if (out_len == 0)
    return 1;
  return fake_hkdf(EVP_KDF_HKDF_MODE_EXPAND_ONLY, out, out_len, md, prk, prk_len, nullptr, 0, info, info_len);
}
