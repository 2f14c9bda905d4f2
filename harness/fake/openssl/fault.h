// Makes a call into the cryptographic library fail: the n-th from now, 0: none.
#pragma once
inline thread_local int fake_crypto_countdown = 0;
inline thread_local bool fake_crypto_failed = false;
static inline bool
fake_crypto_fails()
{
  if (fake_crypto_countdown == 0 || --fake_crypto_countdown > 0)
    return false;
  fake_crypto_failed = true;
  return true;
}
