/* Stand-in for libsodium's public header (not installed here): declarations only, for type-checking. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define crypto_generichash_KEYBYTES 32U
#define crypto_generichash_BYTES 32U
#define crypto_sign_BYTES 64U
#define crypto_sign_PUBLICKEYBYTES 32U
#define crypto_sign_SECRETKEYBYTES 64U
int sodium_init(void);
int crypto_generichash(unsigned char *out, size_t outlen, const unsigned char *in, unsigned long long inlen, const unsigned char *key, size_t keylen);
int crypto_sign_detached(unsigned char *sig, unsigned long long *siglen_p, const unsigned char *m, unsigned long long mlen, const unsigned char *sk);
int crypto_sign_verify_detached(const unsigned char *sig, const unsigned char *m, unsigned long long mlen, const unsigned char *pk);
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk);
#ifdef __cplusplus
}
#endif
