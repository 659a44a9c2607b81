/* Reference implementations, written from the standards (RFC 1321, FIPS 180-4, FIPS 202, RFC 2104, RFC 4226,
   RFC 4648, Schneier's Blowfish). Independent of the library: no library header is included here. */
#ifndef REF_H
#define REF_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
enum { R_MD5, R_SHA1, R_SHA224, R_SHA256, R_SHA384, R_SHA512, R_SHA512_224, R_SHA512_256, R_SHA3_224, R_SHA3_256, R_SHA3_384, R_SHA3_512,
       R_RAWSHAKE128, R_SHAKE128, R_RAWSHAKE256, R_SHAKE256, R_COUNT };
/* digest of msg[0..len) preceded by `extra` bytes (a multiple of the block size) that leave the chaining value at its
   initial value; outbits only matters for the extendable-output functions */
void ref_hash_x(int alg, const u8 *msg, size_t len, u64 extra, u8 *out, size_t outbits);
void ref_hash(int alg, const u8 *msg, size_t len, u8 *out, size_t outbits);
size_t ref_dsz(int alg);
size_t ref_bsz(int alg);
void ref_hmac(int alg, const u8 *key, size_t klen, const u8 *msg, size_t len, u8 *out);
u32 ref_hotp(int alg, const u8 *key, size_t klen, u64 counter, int digits);
size_t ref_b16(const u8 *in, size_t n, char *out);
size_t ref_b32(const u8 *in, size_t n, char *out, int hexalpha);
size_t ref_b64(const u8 *in, size_t n, char *out);
size_t ref_b64url(const u8 *in, size_t n, char *out);
void ref_bf_init(u32 P[18], u32 S[4][256], const u8 *key, size_t klen);
void ref_bf_enc(const u32 P[18], const u32 S[4][256], u32 *l, u32 *r);
void ref_bf_dec(const u32 P[18], const u32 S[4][256], u32 *l, u32 *r);
#ifdef __cplusplus
}
#endif
#endif
