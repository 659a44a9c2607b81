/* Shared by the specification programs. They are written against the public headers only. */
#ifndef COMMON_H
#define COMMON_H
#include "sv.h"
#include "ref.h"
#include "libc_model.h"
#include <stdio.h>
#include <string.h>
#include "libpgfe/hashes.h"
#include "libpgfe/hmac/hmac.h"
#include "libpgfe/utils.h"

#ifdef __cplusplus
extern "C" {
#endif
typedef void f_init(void *); typedef void f_update(void *, const u8 *, size_t); typedef void f_digest(void *, u8 *); typedef void f_digestx(void *, u8 *, size_t);
typedef void f_encode(const u8 *, size_t, u8 *); typedef void f_encodex(const u8 *, size_t, u8 *, size_t);
typedef void f_encodef(FILE *, u8 *); typedef void f_encodefx(FILE *, u8 *, size_t);
typedef void f_encoded(const u8 *, u8 *); typedef void f_encodedx(const u8 *, u8 *, size_t);
typedef void f_multi(u8 *, size_t, ...); typedef void f_multix(u8 *, size_t, size_t, ...);
struct halg { int xof; size_t ctxsz, bsz, dsz; f_init *init; f_update *update; void *digest, *encode, *encode_f, *encode_d, *multi; };
extern const struct halg H[16];
typedef void f_setkey(void *, const u8 *, size_t);
typedef void f_hmac(const u8 *, size_t, const u8 *, size_t, u8 *);
struct malg { size_t ctxsz; f_init *init; f_setkey *set_key; f_update *update; f_digest *digest; f_hmac *oneshot; };
extern const struct malg MA[12];
extern const int ALG[16];
static inline void h_digest(int a, void *ctx, u8 *out, size_t bits) { if (H[a].xof) ((f_digestx *)H[a].digest)(ctx, out, bits); else ((f_digest *)H[a].digest)(ctx, out); }
static inline size_t h_out(int a) { return ref_dsz(a); }
#define EACH_HASH(F) F(0, md5) F(1, sha1) F(2, sha224) F(3, sha256) F(4, sha384) F(5, sha512) F(6, sha512_224) F(7, sha512_256) F(8, sha3_224) F(9, sha3_256) F(10, sha3_384) F(11, sha3_512) F(12, rawshake128) F(13, shake128) F(14, rawshake256) F(15, shake256)
#define EACH_MAC(F) F(0, md5) F(1, sha1) F(2, sha224) F(3, sha256) F(4, sha384) F(5, sha512) F(6, sha512_224) F(7, sha512_256) F(8, sha3_224) F(9, sha3_256) F(10, sha3_384) F(11, sha3_512)
/* lengths beyond those spelt out elsewhere at which the library's code may behave differently: each constant above 300 that it compares a number with, shifts or masks it by, and the one after it;
   and lengths whose counts of bytes, characters or blocks do not fit 8, 15 or 16 bits */
static inline int big_lengths(size_t *o, int max, size_t cap) {
    static const size_t wide[] = {257, 32769, 65537}; int n = 0, k = 0;
    for (int i = 0; i < sv_nthresh(); i++) { u64 t = sv_thresh(i); if (t <= 300 || t > cap) continue; for (u64 j = 0; j < 2; j++) { int seen = 0; for (k = 0; k < n; k++) if (o[k] == t + j) seen = 1; if (!seen && n < max - 3) o[n++] = (size_t)(t + j); } }
    for (int i = 0; i < 3; i++) { int seen = 0; for (k = 0; k < n; k++) if (o[k] == wide[i]) seen = 1; if (!seen) o[n++] = wide[i]; }
    return n;
}
/* contents for such lengths: the last nine bytes are arbitrary, the others fixed and different from zero and from their neighbours */
static inline void big_fill(u8 *p, size_t n, const char *name, int text) {
    static const u8 nz[32] = {0xfe, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255};
    size_t fix = n > 9 ? n - 9 : 0; for (size_t i = 0; i < fix; i++) { u8 v = (u8)(i * 131 + (i >> 8) * 17 + 7); p[i] = v ? v : 1; }
    for (size_t i = fix; i < n; i++) { if (text) p[i] = sv_char(name, nz); else sv_bytes(p + i, 1, name); }
}
#define BIGS 19
#define BIGCAP (sv_tier() ? 270000u : 70000u)
#ifdef __cplusplus
}
#endif
#endif
