/* C26: contexts are values. */
#include "common.h"
#include "libpgfe/fishes/blowfish.h"
typedef void f_up(void *, const u8 *, size_t);
static void *moved(void *c, size_t n) { u8 *p = sv_buf(n); memcpy(p, c, n); return p; }
static void gone(void *c, size_t n) { sv_bytes(c, n, "junk"); sv_free(c); }
static size_t levels(size_t b, size_t *l) { size_t c[] = {0, 1, b / 2, b - 1, b, b + 1, 2 * b + 3}; for (int i = 0; i < 7; i++) l[i] = c[i]; return 7; }
static void hash(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), csz = H[a].ctxsz, l[8], k = levels(b, l), tails[] = {0, 1, b - 1, b}; u8 *x = sv_buf(4 * b), *y = sv_buf(4 * b), *w = sv_buf(d), *v = sv_buf(d), *o = sv_buf(d); sv_bytes(x, 4 * b, "msg"); sv_const(x);
    for (size_t i = 0; i < k; i++) for (int t = 0; t < 4; t++) {
        size_t n = l[i], m = tails[t]; sv_case("context copied after bytes/followed by", n, m, 0); if (t % 2 && i != 2 && i != 3 && !sv_tier()) continue;
        ref_hash(a, x, n + m, w, 8 * d); for (size_t j = 0; j < n; j++) y[j] = x[j]; for (size_t j = 0; j < m; j++) y[n + j] = (u8)(x[n + j] ^ 0x5a); ref_hash(a, y, n + m, v, 8 * d);
        /* moved elsewhere; the memory it was in is used for something else */
        void *c = sv_buf(csz), *e; H[a].init(c); e = moved(c, csz); gone(c, csz); c = e; H[a].update(c, x, n); e = moved(c, csz); gone(c, csz); H[a].update(e, x + n, m); c = moved(e, csz); gone(e, csz); h_digest(a, c, o, 8 * d); sv_eq(o, w, d, "digest of a moved context"); sv_free(c);
        /* two futures of one context, taken alternately */
        c = sv_buf(csz); H[a].init(c); H[a].update(c, x, n); e = moved(c, csz); H[a].update(c, x + n, m / 2); H[a].update(e, y + n, m); H[a].update(c, x + n + m / 2, m - m / 2); h_digest(a, e, o, 8 * d); sv_eq(o, v, d, "digest of the copy"); h_digest(a, c, o, 8 * d); sv_eq(o, w, d, "digest of the original"); sv_free(e);
        /* put back */
        H[a].init(c); H[a].update(c, x, n); e = moved(c, csz); H[a].update(c, y + n, m); h_digest(a, c, o, 8 * d); sv_eq(o, v, d, "digest before putting back"); memcpy(c, e, csz); H[a].update(c, x + n, m); h_digest(a, c, o, 8 * d); sv_eq(o, w, d, "digest after putting back"); sv_free(c); sv_free(e);
    }
    if (!H[a].xof) return;
    u8 *long1 = sv_buf(3 * b + 8), *p = sv_buf(3 * b + 8); ref_hash(a, x, 7, long1, 8 * (3 * b + 8));
    for (int i = 0; i < 5; i++) {
        size_t n = i == 0 ? 1 : i == 1 ? 8 : i == 2 ? b - 1 : i == 3 ? b : b + 5, m = b + 3; sv_case("context copied after output", n, m, 0);
        void *c = sv_buf(csz), *e; H[a].init(c); H[a].update(c, x, 7); h_digest(a, c, p, 8 * n); sv_eq(p, long1, n, "first output"); e = moved(c, csz); h_digest(a, c, p, 8 * m); sv_eq(p, long1 + n, m, "output of the original"); sv_undefined(p, 3 * b + 8); gone(c, csz);
        h_digest(a, e, p, 8 * 3); sv_eq(p, long1 + n, 3, "output of the copy"); c = moved(e, csz); gone(e, csz); h_digest(a, c, p, 8 * (m - 3)); sv_eq(p, long1 + n + 3, m - 3, "next output of the copy"); sv_free(c);
    }
}
#define J(i, n) void job_C26_##n(void) { hash(i); }
EACH_HASH(J)
#undef J
static void mac(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), csz = MA[a].ctxsz; u8 *key = sv_buf(b + 3), *x = sv_buf(3 * b), *w = sv_buf(d), *v = sv_buf(d), *o = sv_buf(d); sv_bytes(key, b + 3, "key"); sv_bytes(x, 3 * b, "msg"); sv_const(key); sv_const(x);
    for (int i = 0; i < 3; i++) for (int t = 0; t < 3; t++) {
        size_t kl = i == 0 ? 5 : i == 1 ? b : b + 3, n = t == 0 ? 0 : t == 1 ? b - 1 : b + 3, m = t == 1 ? 1 : 9; if (i && t != i && !sv_tier()) continue; sv_case("keyed context copied: key/bytes before/after", kl, n, m);
        ref_hmac(a, key, kl, x, n + m, w); ref_hmac(a, key, kl, x, n, v);
        void *c = sv_buf(csz), *e; MA[a].init(c); e = moved(c, csz); gone(c, csz); MA[a].set_key(e, key, kl); c = moved(e, csz); gone(e, csz); MA[a].update(c, x, n); e = moved(c, csz);
        MA[a].digest(c, o); sv_eq(o, v, d, "keyed digest of the original"); gone(c, csz); MA[a].update(e, x + n, m); c = moved(e, csz); gone(e, csz); MA[a].digest(c, o); sv_eq(o, w, d, "keyed digest of the copy"); sv_free(c);
    }
}
#define J(i, n) void job_C26_hmac_##n(void) { mac(i); }
EACH_MAC(J)
#undef J
void job_C26_blowfish(void) {
    struct pgfe_blowfish_ctx *c = sv_buf(sizeof *c), *e; u8 key[9], x[16], o[16], p[16], w[16]; u32 P[18], S[4][256]; for (int i = 0; i < 9; i++) key[i] = (u8)(i * 31 + 7); sv_bytes(x, 16, "text");
    sv_case("key schedule moved", 0, 0, 0); pgfe_blowfish_init(c, key, 9); ref_bf_init(P, S, key, 9); e = moved(c, sizeof *c); gone(c, sizeof *c);
    for (int b = 0; b < 16; b += 8) { u32 L = 0, R = 0; for (int i = 0; i < 4; i++) { L = L << 8 | x[b + i]; R = R << 8 | x[b + 4 + i]; } ref_bf_enc(P, S, &L, &R); for (int i = 0; i < 4; i++) { w[b + i] = (u8)(L >> (24 - 8 * i)); w[b + 4 + i] = (u8)(R >> (24 - 8 * i)); } }
    pgfe_blowfish_encrypt(e, x, 16, o); sv_eq(o, w, 16, "ciphertext under the moved schedule"); c = moved(e, sizeof *c); gone(e, sizeof *e); pgfe_blowfish_decrypt(c, o, 16, p); sv_eq(p, x, 16, "text under the schedule moved again"); sv_free(c);
}
