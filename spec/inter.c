/* C16: what happens in one context, or happened in an earlier call, has no influence on another. */
#include "common.h"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/base_encoding/base16.h"
#include "libpgfe/base_encoding/base32.h"
#include "libpgfe/base_encoding/base64.h"
#include "libpgfe/fishes/blowfish.h"
static u8 m1[500], m2[500], m3[500];
static void fill(int arbitrary) { for (int i = 0; i < 500; i++) { m1[i] = (u8)(i * 7 + 1); m2[i] = (u8)(i * 13 + 5); m3[i] = (u8)(i * 3 + 9); } if (arbitrary) { sv_bytes(m1, 40, "first"); sv_bytes(m2, 40, "second"); } }
static void noise(int b, int n) { u8 o[64]; void *c = sv_buf(H[b].ctxsz); H[b].init(c); H[b].update(c, m3, (size_t)n); h_digest(b, c, o, 8 * ref_dsz(b)); if (H[b].xof) ((f_encodex *)H[b].encode)(m3, 5, o, 256); else ((f_encode *)H[b].encode)(m3, 5, o); sv_free(c); }
static void inter(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), ns[][2] = {{3, 40}, {b - 1, 5}, {b + 3, 2 * b + 1}, {b, b}, {0, b - 9}};
    u8 *o1 = sv_buf(d), *o2 = sv_buf(d), *w1 = sv_buf(d), *w2 = sv_buf(d);
    for (int i = 0; i < 5; i++) for (int other = 0; other < 3; other++) {
        fill(!other && (!i || sv_tier())); int z = other == 0 ? a : other == 1 ? (a + 1) % 16 : (a + 7) % 16; size_t p = ns[i][0], q = ns[i][1];
        sv_case("interleaved with/bytes", (u64)z, p, q);
        void *c1 = sv_buf(H[a].ctxsz), *c2 = sv_buf(H[a].ctxsz);
        ref_hash(a, m1, p, w1, 8 * d); ref_hash(a, m2, q, w2, 8 * d);
        H[a].init(c1); noise(z, 3); H[a].init(c2);
        H[a].update(c1, m1, p / 2); H[a].update(c2, m2, q / 3); noise(z, 70);
        H[a].update(c1, m1 + p / 2, p - p / 2); H[a].update(c2, m2 + q / 3, q - q / 3); noise(z, 140);
        h_digest(a, c2, o2, 8 * d); noise(z, 1); h_digest(a, c1, o1, 8 * d);
        sv_eq(o1, w1, d, "digest of the first context"); sv_eq(o2, w2, d, "digest of the second context");
        for (int k = 0; k < 3; k++) { const u8 *m = k == 1 ? m2 : m1; /* the same call with other contents, then with the first ones */
            if (H[a].xof) ((f_encodex *)H[a].encode)(m, p, o1, 8 * d); else ((f_encode *)H[a].encode)(m, p, o1);
            ref_hash(a, m, p, w1, 8 * d); sv_eq(o1, w1, d, "digest in one call"); noise(z, 66);
            if (a < 12) { ref_hmac(a, m, 20, m1, p, w1); MA[a].oneshot(m, 20, m1, p, o1); sv_eq(o1, w1, d, "keyed digest in one call"); sv_eq64(pgfe_hotp_generic((enum pgfe_algorithm_choice)ALG[a], m, 20, 7 + (u64)k, 6), ref_hotp(a, m, 20, 7 + (u64)k, 6), "password"); } }
        if (a < 12) {
            void *k1 = sv_buf(MA[a].ctxsz), *k2 = sv_buf(MA[a].ctxsz);
            MA[a].init(k1); MA[a].init(k2); MA[a].set_key(k1, m1, 20); noise(z, 4); MA[a].set_key(k2, m2, b + 4); MA[a].update(k1, m2, q); noise(z, 150); MA[a].update(k2, m1, p); MA[a].digest(k1, o1); MA[a].digest(k2, o2);
            ref_hmac(a, m1, 20, m2, q, w1); ref_hmac(a, m2, b + 4, m1, p, w2); sv_eq(o1, w1, d, "keyed digest of the first context"); sv_eq(o2, w2, d, "keyed digest of the second context"); sv_free(k1); sv_free(k2);
        }
        sv_free(c1); sv_free(c2);
        if (!sv_tier() && i > 2) break;
    }
}
#define J(i, n) void job_C16_##n(void) { inter(i); }
EACH_HASH(J)
typedef size_t enc(const pgfe_encode_t *, size_t, char *); typedef size_t dec(const char *, pgfe_encode_t *);
static size_t r32(const u8 *i, size_t n, char *o) { return ref_b32(i, n, o, 0); }
static size_t r32h(const u8 *i, size_t n, char *o) { return ref_b32(i, n, o, 1); }
void job_C16_codecs(void) {
    static enc *const E[] = {pgfe_encode_base16, pgfe_encode_base32, pgfe_encode_base32hex, pgfe_encode_base64, pgfe_encode_base64_url}; static dec *const D[] = {pgfe_decode_base16, pgfe_decode_base32, pgfe_decode_base32hex, pgfe_decode_base64, pgfe_decode_base64};
    static enc *const R[] = {ref_b16, r32, r32h, ref_b64, ref_b64url};
    fill(1); char e[400], w[400]; u8 o[200];
    for (int r = 0; r < 3; r++) for (int k = 0; k < 5; k++) for (size_t n = 0; n < 14; n++) {
        const u8 *x = r == 1 ? m2 : m1; sv_case("round/codec/bytes", (u64)r, (u64)k, n);
        size_t l = R[k](x, n, w); sv_eq64(E[k](x, n, e), l, "length of the text"); sv_eq(e, w, l + 1, "text");
        l = R[k](m3 + r, n, w); sv_eq64(D[k](w, o), n, "decoded length"); sv_eq(o, m3 + r, n, "decoded bytes");
    }
}
void job_C16_blowfish(void) {
    fill(1); struct pgfe_blowfish_ctx *c1 = sv_buf(sizeof *c1), *c2 = sv_buf(sizeof *c2); u32 P[18], S[4][256];
    pgfe_blowfish_init(c1, m3, 16); pgfe_blowfish_init(c2, m3 + 100, 9);
    for (int r = 0; r < 3; r++) for (int t = 0; t < 2; t++) {
        sv_case("round/context", (u64)r, (u64)t, 0); u8 x[8], o[8]; for (int i = 0; i < 8; i++) x[i] = m3[200 + 8 * r + i + t]; u32 L = 0, R = 0; for (int i = 0; i < 4; i++) { L = L << 8 | x[i]; R = R << 8 | x[4 + i]; }
        ref_bf_init(P, S, t ? m3 + 100 : m3, t ? 9 : 16); ref_bf_enc(P, (const u32(*)[256])S, &L, &R); u8 w[8]; for (int i = 0; i < 4; i++) { w[i] = (u8)(L >> (24 - 8 * i)); w[4 + i] = (u8)(R >> (24 - 8 * i)); }
        pgfe_blowfish_encrypt(t ? c2 : c1, x, 8, o); sv_eq(o, w, 8, "ciphertext"); pgfe_blowfish_decrypt(t ? c2 : c1, w, 8, o); sv_eq(o, x, 8, "text");
    }
}
