/* C11: Blowfish. */
#include "common.h"
#include "libpgfe/fishes/blowfish.h"
typedef pgfe_fake_uint64_t unit;
static struct pgfe_blowfish_ctx *arb(void) { struct pgfe_blowfish_ctx *c = sv_buf(sizeof *c); sv_bytes(c, sizeof *c, "schedule"); sv_const(c); return c; }
/* one block under an arbitrary key schedule */
void job_C11_unit(void) {
    struct pgfe_blowfish_ctx *c = arb(); u32 l = sv_u32("left"), r = sv_u32("right"), L = l, R = r; unit u; u.left = l; u.right = r;
    pgfe_blowfish_encrypt_unit(c, &u); ref_bf_enc(c->P, (const u32(*)[256])c->S, &L, &R);
    sv_eq64(u.left, L, "encrypted left half"); sv_eq64(u.right, R, "encrypted right half");
    pgfe_blowfish_decrypt_unit(c, &u); sv_eq64(u.left, l, "left half after decrypting"); sv_eq64(u.right, r, "right half after decrypting");
    L = l; R = r; u.left = l; u.right = r;
    pgfe_blowfish_decrypt_unit(c, &u); ref_bf_dec(c->P, (const u32(*)[256])c->S, &L, &R);
    sv_eq64(u.left, L, "decrypted left half"); sv_eq64(u.right, R, "decrypted right half");
    pgfe_blowfish_encrypt_unit(c, &u); sv_eq64(u.left, l, "left half after encrypting"); sv_eq64(u.right, r, "right half after encrypting");
}
/* whole messages: blocks in order, big-endian halves, zero padding of the last block */
static void messages(int t) {
    struct pgfe_blowfish_ctx *c = arb();
    for (size_t n = t ? 17 : 0; n <= (t ? 41u : 16u); n++) {
        if (t && n > 25 && n < 39) continue;
        size_t m = (n + 7) / 8 * 8;
        u8 *x = sv_buf(n), *pad = sv_buf(m), *e = sv_buf(m), *w = sv_buf(m), *p = sv_buf(m); sv_bytes(x, n, "text"); sv_const(x);
        for (size_t i = 0; i < m; i++) pad[i] = i < n ? x[i] : 0;
        for (int dec = 0; dec < 2; dec++) {
            for (size_t b = 0; b < m; b += 8) {
                u32 L = 0, R = 0; for (int i = 0; i < 4; i++) { L = L << 8 | pad[b + i]; R = R << 8 | pad[b + 4 + i]; }
                if (dec) ref_bf_dec(c->P, (const u32(*)[256])c->S, &L, &R); else ref_bf_enc(c->P, (const u32(*)[256])c->S, &L, &R);
                for (int i = 0; i < 4; i++) { w[b + i] = (u8)(L >> (24 - 8 * i)); w[b + 4 + i] = (u8)(R >> (24 - 8 * i)); }
            }
            sv_case("length/decrypting", n, (u64)dec, 0);
            size_t g = (dec ? pgfe_blowfish_decrypt : pgfe_blowfish_encrypt)(c, x, n, e);
            sv_eq64(g, m, "padded length"); sv_eq(e, w, m, "ciphertext");
            const u8 *ce = sv_cbuf(e, m);
            g = (dec ? pgfe_blowfish_encrypt : pgfe_blowfish_decrypt)(c, ce, m, p);
            sv_eq64(g, m, "length after the round trip"); sv_eq(p, pad, m, "text after the round trip");
            sv_free((void *)ce); sv_undefined(e, m); sv_undefined(p, m);
        }
        sv_free(x); sv_free(pad); sv_free(e); sv_free(w); sv_free(p);
    }
}
void job_C11_messages(void) { messages(0); }
void job_C11_messages2(void) { messages(1); }
void job_C11_big_messages(void) { /* under a key schedule without structure, so that all but the end is constant */
    struct pgfe_blowfish_ctx *c = sv_buf(sizeof *c); u32 r = 1; for (int i = 0; i < 18; i++) c->P[i] = r = r * 1664525 + 1013904223; for (int i = 0; i < 4; i++) for (int j = 0; j < 256; j++) c->S[i][j] = (r = r * 1664525 + 1013904223) ^ r >> 15; sv_const(c); size_t l[BIGS]; int k = big_lengths(l, BIGS, BIGCAP);
    for (int i = 0; i < k; i++) for (int dec = 0; dec < 2; dec++) {
        size_t n = l[i], m = (n + 7) / 8 * 8; u8 *x = sv_buf(n), *e = sv_buf(m), *w = sv_buf(m); big_fill(x, n, "text", 0); sv_const(x);
        for (size_t b = 0; b < m; b += 8) {
            u32 L = 0, R = 0; for (size_t j = 0; j < 4; j++) { L = L << 8 | (b + j < n ? x[b + j] : 0); R = R << 8 | (b + 4 + j < n ? x[b + 4 + j] : 0); }
            if (dec) ref_bf_dec(c->P, (const u32(*)[256])c->S, &L, &R); else ref_bf_enc(c->P, (const u32(*)[256])c->S, &L, &R);
            for (int j = 0; j < 4; j++) { w[b + j] = (u8)(L >> (24 - 8 * j)); w[b + 4 + j] = (u8)(R >> (24 - 8 * j)); }
        }
        sv_case("length/decrypting", n, (u64)dec, 0);
        sv_eq64((dec ? pgfe_blowfish_decrypt : pgfe_blowfish_encrypt)(c, x, n, e), m, "padded length"); sv_eq(e, w, m, "ciphertext");
        sv_free(x); sv_free(e); sv_free(w);
    }
}
/* key schedule */
static void key(size_t n, int symbolic) {
    u8 *k = sv_buf(n); if (symbolic) sv_bytes(k, n, "key"); else for (size_t i = 0; i < n; i++) k[i] = (u8)(37 * i + 11 + n);
    sv_const(k); struct pgfe_blowfish_ctx *c = sv_buf(sizeof *c); u32 P[18], S[4][256];
    sv_case("key length", n, 0, 0);
    pgfe_blowfish_init(c, k, n); ref_bf_init(P, S, k, n);
    sv_eq(c->P, P, sizeof P, "P array"); sv_eq(c->S, S, sizeof S, "S boxes");
    sv_free(c); sv_free(k);
}
void job_C11_key_lengths(void) { for (size_t n = 0; n <= 73; n++) { if (n > 9 && n % 8 > 1 && n != 71 && !sv_tier()) continue; key(n, 0); } }
void job_C11_key_big(void) { size_t l[BIGS]; int k = big_lengths(l, BIGS, BIGCAP); for (int i = 0; i < k; i++) key(l[i], 0); }
void job_C11_key_arbitrary(void) { key(4, 1); }
