/* Every history: all sequences of operations up to a length on one context, compared with what a model of the context says. */
#include "common.h"
static u8 T[600]; static void fill(void) { for (int i = 0; i < 600; i++) T[i] = (u8)(i * 37 + (i >> 3) * 5 + 11); T[7] = 0; }
static u64 power(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static void hash_hist(int a) {
    fill(); size_t b = ref_bsz(a), d = H[a].xof ? 40 : ref_dsz(a), n = 0; int len = sv_tier() ? 6 : 4; u8 m[1500], w[400], *got = sv_buf(400);
    for (u64 code = 0, all = power(4, len); code < all; code++) {
        sv_case("operations on a context", code, 0, 0); void *c = sv_buf(H[a].ctxsz); H[a].init(c); n = 0; u64 out = 0; int done = 0;
        for (u64 rest = code, i = 0; i < (u64)len + 2; i++, rest /= 4) {
            u64 op = i == (u64)len ? 1 : i > (u64)len ? 3 : rest % 4;
            if (op == 0 || (done && (op < 3 || !H[a].xof))) { H[a].init(c); n = 0; out = 0; done = 0; }
            if (op == 1) { H[a].update(c, T, 5); memcpy(m + n, T, 5); n += 5; }
            if (op == 2) { H[a].update(c, T + 50, b + 3); memcpy(m + n, T + 50, b + 3); n += b + 3; }
            if (op == 3) { h_digest(a, c, got, 8 * d); ref_hash(a, m, n, w, 8 * (out + d)); sv_eq(got, w + out, d, "digest"); if (H[a].xof) out += d; done = 1; }
        }
        sv_free(c);
    }
    sv_free(got);
}
#define J(i, n) void job_C04_hist_##n(void) { hash_hist(i); }
EACH_HASH(J)
#undef J
static void mac_hist(int a) {
    fill(); size_t b = ref_bsz(a), d = ref_dsz(a), n = 0, kl = 0; const u8 *key = T; int len = sv_tier() ? 4 : 3; u8 m[1200], w[64], *got = sv_buf(64);
    for (u64 code = 0, all = power(5, len); code < all; code++) {
        sv_case("operations on a keyed context", code, 0, 0); void *c = sv_buf(MA[a].ctxsz); MA[a].init(c); n = 0; kl = 0; int done = 0;
        for (u64 rest = code, i = 0; i < (u64)len + 2; i++, rest /= 5) {
            u64 op = i == (u64)len ? 3 : i > (u64)len ? 4 : rest % 5;
            if (op == 0) { MA[a].init(c); kl = 0; n = 0; done = 0; }
            if (op == 1 || (done && op > 2)) { MA[a].set_key(c, key = T + 200, kl = 9); n = 0; done = 0; }
            if (op == 2) { MA[a].set_key(c, key = T + 300, kl = b + 1); n = 0; done = 0; }
            if (op == 3) { size_t k = i % 2 ? 6 : b - 2; MA[a].update(c, T + i, k); memcpy(m + n, T + i, k); n += k; }
            if (op == 4) { MA[a].digest(c, got); ref_hmac(a, key, kl, m, n, w); sv_eq(got, w, d, "keyed digest"); done = 1; }
        }
        sv_free(c);
    }
    sv_free(got);
}
#define J(i, n) void job_C05_hist_##n(void) { mac_hist(i); }
EACH_MAC(J)
#undef J
