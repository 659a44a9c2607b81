/* C05: HMAC is RFC 2104 for keys and messages of every length. */
#include "common.h"
static int mac_len(size_t n, size_t b, size_t d, int key) {
    if (n <= 1 || (n >= b - 1 && n <= b + 1) || n == d || n == 2 * b) return 1;
    if (key && (n == d + 1 || n == 2 * b + 1)) return 1;
    if (sv_tier()) return n == 2 || n == d - 1 || n == d + 1 || n == b - 2 || n == b + 2 || n % 16 == 4 || n == 3 * b;
    return 0;
}
static void mac(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), max = 4 * b + 1;
    u8 *key = sv_buf(max), *msg = sv_buf(max); sv_bytes(key, max, "key"); sv_bytes(msg, max, "msg");
    u8 *want = sv_buf(d);
    for (int t = 0; t < 2; t++) for (size_t l = 0; l < max; l++) {
        if (!mac_len(l, b, d, !t)) continue;
        size_t kl = t ? 20 : l, ml = t ? l : 9;
        sv_case("key/message length", kl, ml, 0);
        const u8 *k = sv_cbuf(key, kl), *m = sv_cbuf(msg, ml);
        ref_hmac(a, key, kl, msg, ml, want);
        u8 *o1 = sv_buf(d), *o2 = sv_buf(d), *o3 = sv_buf(d); void *ctx = sv_buf(MA[a].ctxsz);
        MA[a].oneshot(k, kl, m, ml, o1); sv_eq(o1, want, d, "one-shot keyed digest");
        pgfe_hmac((enum pgfe_algorithm_choice)ALG[a], k, kl, m, ml, o2); sv_eq(o2, want, d, "keyed digest through pgfe_hmac");
        MA[a].init(ctx); MA[a].set_key(ctx, k, kl); sv_free((void *)k); MA[a].update(ctx, m, ml); sv_free((void *)m); MA[a].digest(ctx, o3);
        sv_eq(o3, want, d, "incremental keyed digest");
        sv_free(ctx); sv_free(o1); sv_free(o2); sv_free(o3);
    }
    /* without a key: the empty key */
    void *ctx = sv_buf(MA[a].ctxsz); u8 *o = sv_buf(d);
    sv_case("no key", 0, 0, 0);
    MA[a].init(ctx); MA[a].update(ctx, msg, 9); MA[a].digest(ctx, o); ref_hmac(a, key, 0, msg, 9, want); sv_eq(o, want, d, "keyed digest without a key");
    /* the last key set is the key in use */
    sv_case("key replaced", 0, 0, 0);
    MA[a].init(ctx); MA[a].set_key(ctx, key, b); MA[a].set_key(ctx, msg, 3); MA[a].update(ctx, msg, 9); MA[a].digest(ctx, o); ref_hmac(a, msg, 3, msg, 9, want); sv_eq(o, want, d, "keyed digest after replacing the key");
}
#define J(i, n) void job_C05_##n(void) { mac(i); }
EACH_MAC(J)
static void big(int a) {
    size_t l[BIGS], d = ref_dsz(a); int k = big_lengths(l, BIGS, BIGCAP);
    for (int i = 0; i < k; i++) for (int t = 0; t < 2; t++) {
        size_t kl = t ? 9 : l[i], ml = t ? l[i] : 9; u8 *key = sv_buf(kl), *msg = sv_buf(ml), *o1 = sv_buf(d), *o2 = sv_buf(d), *want = sv_buf(d); void *ctx = sv_buf(MA[a].ctxsz);
        if (t) for (size_t j = 0; j < kl; j++) key[j] = (u8)(j * 29 + 3); else big_fill(key, kl, "key", 0);
        if (t) big_fill(msg, ml, "msg", 0); else for (size_t j = 0; j < ml; j++) msg[j] = (u8)(j * 31 + 5);
        sv_const(key); sv_const(msg); sv_case("key/message length", kl, ml, 0);
        ref_hmac(a, key, kl, msg, ml, want);
        pgfe_hmac((enum pgfe_algorithm_choice)ALG[a], key, kl, msg, ml, o1); sv_eq(o1, want, d, "keyed digest through pgfe_hmac");
        MA[a].init(ctx); MA[a].set_key(ctx, key, kl); MA[a].update(ctx, msg, ml); MA[a].digest(ctx, o2); sv_eq(o2, want, d, "incremental keyed digest");
        sv_free(ctx); sv_free(o1); sv_free(o2); sv_free(want); sv_free(key); sv_free(msg);
    }
}
#define B(i, n) void job_C05_big_##n(void) { big(i); }
EACH_MAC(B)
