/* C14: what hashing and keyed hashing do (branches, addresses, copy lengths) does not depend on contents. */
#include "common.h"
static void obliv(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), max = 3 * b + 4, lens[] = {0, 1, 3, b - 17, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 9, 2 * b, 3 * b + 4};
    u8 *x = sv_buf(max), *out = sv_buf(d + 200); sv_bytes(x, max, "msg");
    sv_oblivious(1);
    for (int i = 0; i < 12; i++) {
        size_t n = lens[i]; void *ctx = sv_buf(H[a].ctxsz);
        sv_case("bytes", n, 0, 0);
        H[a].init(ctx); H[a].update(ctx, x, n); h_digest(a, ctx, out, 8 * d); sv_defined(out, d, "digest");
        H[a].init(ctx); H[a].update(ctx, x, n / 2); H[a].update(ctx, x + n / 2, n - n / 2); if (H[a].xof) { h_digest(a, ctx, out, 8 * b + 5); h_digest(a, ctx, out, 40); } else h_digest(a, ctx, out, 8 * d);
        if (H[a].xof) { ((f_encodex *)H[a].encode)(x, n, out, 300); ((f_multix *)H[a].multi)(out, 300, (size_t)2, x, n, x, (size_t)3); }
        else { ((f_encode *)H[a].encode)(x, n, out); ((f_multi *)H[a].multi)(out, (size_t)2, x, n, x, (size_t)3); }
        sv_free(ctx);
    }
    struct sv_file f = {(const char *)x, max, 0};
    sv_case("stream", max, 0, 0);
    if (H[a].xof) ((f_encodefx *)H[a].encode_f)((FILE *)&f, out, 300); else ((f_encodef *)H[a].encode_f)((FILE *)&f, out);
    /* hashing on from arbitrary intermediate results: the context after a block, its contents arbitrary where they depend on the message */
    sv_oblivious(0);
}
#define J(i, n) void job_C14_##n(void) { obliv(i); }
EACH_HASH(J)
static void mac_obliv(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), max = 2 * b + 4, lens[] = {0, 1, d, b - 1, b, b + 1, 2 * b + 4};
    u8 *k = sv_buf(max), *x = sv_buf(max), *out = sv_buf(d); sv_bytes(k, max, "key"); sv_bytes(x, max, "msg");
    sv_oblivious(1);
    for (int i = 0; i < 7; i++) {
        void *ctx = sv_buf(MA[a].ctxsz); size_t n = lens[i];
        sv_case("key bytes", n, 0, 0);
        MA[a].init(ctx); MA[a].set_key(ctx, k, n); MA[a].update(ctx, x, lens[6 - i]); MA[a].digest(ctx, out); sv_defined(out, d, "keyed digest");
        MA[a].oneshot(k, n, x, 9, out); pgfe_hmac((enum pgfe_algorithm_choice)ALG[a], k, n, x, 9, out);
        sv_free(ctx);
    }
    sv_oblivious(0);
}
#define K(i, n) void job_C14_hmac_##n(void) { mac_obliv(i); }
EACH_MAC(K)
