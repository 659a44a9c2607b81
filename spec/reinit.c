/* C04: initialising a context erases everything that was in it. */
#include "common.h"

static void reinit(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), n = b + 9;
    u8 *msg = sv_buf(n), *old = sv_buf(2 * b); sv_bytes(msg, n, "msg"); sv_bytes(old, 2 * b, "old");
    u8 *want = sv_buf(d); void *c0 = sv_buf(H[a].ctxsz);
    size_t lens[] = {0, 3, b - 9, b - 1, b, n};
    for (int li = 0; li < 6; li++) {
        size_t m = lens[li];
        H[a].init(c0); H[a].update(c0, msg, m); h_digest(a, c0, want, 8 * d); sv_undefined(c0, H[a].ctxsz);
        /* how: 0 arbitrary contents; 1 partly fed; 2 exactly one block fed; 3 finished; 4 finished after an empty
           message; 5 initialised twice; 6 partly squeezed (extendable output); 7 fed up to one byte short of a block */
        for (int how = 0; how < 8; how++) {
            u8 *ctx = sv_buf(H[a].ctxsz), *out = sv_buf(d), *tmp = sv_buf(2 * b);
            sv_case("previous use/length", (u64)how, m, 0);
            if (how == 0) sv_bytes(ctx, H[a].ctxsz, "garbage");
            else {
                H[a].init(ctx);
                if (how == 1) H[a].update(ctx, old, 11);
                if (how == 2) H[a].update(ctx, old, b);
                if (how == 3) { H[a].update(ctx, old, b + 30); h_digest(a, ctx, tmp, 8 * d); }
                if (how == 4) h_digest(a, ctx, tmp, 8 * d);
                if (how == 6) { H[a].update(ctx, old, 5); h_digest(a, ctx, tmp, 8 * b + 13); }
                if (how == 7) H[a].update(ctx, old, b - 1);
            }
            H[a].init(ctx); H[a].update(ctx, msg, m); h_digest(a, ctx, out, 8 * d);
            sv_eq(out, want, d, "digest after re-initialisation");
            sv_free(ctx); sv_free(out); sv_free(tmp);
        }
    }
}
#define J(i, n) void job_C04_##n(void) { reinit(i); }
EACH_HASH(J)

static void mac_reinit(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), n = 20;
    u8 *msg = sv_buf(n), *old = sv_buf(b + 30), *key = sv_buf(7), *key2 = sv_buf(b + 5); sv_bytes(msg, n, "msg"); sv_bytes(old, b + 30, "old"); sv_bytes(key, 7, "key"); sv_bytes(key2, b + 5, "oldkey");
    u8 *want = sv_buf(d), *want0 = sv_buf(d);
    void *c0 = sv_buf(MA[a].ctxsz);
    MA[a].init(c0); MA[a].set_key(c0, key, 7); MA[a].update(c0, msg, n); MA[a].digest(c0, want); sv_free(c0);
    c0 = sv_buf(MA[a].ctxsz); MA[a].init(c0); MA[a].update(c0, msg, n); MA[a].digest(c0, want0); sv_free(c0);
    /* how: 0 arbitrary contents; 1 other key; 2 other key, partly fed; 3 used and finished; 4 long other key */
    for (int how = 0; how < 5; how++) for (int keyed = 0; keyed < 3; keyed++) {
        u8 *ctx = sv_buf(MA[a].ctxsz), *out = sv_buf(d), *tmp = sv_buf(d);
        sv_case("previous use/keyed", (u64)how, (u64)keyed, 0);
        if (how == 0) { if (keyed == 2) { sv_free(ctx); sv_free(out); sv_free(tmp); continue; } sv_bytes(ctx, MA[a].ctxsz, "garbage"); }
        else {
            MA[a].init(ctx); MA[a].set_key(ctx, key2, how == 4 ? b + 5 : how == 1 ? b : 31);
            if (how >= 2) MA[a].update(ctx, old, how == 2 ? 13 : b + 30);
            if (how == 3) MA[a].digest(ctx, tmp);
        }
        if (keyed != 2) MA[a].init(ctx);           /* keyed == 2: setting a key alone starts a new message */
        if (keyed) MA[a].set_key(ctx, key, 7);
        MA[a].update(ctx, msg, n); MA[a].digest(ctx, out);
        sv_eq(out, keyed ? want : want0, d, "keyed digest after re-initialisation");
        sv_free(ctx); sv_free(out); sv_free(tmp);
    }
}
#define K(i, n) void job_C04_hmac_##n(void) { mac_reinit(i); }
EACH_MAC(K)
