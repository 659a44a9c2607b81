/* Hash functions against the standards, for arbitrary message contents. */
#include "common.h"
#include "counter.h"

/* message lengths: every length up to one block and a bit, around two and three blocks, around every constant the
   library's own code compares lengths and counters with */
static int len_in(size_t n, size_t b) {
    if (n <= b + 17) return 1;
    if (n >= 2 * b - 18 && n <= 2 * b + 2) return 1;
    if (n >= 3 * b - 1 && n <= 3 * b + 1) return 1;
    if (sv_tier() && n <= 3 * b + 2) return 1;
    for (int i = 0; i < sv_nthresh(); i++) { uint64_t t = sv_thresh(i); if (t <= (sv_tier() ? 4200u : 300u) && n + 1 >= t && n <= t + 1) return 1; }
    return 0;
}
static void digest_lengths(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), max = sv_tier() ? 4202 : 520;
    u8 *msg = sv_buf(max); sv_bytes(msg, max, "msg");
    for (size_t n = 0; n <= max; n++) {
        if (!len_in(n, b)) continue;
        sv_case("message length", n, 0, 0);
        const u8 *in = sv_cbuf(msg, n);
        void *ctx = sv_buf(H[a].ctxsz); u8 *out = sv_buf(d), *want = sv_buf(d);
        H[a].init(ctx); H[a].update(ctx, in, n); h_digest(a, ctx, out, 8 * d);
        ref_hash(a, msg, n, want, 8 * d);
        sv_eq(out, want, d, "digest");
        sv_free(ctx); sv_free(out); sv_free(want); sv_free((void *)in);
    }
}
static void big(int a) {
    size_t l[BIGS], d = ref_dsz(a); int k = big_lengths(l, BIGS, BIGCAP);
    for (int i = 0; i < k; i++) {
        u8 *msg = sv_buf(l[i]), *out = sv_buf(d), *want = sv_buf(d); void *ctx = sv_buf(H[a].ctxsz); big_fill(msg, l[i], "msg", 0); sv_const(msg);
        sv_case("message length", l[i], 0, 0);
        H[a].init(ctx); H[a].update(ctx, msg, l[i]); h_digest(a, ctx, out, 8 * d); ref_hash(a, msg, l[i], want, 8 * d); sv_eq(out, want, d, "digest");
        sv_free(ctx); sv_free(out); sv_free(want); sv_free(msg);
    }
}
#define B(i, n) void job_C03_big_##n(void) { big(i); }
EACH_HASH(B)
#undef B
#define J(i, n) void job_C03_##n(void) { digest_lengths(i); }
EACH_HASH(J)

/* message lengths far beyond what can be spelt out: the length counter inside the context is found by its value and moved to a value near a word boundary; the digest must be that of a message that many
   bytes longer */
static void long_messages(int a) {
    static const u64 around[] = {1ull << 28, 1ull << 29, 1ull << 31, 1ull << 32, 1ull << 35, 1ull << 60, 1ull << 61};
    size_t b = ref_bsz(a), d = ref_dsz(a), max = 4 * b, off = 0, csz = H[a].ctxsz; int w = 0, bits = 0;
    u8 *msg = sv_buf(max); sv_bytes(msg, max, "msg");
    w = find_counter(a, msg, &off, &bits);
    sv_case("length counter: offset/width/unit shift", off, (u64)w, (u64)bits);
    if (!w) return;
    for (size_t i = 0; i < sizeof around / sizeof *around; i++) {
        /* limits: SHA-1/SHA-2 with 64-byte blocks take less than 2^64 bits; a lone 32-bit word holds less than 2^32 */
        if (a >= R_SHA1 && a <= R_SHA256 && around[i] >= 1ull << 61) continue;
        u64 extra = around[i] - b;
        if (w == 4 && (extra << bits) >> 32) continue;
        size_t n[] = {0, 3, b - 1, b, b + 1, 2 * b + 5};
        for (int k = 0; k < 6; k++) {
            u8 *ctx = sv_buf(csz), *out = sv_buf(d), *want = sv_buf(d);
            sv_case("bytes before/message", extra, n[k], 0);
            H[a].init(ctx); store(ctx + off, extra << bits, w);
            H[a].update(ctx, msg, n[k]); h_digest(a, ctx, out, 8 * d);
            ref_hash_x(a, msg, n[k], extra, want, 8 * d);
            sv_eq(out, want, d, "digest of a long message");
            sv_free(ctx); sv_free(out); sv_free(want);
        }
    }
}
#define L(i, n) void job_C03_long_##n(void) { long_messages(i); }
L(0, md5) L(1, sha1) L(2, sha224) L(3, sha256) L(4, sha384) L(5, sha512) L(6, sha512_224) L(7, sha512_256)

/* extendable-output functions: every output length, in one request or in several whole-byte requests */
static void xof(int a) {
    size_t r = ref_bsz(a), n = 5, maxb = 3 * r + 9;
    u8 *msg = sv_buf(n); sv_bytes(msg, n, "msg");
    u8 *want = sv_buf(maxb + 1); ref_hash(a, msg, n, want, 8 * maxb);
    for (size_t bits = 0; bits <= 8 * maxb; bits++) {
        size_t m = bits % (8 * r);
        if (!sv_tier() && !(bits <= 40 || m <= 9 || m >= 8 * r - 9 || bits % 67 == 0 || (bits > 250 && bits < 262) || (bits > 508 && bits < 517))) continue;
        size_t bytes = (bits + 7) / 8; u8 *out = sv_buf(bytes), *exp = sv_buf(bytes);
        void *ctx = sv_buf(H[a].ctxsz);
        sv_case("output bits", bits, 0, 0);
        H[a].init(ctx); H[a].update(ctx, msg, n); h_digest(a, ctx, out, bits);
        memcpy(exp, want, bytes); if (bits % 8) exp[bytes - 1] &= (u8)((1 << bits % 8) - 1);
        sv_eq(out, exp, bytes, "output prefix");
        sv_free(ctx); sv_free(out); sv_free(exp);
    }
    size_t part[] = {0, 1, 7, r - 1, r, r + 1, 2 * r};
    for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++) {
        size_t p = part[i], q = part[j], t = 3; if (p + q + t > maxb) continue;
        u8 *o1 = sv_buf(p), *o2 = sv_buf(q), *o3 = sv_buf(t); void *ctx = sv_buf(H[a].ctxsz);
        sv_case("output bytes, in three requests", p, q, t);
        H[a].init(ctx); H[a].update(ctx, msg, n); h_digest(a, ctx, o1, 8 * p); h_digest(a, ctx, o2, 8 * q); h_digest(a, ctx, o3, 8 * t);
        sv_eq(o1, want, p, "first request"); sv_eq(o2, want + p, q, "second request"); sv_eq(o3, want + p + q, t, "third request");
        sv_free(ctx); sv_free(o1); sv_free(o2); sv_free(o3);
    }
}
static void xof_big(int a) {
    size_t l[BIGS]; int k = big_lengths(l, BIGS, BIGCAP), n = 5; u8 *msg = sv_buf((size_t)n); sv_bytes(msg, (size_t)n, "msg");
    for (int i = 0; i < k; i++) {
        size_t m = l[i]; u8 *want = sv_buf(m + 9), *o1 = sv_buf(m), *o2 = sv_buf(9); void *ctx = sv_buf(H[a].ctxsz); ref_hash(a, msg, (size_t)n, want, 8 * (m + 9));
        sv_case("output bytes, then nine more", m, 0, 0); H[a].init(ctx); H[a].update(ctx, msg, (size_t)n); h_digest(a, ctx, o1, 8 * m); sv_eq(o1, want, m, "long output"); h_digest(a, ctx, o2, 72); sv_eq(o2, want + m, 9, "continuation");
        sv_case("output bits", m, 0, 0); H[a].init(ctx); H[a].update(ctx, msg, (size_t)n); sv_undefined(o1, m); h_digest(a, ctx, o1, m); sv_eq(o1, want, m / 8, "output");
        sv_free(want); sv_free(o1); sv_free(o2); sv_free(ctx);
    }
}
#define B(i, n) void job_C24_big_##n(void) { xof_big(i); }
B(12, raws128) B(13, s128) B(14, raws256) B(15, s256)
#undef B
#define X(i, n) void job_C24_##n(void) { xof(i); }
X(12, rawshake128) X(13, shake128) X(14, rawshake256) X(15, shake256)
