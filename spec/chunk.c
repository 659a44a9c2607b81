/* C02: how a message is cut into update calls does not matter. For every amount of data already buffered and every
   interesting size of the next piece, the digest equals the digest of the concatenation fed in one call. */
#include "common.h"
#include "counter.h"

static int fill_in(size_t f, size_t b) { /* quick tier: a spread of fill levels; thorough: all */
    if (sv_tier()) return 1;
    if (f <= 1 || f >= b - 1) return 1;
    for (int i = 0; i < sv_nthresh(); i++) { uint64_t t = sv_thresh(i); if (t < b && (f + 1 == t || f == t || f == t + 1)) return 1; }
    return f % (b > 80 ? 13 : 7) == 0 || f == b / 2 || f == b / 2 + 1 || f == b - 8 || f == b - 16;
}
/* digest of pieces x[0..f) x[f..f+c) x[f+c..n) */
static void pieces(int a, const u8 *x, size_t f, size_t c, size_t n, int split, u8 *out) {
    void *ctx = sv_buf(H[a].ctxsz);
    H[a].init(ctx);
    if (!split) H[a].update(ctx, x, n);
    else {
        const u8 *p = sv_cbuf(x, f), *q = sv_cbuf(x + f, c), *r = sv_cbuf(x + f + c, n - f - c);
        H[a].update(ctx, p, f); sv_free((void *)p);      /* the library must not keep a reference */
        H[a].update(ctx, q, c); sv_free((void *)q);
        H[a].update(ctx, r, n - f - c); sv_free((void *)r);
    }
    h_digest(a, ctx, out, 8 * ref_dsz(a));
    sv_free(ctx);
}
static void chunks(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), max = 4 * b;
    u8 *x = sv_buf(max); sv_bytes(x, max, "msg");
    for (size_t f = 0; f < b; f++) {
        if (!fill_in(f, b)) continue;
        size_t r = b - f, c[] = {0, 1, r - 1, r, r + 1, r + b - 1, r + b, r + b + 1};
        for (unsigned i = 0; i < sizeof c / sizeof *c; i++) {
            int dup = 0; for (unsigned j = 0; j < i; j++) dup |= c[j] == c[i];
            if (dup) continue;
            for (int t = 0; t < 2; t++) {
                if (t && !(sv_tier() || i == 3 || f == 1)) continue;
                size_t n = f + c[i] + (t ? b : (i + f) % 3);
                u8 *o1 = sv_buf(d), *o2 = sv_buf(d);
                sv_case("fill/piece/total", f, c[i], n);
                pieces(a, x, f, c[i], n, 1, o1); pieces(a, x, f, c[i], n, 0, o2);
                sv_eq(o1, o2, d, "digest of pieces vs whole");
                sv_free(o1); sv_free(o2);
            }
        }
    }
    /* one byte at a time, and growing pieces, over several blocks */
    for (int t = 0; t < 2; t++) {
        size_t n = 2 * b + 3, i = 0, s = 1;
        void *ctx = sv_buf(H[a].ctxsz); u8 *o1 = sv_buf(d), *o2 = sv_buf(d);
        sv_case(t ? "growing pieces" : "single bytes", n, 0, 0);
        H[a].init(ctx);
        while (i < n) { if (i + s > n) s = n - i; H[a].update(ctx, x + i, s); i += s; if (t) s++; H[a].update(ctx, x + i, 0); }
        h_digest(a, ctx, o1, 8 * d);
        pieces(a, x, 0, 0, n, 0, o2);
        sv_eq(o1, o2, d, "digest of many pieces vs whole");
        sv_free(ctx); sv_free(o1); sv_free(o2);
    }
}
#define J(i, n) void job_C02_##n(void) { chunks(i); }
EACH_HASH(J)

/* long pieces: before, between and after short ones */
static void big(int a) {
    size_t l[BIGS], d = ref_dsz(a); int k = big_lengths(l, BIGS, BIGCAP);
    for (int i = 0; i < k; i++) for (int t = 0; t < 3; t++) {
        if (t != 1 && i % 2 && !sv_tier()) continue;
        size_t f = t ? 3 : 0, n = f + l[i] + (t < 2 ? 5 : 0); u8 *x = sv_buf(n), *o1 = sv_buf(d), *o2 = sv_buf(d); big_fill(x, n, "msg", 0);
        sv_case("fill/piece/total", f, l[i], n);
        pieces(a, x, f, l[i], n, 1, o1); pieces(a, x, f, l[i], n, 0, o2); sv_eq(o1, o2, d, "digest of pieces vs whole");
        sv_free(o1); sv_free(o2); sv_free(x);
    }
}
#define B(i, n) void job_C02_big_##n(void) { big(i); }
EACH_HASH(B)

/* the same for keyed digests: key block and message share the hash context */
static void mac_chunks(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), max = 3 * b;
    u8 *x = sv_buf(max), *k = sv_buf(20); sv_bytes(x, max, "msg"); sv_bytes(k, 20, "key");
    size_t fs[] = {0, 1, b / 2, b - 1, b};
    for (int fi = 0; fi < 5; fi++) for (int ci = 0; ci < 5; ci++) {
        size_t f = fs[fi], cs[] = {0, 1, b - f % b - 1, b - f % b, b + 1}, c = cs[ci], n = f + c + 2;
        u8 *o1 = sv_buf(d), *o2 = sv_buf(d); void *c1 = sv_buf(MA[a].ctxsz), *c2 = sv_buf(MA[a].ctxsz);
        sv_case("fill/piece/total", f, c, n);
        MA[a].init(c1); MA[a].set_key(c1, k, 20);
        const u8 *p = sv_cbuf(x, f), *q = sv_cbuf(x + f, c);
        MA[a].update(c1, p, f); sv_free((void *)p); MA[a].update(c1, q, c); sv_free((void *)q); MA[a].update(c1, x + f + c, 2);
        MA[a].digest(c1, o1);
        MA[a].init(c2); MA[a].set_key(c2, k, 20); MA[a].update(c2, x, n); MA[a].digest(c2, o2);
        sv_eq(o1, o2, d, "keyed digest of pieces vs whole");
        sv_free(c1); sv_free(c2); sv_free(o1); sv_free(o2);
    }
}
#define K(i, n) void job_C02_hmac_##n(void) { mac_chunks(i); }
EACH_MAC(K)

/* the same far into a long message: the length counter inside the context starts next to a word boundary */
static void long_chunks(int a) {
    static const u64 around[] = {1ull << 28, 1ull << 29, 1ull << 32, 1ull << 60, 1ull << 61};
    size_t b = ref_bsz(a), d = ref_dsz(a), csz = H[a].ctxsz, off = 0; int w, bits = 0;
    u8 *x = sv_buf(5 * b); sv_bytes(x, 5 * b, "msg");
    w = find_counter(a, x, &off, &bits);
    sv_case("length counter: offset/width/unit shift", off, (u64)w, (u64)bits);
    if (!w) return;
    size_t cut[][4] = {{b, 2 * b, 5, 0}, {2 * b, b, b, 0}, {5, b - 5, 2 * b, 5}, {b - 1, 1, b, b + 7}, {b, 1, b - 1, b}, {3 * b, 9, 0, 0}, {9, 3 * b, 0, 1}};
    for (size_t i = 0; i < sizeof around / sizeof *around; i++) for (u64 before = 1; before <= 2; before++) {
        if (a >= R_SHA1 && a <= R_SHA256 && around[i] >= 1ull << 61) continue;
        u64 extra = around[i] - before * b;
        if (w == 4 && (extra << bits) >> 32) continue;
        for (unsigned k = 0; k < sizeof cut / sizeof *cut; k++) {
            u8 *c1 = sv_buf(csz), *c2 = sv_buf(csz), *o1 = sv_buf(d), *o2 = sv_buf(d); size_t n = 0;
            sv_case("bytes before/pieces", extra, k, 0);
            H[a].init(c1); store(c1 + off, extra << bits, w); H[a].init(c2); store(c2 + off, extra << bits, w);
            for (int p = 0; p < 4; p++) { H[a].update(c1, x + n, cut[k][p]); n += cut[k][p]; }
            H[a].update(c2, x, n);
            h_digest(a, c1, o1, 8 * d); h_digest(a, c2, o2, 8 * d);
            sv_eq(o1, o2, d, "digest of pieces vs whole, long message");
            sv_free(c1); sv_free(c2); sv_free(o1); sv_free(o2);
        }
    }
}
#define L(i, n) void job_C02_long_##n(void) { long_chunks(i); }
L(0, md5) L(1, sha1) L(2, sha224) L(3, sha256) L(4, sha384) L(5, sha512) L(6, sha512_224) L(7, sha512_256)
