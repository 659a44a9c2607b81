/* C13: the one-call forms (buffer, string, stream, several pieces) compute what the incremental form computes. */
#include "common.h"
static int conv_len(size_t n, size_t b) { return n <= 1 || n == b - 9 || n == b - 1 || n == b || n == b + 1 || (sv_tier() && n <= 2 * b + 1); }
static void enc(int a, const u8 *p, size_t n, u8 *o, size_t bits) { if (H[a].xof) ((f_encodex *)H[a].encode)(p, n, o, bits); else ((f_encode *)H[a].encode)(p, n, o); }
static void prim(int a, const u8 *p, size_t n, u8 *o, size_t bits) { void *c = sv_buf(H[a].ctxsz); H[a].init(c); H[a].update(c, p, n); h_digest(a, c, o, bits); sv_free(c); }
static const size_t xbits[] = {0, 8, 13, 256, 1347, 2100};
static void conv(int a) {
    size_t b = ref_bsz(a), max = 2 * b + 2;
    u8 *x = sv_buf(max); sv_bytes(x, max, "msg");
    for (int bi = 0; bi < (H[a].xof ? 6 : 1); bi++) {
        size_t bits = H[a].xof ? xbits[bi] : 8 * ref_dsz(a), d = (bits + 7) / 8;
        for (size_t n = 0; n < max; n++) {
            if (!conv_len(n, b) && !(bi == 0 && n == 40)) continue;
            if (bi > 0 && n > 1) continue;
            u8 *want = sv_buf(d), *o = sv_buf(d);
            sv_case("buffer form: length/output bits", n, bits, 0);
            const u8 *in = sv_cbuf(x, n);
            prim(a, x, n, want, bits); enc(a, in, n, o, bits); sv_eq(o, want, d, "one-call form");
            sv_free((void *)in); sv_free(o);
            /* a string: bytes up to the terminating zero */
            u8 nz[32]; for (int i = 0; i < 32; i++) nz[i] = 0xff; nz[0] = 0xfe;
            u8 *s = sv_buf(n + 1); for (size_t i = 0; i < n; i++) s[i] = sv_char("str", nz); s[n] = 0; sv_const(s);
            o = sv_buf(d);
            sv_case("string form: length/output bits", n, bits, 0);
            prim(a, s, n, want, bits);
            if (H[a].xof) ((f_encodedx *)H[a].encode_d)(s, o, bits); else ((f_encoded *)H[a].encode_d)(s, o);
            sv_eq(o, want, d, "string form"); sv_free(o); sv_free(s); sv_free(want);
        }
        /* several pieces; a null piece is skipped whatever its length says */
        size_t cut[] = {0, 1, b - 1, b};
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
            if (bi > 0 && (i > 1 || j > 1)) continue;
            size_t p = cut[i], q = cut[j]; u8 *want = sv_buf(d), *o = sv_buf(d), *o2 = sv_buf(d), *o0 = sv_buf(d), *w0 = sv_buf(d);
            const u8 *in1 = sv_cbuf(x, p), *in2 = sv_cbuf(x + p, q);
            sv_case("several pieces", p, q, bits);
            prim(a, x, p + q, want, bits); prim(a, x, 0, w0, bits);
            if (H[a].xof) {
                ((f_multix *)H[a].multi)(o, bits, (size_t)2, in1, p, in2, q);
                ((f_multix *)H[a].multi)(o2, bits, (size_t)4, (u8 *)0, (size_t)7, in1, p, (u8 *)0, (size_t)0, in2, q);
                ((f_multix *)H[a].multi)(o0, bits, (size_t)0);
            } else {
                ((f_multi *)H[a].multi)(o, (size_t)2, in1, p, in2, q);
                ((f_multi *)H[a].multi)(o2, (size_t)4, (u8 *)0, (size_t)7, in1, p, (u8 *)0, (size_t)0, in2, q);
                ((f_multi *)H[a].multi)(o0, (size_t)0);
            }
            sv_eq(o, want, d, "several pieces"); sv_eq(o2, want, d, "several pieces with null ones"); sv_eq(o0, w0, d, "no pieces");
            sv_free(o); sv_free(o2); sv_free(o0); sv_free(w0); sv_free(want); sv_free((void *)in1); sv_free((void *)in2);
        }
    }
}
static void big(int a) {
    size_t l[BIGS], bits = H[a].xof ? 264 : 8 * ref_dsz(a), d = bits / 8; int k = big_lengths(l, BIGS, BIGCAP);
    for (int i = 0; i < k; i++) {
        size_t n = l[i]; u8 *s = sv_buf(n + 1), *want = sv_buf(d), *o = sv_buf(d); big_fill(s, n, "str", 1); s[n] = 0; sv_const(s);
        sv_case("long message", n, 0, 0); prim(a, s, n, want, bits);
        if (i % 2 || sv_tier()) { enc(a, s, n, o, bits); sv_eq(o, want, d, "one-call form"); sv_undefined(o, d); }
        if (H[a].xof) ((f_encodedx *)H[a].encode_d)(s, o, bits); else ((f_encoded *)H[a].encode_d)(s, o);
        sv_eq(o, want, d, "string form"); sv_undefined(o, d);
        if (i % 2 || sv_tier()) { if (H[a].xof) ((f_multix *)H[a].multi)(o, bits, (size_t)1, s, n); else ((f_multi *)H[a].multi)(o, (size_t)1, s, n); sv_eq(o, want, d, "several pieces"); sv_undefined(o, d); }
        struct sv_file f = {(const char *)s, n, 0};
        if (H[a].xof) ((f_encodefx *)H[a].encode_f)((FILE *)&f, o, bits); else ((f_encodef *)H[a].encode_f)((FILE *)&f, o);
        sv_eq(o, want, d, "stream form"); sv_free(o); sv_free(want); sv_free(s);
    }
}
#define B(i, n) void job_C13_big_##n(void) { big(i); }
EACH_HASH(B)
static void stream(int a) {
    size_t lens[] = {0, 1, 1023, 1024, 1025, 1151, 2048, 2051}, max = 2051, bits = H[a].xof ? 300 : 8 * ref_dsz(a), d = (bits + 7) / 8;
    u8 *x = sv_buf(max); sv_bytes(x, max, "file");
    for (int i = 0; i < 8; i++) {
        size_t n = lens[i]; if (n > 1500 && a >= 2 && a <= 7 && !sv_tier()) continue;
        u8 *want = sv_buf(d), *o = sv_buf(d);
        struct sv_file f = {(const char *)x, n, 0};
        sv_case("stream of length", n, 0, 0);
        prim(a, x, n, want, bits);
        if (H[a].xof) ((f_encodefx *)H[a].encode_f)((FILE *)&f, o, bits); else ((f_encodef *)H[a].encode_f)((FILE *)&f, o);
        sv_eq(o, want, d, "stream form"); sv_eq64(f.pos, n, "the whole stream was read"); sv_eq64((u64)f.closed, 0, "the stream stays open");
        sv_free(o); sv_free(want);
    }
    /* streams that are not at their beginning, some of them far into a file */
    for (int i = 0; i < 3; i++) {
        u64 n = i == 0 ? 0 : i == 1 ? 70 : 1024;
        u8 *want = sv_buf(d), *o = sv_buf(d); struct sv_file f = {(const char *)x, n, 0, 0, 0, 0, 0, 1, 0};
        sv_case("stream which cannot be read further than", n, 0, 0);
        prim(a, x, n, want, bits);
        if (H[a].xof) ((f_encodefx *)H[a].encode_f)((FILE *)&f, o, bits); else ((f_encodef *)H[a].encode_f)((FILE *)&f, o);
        sv_eq(o, want, d, "what could be read of the stream"); sv_free(o); sv_free(want);
    }
    static const u64 at[] = {0, 1ull << 16, 1ull << 20, 1ull << 24, 1ull << 26, 1ull << 28, 1ull << 30, 1ull << 31, 1ull << 32};
    for (int i = 0; i < 9; i++) {
        u8 *want = sv_buf(d), *o = sv_buf(d); struct sv_file f = {(const char *)x, 1100, 17, at[i] ? at[i] - 1041 : 0};
        sv_case("stream from position", f.base + f.pos, 0, 0);
        prim(a, x + 17, 1083, want, bits);
        if (H[a].xof) ((f_encodefx *)H[a].encode_f)((FILE *)&f, o, bits); else ((f_encodef *)H[a].encode_f)((FILE *)&f, o);
        sv_eq(o, want, d, "rest of the stream"); sv_free(o); sv_free(want);
    }
}
#define J(i, n) void job_C13_##n(void) { conv(i); }
EACH_HASH(J)
#define S(i, n) void job_C13_stream_##n(void) { stream(i); }
EACH_HASH(S)
