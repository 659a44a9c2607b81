/* C25: a result may be written over the buffers it was computed from, and be the input of the next computation. */
#include "common.h"
#include "libpgfe/fishes/blowfish.h"
static size_t lens(size_t b, size_t d, size_t l[16]) { int k = 0; size_t c[] = {0, 1, d - 1, d, d + 1, b - 1, b, b + 3, 2 * b + 1}; for (int i = 0; i < 9; i++) { int seen = 0; for (int j = 0; j < k; j++) if (l[j] == c[i]) seen = 1; if (!seen) l[k++] = c[i]; } return (size_t)k; }
/* bytes that hold `n` of the message at `at`, filled otherwise with bytes of their own */
static u8 *holding(const u8 *msg, size_t n, size_t at, size_t size) { u8 *p = sv_buf(size); for (size_t i = 0; i < size; i++) p[i] = (u8)(0xa5 ^ i); for (size_t i = 0; i < n; i++) p[at + i] = msg[i]; return p; }
static void hash(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), l[16], k = lens(b, d, l); u8 *msg = sv_buf(2 * b + 1), *want = sv_buf(d); sv_bytes(msg, 2 * b + 1, "msg"); sv_const(msg);
    for (size_t i = 0; i < k; i++) for (size_t where = 0; where < 3; where++) {
        /* the digest over the start of the message, over its end, and over an end that reaches one byte past it */
        size_t n = l[i], at = 0, size = n > d ? n : d; if (where && n < d) continue; if (where) at = n - d + where - 1; if (where == 2) size = n + 1;
        sv_case("message length/place of the digest", n, at, 0); ref_hash(a, msg, n, want, 8 * d);
        u8 *p = holding(msg, n, 0, size); if (H[a].xof) ((f_encodex *)H[a].encode)(p, n, p + at, 8 * d); else ((f_encode *)H[a].encode)(p, n, p + at);
        sv_eq(p + at, want, d, "digest over the message"); for (size_t j = 0; j < size; j++) if (j < at || j >= at + d) { u8 e = j < n ? msg[j] : (u8)(0xa5 ^ j); sv_eq64(p[j], e, "byte beside the digest"); } sv_free(p);
        p = holding(msg, n, 0, size); void *ctx = sv_buf(H[a].ctxsz); H[a].init(ctx); H[a].update(ctx, p, n / 3); H[a].update(ctx, p + n / 3, n - n / 3); h_digest(a, ctx, p + at, 8 * d); sv_eq(p + at, want, d, "incremental digest over the message"); sv_free(ctx); sv_free(p);
        if (where) continue;
        p = holding(msg, n, 0, size); size_t h = n / 2; if (H[a].xof) ((f_multix *)H[a].multi)(p, 8 * d, 2, p, h, p + h, n - h); else ((f_multi *)H[a].multi)(p, 2, p, h, p + h, n - h); sv_eq(p, want, d, "digest of the pieces over the pieces"); sv_free(p);
        if (n > b) continue;
        static const u8 nz[32] = {0xfe, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255};
        size = n + 1 > d ? n + 1 : d; p = sv_buf(size); u8 *t = sv_buf(n + 1); for (size_t j = 0; j < n; j++) t[j] = p[j] = sv_char("text", nz); for (size_t j = n; j < size; j++) p[j] = 0; ref_hash(a, t, n, want, 8 * d);
        if (H[a].xof) ((f_encodedx *)H[a].encode_d)(p, p, 8 * d); else ((f_encoded *)H[a].encode_d)(p, p); sv_eq(p, want, d, "digest over the text"); sv_free(p); sv_free(t);
    }
    /* iterated: each round's message is the digest before it */
    for (int form = 0; form < 3; form++) {
        size_t n = b + 3; u8 *p = holding(msg, n, 0, n), *w = sv_buf(n), *o = sv_buf(d); for (size_t j = 0; j < n; j++) w[j] = msg[j]; sv_case("rounds, form", (u64)form, 0, 0);
        void *ctx = sv_buf(H[a].ctxsz);
        for (int r = 0; r < 4; r++) {
            ref_hash(a, w, n, o, 8 * d); for (size_t j = 0; j < d; j++) w[j] = o[j];
            if (form == 0) { if (H[a].xof) ((f_encodex *)H[a].encode)(p, n, p, 8 * d); else ((f_encode *)H[a].encode)(p, n, p); }
            else { H[a].init(ctx); if (form == 1) H[a].update(ctx, p, n); else for (size_t j = 0; j < n; j += 7) H[a].update(ctx, p + j, n - j < 7 ? n - j : 7); h_digest(a, ctx, p, 8 * d); }
            n = r == 1 ? n : d; sv_eq(p, w, n, "digest of a round");
        }
        sv_free(p); sv_free(w); sv_free(o); sv_free(ctx);
    }
    if (H[a].xof) { static const u64 bits[] = {1, 9, 64, 1000, 2690}; for (int i = 0; i < 5; i++) {
        size_t m = (size_t)((bits[i] + 7) / 8), n = b + 3, size = m > n ? m : n; u8 *p = holding(msg, n, 0, size), *w = sv_buf(m); sv_case("bits of output over the message", bits[i], 0, 0);
        ref_hash(a, msg, n, w, 8 * m); if (bits[i] % 8) w[m - 1] &= (u8)((1 << bits[i] % 8) - 1); ((f_encodex *)H[a].encode)(p, n, p, bits[i]); sv_eq(p, w, m, "output over the message"); sv_free(p); sv_free(w); } }
}
#define J(i, n) void job_C25_##n(void) { hash(i); }
EACH_HASH(J)
#undef J
static void mac(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), kl[] = {0, 1, d, b, b + 1, 2 * b + 1}, ml[] = {0, d, b + 3}; u8 *key = sv_buf(2 * b + 1), *msg = sv_buf(2 * b + 1), *want = sv_buf(d); sv_bytes(key, 2 * b + 1, "key"); sv_bytes(msg, 2 * b + 1, "msg"); sv_const(key); sv_const(msg);
    for (int i = 0; i < 6; i++) for (int j = 0; j < 3; j++) {
        size_t n = kl[i], m = ml[j]; if (i != 2 && i != 4 && j != 1 && !sv_tier()) continue;
        ref_hmac(a, key, n, msg, m, want); sv_case("keyed digest over its inputs: key/message length", n, m, 0);
        for (int over = 0; over < 2; over++) for (int form = 0; form < 3; form++) {
            u8 *k = holding(key, n, 0, n > d ? n : d), *x = holding(msg, m, 0, m > d ? m : d), *out = over ? k : x; void *ctx = sv_buf(MA[a].ctxsz);
            if (form == 0) MA[a].oneshot(k, n, x, m, out); else if (form == 1) pgfe_hmac((enum pgfe_algorithm_choice)ALG[a], k, n, x, m, out); else { MA[a].init(ctx); MA[a].set_key(ctx, k, n); MA[a].update(ctx, x, m); MA[a].digest(ctx, out); }
            sv_eq(out, want, d, over ? "keyed digest over the key" : "keyed digest over the message");
            if (over) sv_eq(x, msg, m, "message"); else sv_eq(k, key, n, "key");
            sv_free(k); sv_free(x); sv_free(ctx);
        }
        /* the key is the message, and the digest replaces both */
        u8 *p = holding(key, n, 0, n > d ? n : d); ref_hmac(a, key, n, key, n, want); MA[a].oneshot(p, n, p, n, p); sv_eq(p, want, d, "keyed digest over key and message"); sv_free(p);
    }
    /* chains: the next message, or the next key, is the last digest */
    for (int form = 0; form < 3; form++) {
        u8 *p = holding(msg, d, 0, d), *w = sv_buf(d), *o = sv_buf(d), *k = sv_buf(d); void *ctx = sv_buf(MA[a].ctxsz); for (size_t j = 0; j < d; j++) w[j] = msg[j]; sv_case("rounds, form", (u64)form, 0, 0);
        MA[a].init(ctx);
        for (int r = 0; r < 4; r++) {
            if (form == 2) ref_hmac(a, w, d, msg, 9, o); else ref_hmac(a, key, 20, w, d, o);
            for (size_t j = 0; j < d; j++) w[j] = o[j];
            if (form == 0) MA[a].oneshot(key, 20, p, d, p); else if (form == 1) { MA[a].set_key(ctx, key, 20); MA[a].update(ctx, p, d); MA[a].digest(ctx, p); } else { MA[a].set_key(ctx, p, d); MA[a].update(ctx, msg, 9); MA[a].digest(ctx, p); }
            sv_eq(p, w, d, "keyed digest of a round");
        }
        sv_free(p); sv_free(w); sv_free(o); sv_free(k); sv_free(ctx);
    }
}
#define J(i, n) void job_C25_hmac_##n(void) { mac(i); }
EACH_MAC(J)
#undef J
void job_C25_blowfish(void) {
    struct pgfe_blowfish_ctx *c = sv_buf(sizeof *c); sv_bytes(c, sizeof *c, "schedule"); sv_const(c);
    for (size_t n = 0; n <= 33; n++) for (int dec = 0; dec < 2; dec++) {
        if (n > 9 && n % 8 > 1 && n % 8 < 7 && !sv_tier()) continue;
        size_t m = (n + 7) / 8 * 8; u8 *x = sv_buf(m), *w = sv_buf(m), *p = sv_buf(m); sv_bytes(x, n, "text"); for (size_t i = n; i < m; i++) x[i] = 0;
        for (size_t i = 0; i < n; i++) p[i] = x[i]; for (size_t i = n; i < m; i++) p[i] = (u8)(0xa5 ^ i);
        for (size_t b = 0; b < m; b += 8) {
            u32 L = 0, R = 0; for (int i = 0; i < 4; i++) { L = L << 8 | x[b + i]; R = R << 8 | x[b + 4 + i]; }
            if (dec) ref_bf_dec(c->P, (const u32(*)[256])c->S, &L, &R); else ref_bf_enc(c->P, (const u32(*)[256])c->S, &L, &R);
            for (int i = 0; i < 4; i++) { w[b + i] = (u8)(L >> (24 - 8 * i)); w[b + 4 + i] = (u8)(R >> (24 - 8 * i)); }
        }
        sv_case("in place: length/decrypting", n, (u64)dec, 0);
        sv_eq64((dec ? pgfe_blowfish_decrypt : pgfe_blowfish_encrypt)(c, p, n, p), m, "padded length"); sv_eq(p, w, m, "result over the text");
        sv_eq64((dec ? pgfe_blowfish_encrypt : pgfe_blowfish_decrypt)(c, p, m, p), m, "length after the round trip"); sv_eq(p, x, m, "text after the round trip");
        sv_free(x); sv_free(w); sv_free(p);
    }
}
