/* C08: Base16/32/64 encoding is RFC 4648; C09: decoding recovers the bytes. */
#include "common.h"
#include "libpgfe/base_encoding/base16.h"
#include "libpgfe/base_encoding/base32.h"
#include "libpgfe/base_encoding/base64.h"
static size_t r16(const u8 *i, size_t n, char *o) { return ref_b16(i, n, o); }
static size_t r32(const u8 *i, size_t n, char *o) { return ref_b32(i, n, o, 0); }
static size_t r32h(const u8 *i, size_t n, char *o) { return ref_b32(i, n, o, 1); }
typedef size_t encf(const u8 *, size_t, char *); typedef size_t decf(const char *, u8 *);
static const struct codec { encf *enc; decf *dec; encf *ref; int bits, group, unit; const char *alpha; int fold; } CD[5] = {
    {pgfe_encode_base16, pgfe_decode_base16, r16, 4, 2, 1, "0123456789ABCDEF", 1},
    {pgfe_encode_base32, pgfe_decode_base32, r32, 5, 8, 5, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 1},
    {pgfe_encode_base32hex, pgfe_decode_base32hex, r32h, 5, 8, 5, "0123456789ABCDEFGHIJKLMNOPQRSTUV", 1},
    {pgfe_encode_base64, pgfe_decode_base64, ref_b64, 6, 4, 3, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 0},
    {pgfe_encode_base64_url, pgfe_decode_base64, ref_b64url, 6, 4, 3, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 0}};

static void encode(int k) {
    size_t max = sv_tier() ? 1100 : 300;
    u8 *x = sv_buf(max); sv_bytes(x, max, "bytes");
    for (size_t n = 0; n <= max; n++) {
        if (n > (sv_tier() ? 70u : 22u) && !(n >= 252 && n <= 260) && !(sv_tier() && n >= 1020 && n <= 1030)) continue;
        size_t len = (n * 8 + (size_t)CD[k].bits - 1) / (size_t)CD[k].bits, g = (size_t)CD[k].group; len = (len + g - 1) / g * g;
        sv_case("length", n, 0, 0);
        const u8 *in = sv_cbuf(x, n); char *out = sv_buf(len + 1), *want = sv_buf(len + 1);
        size_t got = CD[k].enc(in, n, out);
        CD[k].ref(x, n, want);
        sv_eq64(got, len, "length of the encoding"); sv_eq(out, want, len + 1, "encoding");
        sv_free((void *)in); sv_free(out); sv_free(want);
    }
}
static void encode_big(int k) {
    size_t l[BIGS]; int c = big_lengths(l, BIGS, BIGCAP);
    for (int i = 0; i < c; i++) for (int t = 0; t < 2; t++) { /* so many bytes; as many bytes as give so many characters */
        size_t n = t ? l[i] * (size_t)CD[k].bits / 8 : l[i], g = (size_t)CD[k].group, len = ((n * 8 + (size_t)CD[k].bits - 1) / (size_t)CD[k].bits + g - 1) / g * g;
        u8 *in = sv_buf(n); char *out = sv_buf(len + 1), *want = sv_buf(len + 1); big_fill(in, n, "bytes", 0); sv_const(in);
        sv_case("length", n, 0, 0);
        size_t got = CD[k].enc(in, n, out); CD[k].ref(in, n, want); sv_eq64(got, len, "length of the encoding"); sv_eq(out, want, len + 1, "encoding");
        sv_free(in); sv_free(out); sv_free(want);
    }
}
void job_C08_big_base16(void) { encode_big(0); }
void job_C08_big_base32(void) { encode_big(1); }
void job_C08_big_base32hex(void) { encode_big(2); }
void job_C08_big_base64(void) { encode_big(3); }
void job_C08_big_base64url(void) { encode_big(4); }
void job_C08_base16(void) { encode(0); }
void job_C08_base32(void) { encode(1); }
void job_C08_base32hex(void) { encode(2); }
void job_C08_base64(void) { encode(3); }
void job_C08_base64url(void) { encode(4); }

static u8 val[256];
static void put(u8 *set, int c) { set[c / 8] |= (u8)(1 << c % 8); }
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* the set of characters whose value has its low `zero` bits clear; vals gets every value */
static void alphabet(int k, int zero, u8 set[32]) {
    memset(set, 0, 32);
    for (int i = 0; i < 1 << CD[k].bits; i++) if (i % (1 << zero) == 0) {
        int c = CD[k].alpha[i]; put(set, c); val[c] = (u8)i;
        if (CD[k].fold) { put(set, lower(c)); val[lower(c)] = (u8)i; }
    }
}
/* characters outside the alphabet, which decoding skips */
static void junkset(int k, u8 set[32]) {
    memset(set, 0, 32);
    for (int c = 1; c < 256; c++) {
        int in = c == '=' || (CD[k].bits == 6 && (c == '+' || c == '/' || c == '-' || c == '_'));
        for (int i = 0; i < 1 << CD[k].bits; i++) if (CD[k].alpha[i] == c || (CD[k].fold && lower(CD[k].alpha[i]) == c)) in = 1;
        if (!in) put(set, c);
    }
}
/* n bytes as m characters; how: 0 padded, 1 unpadded; junk inserted before character j (j > m: none) */
static void decode1(int k, size_t n, int how, size_t j) {
    size_t bits = (size_t)CD[k].bits, m = (n * 8 + bits - 1) / bits, g = (size_t)CD[k].group, t = (m + g - 1) / g * g;
    u8 set[32], lastset[32], junk[32]; alphabet(k, 0, set); alphabet(k, (int)(m * bits - n * 8), lastset); alphabet(k, 0, set); junkset(k, junk);
    char *s = sv_buf(t + 2); u8 *want = sv_buf(n), *out = sv_buf(n + 1); size_t l = 0; u64 acc = 0; size_t have = 0, o = 0;
    for (size_t i = 0; i < t; i++) {
        if (i == j) s[l++] = (char)sv_char("junk", junk);
        if (i >= m) { if (!how) s[l++] = '='; continue; }
        u8 c = t > 300 && i + 9 < m ? (u8)CD[k].alpha[(i * 7 + i / 64) % (1u << bits)] : sv_char("char", i == m - 1 ? lastset : set); s[l++] = (char)c;
        acc = acc << bits | val[c]; have += bits;
        if (have >= 8) { have -= 8; want[o++] = (u8)(acc >> have); acc &= (1u << have) - 1; }
    }
    if (j == t) s[l++] = (char)sv_char("junk", junk);
    s[l] = 0; sv_const(s);
    sv_case("bytes/unpadded/junk at", n, (u64)how, j);
    size_t got = CD[k].dec(s, out);
    sv_eq64(got, n, "decoded length"); sv_eq(out, want, n, "decoded bytes");
    sv_free(s); sv_free(want); sv_free(out);
}
static void decode_big(int k) {
    size_t l[BIGS]; int c = big_lengths(l, BIGS, BIGCAP);
    for (int i = 0; i < c; i++) { decode1(k, l[i], i % 2, 1u << 30); decode1(k, l[i] * (size_t)CD[k].bits / 8, 1, 1u << 30); }
}
void job_C09_big_base16(void) { decode_big(0); }
void job_C09_big_base32(void) { decode_big(1); }
void job_C09_big_base32hex(void) { decode_big(2); }
void job_C09_big_base64(void) { decode_big(3); }
void job_C09_big_base64url(void) { decode_big(4); }
static void decode(int k) {
    size_t top = 2 * (size_t)CD[k].unit + 2;
    for (size_t n = 0; n <= top; n++) for (int how = 0; how < 2; how++) {
        decode1(k, n, how, 1000);
        size_t bits = (size_t)CD[k].bits, m = (n * 8 + bits - 1) / bits, g = (size_t)CD[k].group, t = (m + g - 1) / g * g;
        for (size_t j = 0; j <= t; j++) if (!(how && j > m && j < t)) decode1(k, n, how, j);
    }
    for (size_t n = 252; n <= 258; n++) decode1(k, n, 0, 1000);
    if (sv_tier()) for (size_t n = top; n <= 80; n++) decode1(k, n, (int)(n & 1), 1000);
}
void job_C09_base16(void) { decode(0); }
void job_C09_base32(void) { decode(1); }
void job_C09_base32hex(void) { decode(2); }
void job_C09_base64(void) { decode(3); }
void job_C09_base64url(void) { decode(4); }

/* decode(encode(x)) == x follows: C08 gives the encoding of every x exactly, and the jobs above decode every string of
   that form, for each group position and every choice of characters */

/* strings over {data, '=', other}: the output fits the space the characters can fill */
static void decode_any(int k) {
    u8 set[32], junk[32], pad[32] = {0}; alphabet(k, 0, set); junkset(k, junk); put(pad, '=');
    size_t top = sv_tier() ? 7 : 5;
    for (size_t m = 0; m <= top; m++) {
        unsigned total = 1; for (size_t i = 0; i < m; i++) total *= 3;
        for (unsigned w = 0; w < total; w++) {
            unsigned v = w; char *s = sv_buf(m + 1);
            for (size_t i = 0; i < m; i++) { s[i] = (char)sv_char("char", v % 3 == 0 ? set : v % 3 == 1 ? pad : junk); v /= 3; }
            s[m] = 0; sv_const(s);
            size_t cap = m * (size_t)CD[k].bits / 8 + 1; u8 *out = sv_buf(cap);
            sv_case("characters/pattern", m, w, 0);
            size_t n = CD[k].dec(s, out);
            sv_true(n < cap, "decoded length within bounds"); sv_defined(out, n, "decoded bytes");
            sv_free(s); sv_free(out);
        }
    }
}
void job_C01_decode16(void) { decode_any(0); }
void job_C01_decode32(void) { decode_any(1); }
void job_C01_decode32hex(void) { decode_any(2); }
void job_C01_decode64(void) { decode_any(3); }
