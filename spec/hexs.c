/* C10: hexadecimal conversions. */
#include "common.h"
static const char DIG[] = "0123456789abcdef";
static u8 val[256]; static u8 hexset[32], other[32], notx[32];
static void put(u8 *set, int c) { set[c / 8] |= (u8)(1 << c % 8); }
static void init(void) {
    for (int c = 1; c < 256; c++) { put(other, c); put(notx, c); }
    for (int i = 0; i < 16; i++) {
        int c = DIG[i], C = c >= 'a' ? c - 32 : c; put(hexset, c); put(hexset, C); val[c] = val[C] = (u8)i;
        other[c / 8] &= (u8)~(1 << c % 8); other[C / 8] &= (u8)~(1 << C % 8);
    }
    memcpy(notx, other, 32); notx['x' / 8] &= (u8)~(1 << 'x' % 8); notx['X' / 8] &= (u8)~(1 << 'X' % 8);
}
static void to(size_t n) {
        u8 *x = sv_buf(n); if (n > 300) big_fill(x, n, "bytes", 0); else sv_bytes(x, n, "bytes"); sv_const(x);
        char *out = sv_buf(2 * n + 1), *want = sv_buf(2 * n + 1);
        for (size_t i = 0; i < n; i++) { want[2 * i] = DIG[x[i] >> 4]; want[2 * i + 1] = DIG[x[i] & 15]; }
        want[2 * n] = 0;
        sv_case("bytes", n, 0, 0);
        sv_eq64(pgfe_hash_to_hex_string(x, n, out), 2 * n, "length of the hexadecimal form"); sv_eq(out, want, 2 * n + 1, "hexadecimal form");
        sv_stdout_n = 0; pgfe_print_hash(x, n);
        if (2 * n <= SV_STDOUT) { sv_eq64(sv_stdout_n, 2 * n, "printed length"); sv_eq(sv_stdout, want, 2 * n, "printed form"); }
        sv_free(x); sv_free(out); sv_free(want);
}
void job_C10_to_hex(void) {
    for (size_t n = 0; n <= 70; n++) {
        if (n > 4 && n != 16 && n != 20 && n != 32 && n < 64 && !sv_tier()) continue;
        to(n);
    }
}
/* digits d, other characters at the positions in mask; prefix 0x / 0X optional */
static void from(size_t d, int prefix, unsigned mask, size_t slots) {
    char *s = sv_buf(d + slots + 3); u8 *want = sv_buf((d + 1) / 2), *out = sv_buf((d + 1) / 2); size_t l = 0, seen = 0; u8 cur = 0; size_t o = 0;
    char *digits = sv_buf(d + 1), *clean = sv_buf(d + 1), *inplace;
    if (prefix) { s[l++] = '0'; s[l++] = prefix == 1 ? 'x' : 'X'; }
    for (size_t i = 0; i <= d; i++) {
        if (i < 32 && (mask >> i & 1)) s[l++] = (char)sv_char("other", l == 1 ? notx : other);
        if (i == d) break;
        u8 c = d > 300 && i + 9 < d ? (u8)"0123456789abcdefABCDEF"[(i * 7 + i / 64) % 22] : sv_char("digit", hexset); s[l++] = (char)c; digits[i] = (char)c;
        cur = (u8)(cur << 4 | val[c]); seen++;
        if ((d - seen) % 2 == 0) { want[o++] = cur; cur = 0; }
    }
    s[l] = 0; digits[d] = 0; inplace = sv_buf(l + 1); memcpy(inplace, s, l + 1); sv_const(s);
    sv_case("digits/prefix/others", d, (u64)prefix, mask);
    sv_eq64(pgfe_hex_string_to_hash(s, out), (d + 1) / 2, "number of bytes"); sv_eq(out, want, (d + 1) / 2, "bytes of the hexadecimal form");
    u64 mk = sv_mark();
    sv_eq64(pgfe_hash_length(s), (d + 1) / 2, "hash length"); sv_noleak(mk, "pgfe_hash_length");
    if (prefix || 1) {
        char *big = sv_buf(l + 1);
        sv_eq64(pgfe_hash_string_clean(s, big), d, "length of the cleaned string"); sv_eq(big, digits, d + 1, "cleaned string");
        sv_eq64(pgfe_hash_string_clean_(inplace), d, "length of the string cleaned in place"); sv_eq(inplace, digits, d + 1, "string cleaned in place");
        sv_free(big);
    }
    sv_free(s); sv_free(want); sv_free(out); sv_free(digits); sv_free(clean); sv_free(inplace);
}
void job_C10_big(void) {
    size_t l[BIGS]; int k = big_lengths(l, BIGS, BIGCAP); init();
    for (int i = 0; i < k; i++) { if (l[i] < 20000 || sv_tier()) from(l[i], i % 3, 0, 0); from(l[i], 0, 0, 0); to(l[i]); to(l[i] / 2); }
}
void job_C10_from_hex(void) {
    init();
    for (int p = 0; p < 3; p++) for (size_t d = 0; d <= 40; d++) { if (d > 9 && d < 39 && !sv_tier()) continue; from(d, p, 0, 0); }
    for (int p = 0; p < 3; p++) for (size_t d = 0; d <= 6; d++) for (unsigned m = 1; m < 2u << d; m++) { if (d > 4 && !sv_tier() && m % 5) continue; from(d, p, m, d + 1); }
    for (int p = 0; p < 3; p++) for (size_t d = 127; d <= 129; d++) from(d, p, 0, 0);
}
/* round trip: bytes to text and back */
void job_C10_round(void) {
    u8 any[32]; memset(any, 0xff, 32);
    for (size_t n = 0; n <= 24; n++) {
        u8 *x = sv_buf(n), *y = sv_buf(n); char *s = sv_buf(2 * n + 1); for (size_t i = 0; i < n; i++) x[i] = sv_char("byte", any); sv_const(x);
        sv_case("bytes", n, 0, 0);
        pgfe_hash_to_hex_string(x, n, s); sv_eq64(pgfe_hex_string_to_hash(s, y), n, "number of bytes after the round trip"); sv_eq(y, x, n, "bytes after the round trip");
    }
}
