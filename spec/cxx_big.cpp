// Objects given inputs beyond the sizes spelt out elsewhere: at every constant the library compares a number with.
#include "cxx.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/utils.hpp"
static size_t L[BIGS]; static int lengths() { return big_lengths(L, BIGS, BIGCAP); }
static const char *big_text(size_t n) { u8 *p = buf(n + 1); big_fill(p, n, "char", 1); p[n] = 0; sv_const(p); return (const char *)p; }
static const int QUICK[4] = {R_MD5, R_SHA1, R_SHA3_256, R_SHAKE128};
extern "C" void job_C12_big_hash(void) {
    int k = lengths();
    for (int ai = 0; ai < 16; ai++) { int q = 0; for (int j = 0; j < 4; j++) q |= QUICK[j] == ai; if (!q && !sv_tier()) continue;
        size_t d = H[ai].xof ? (ai < R_RAWSHAKE256 ? 32 : 64) : ref_dsz(ai); u8 *want = buf(d);
        for (int i = 0; i < k; i++) { size_t n = L[i]; const char *t = big_text(n); sv_case("hash object, algorithm/bytes", (u64)ai, n, 0); ref_hash(ai, (const u8 *)t, n, want, 8 * d);
            HashEncoder h(alg(ai)); h.update((const u8 *)t, 3); h.get_digest(); h.reset();
            if (i % 2) h.update(t); else h.update((const u8 *)t, n); same(h.get_digest(), want, d, "digest of the object"); h.reset();
            std::string s(t, n); if (i % 2) { SequentialData sd(s); h.update(sd); } else h.update(s); same(h.get_digest(), want, d, "digest of a string or data"); }
        sv_free(want); }
}
extern "C" void job_C12_big_hmac(void) {
    int k = lengths();
    for (int ai = 0; ai < 12; ai++) { int q = 0; for (int j = 0; j < 4; j++) q |= QUICK[j] == ai; if (!q && !sv_tier()) continue;
        size_t d = ref_dsz(ai); u8 *want = buf(d);
        for (int i = 0; i < k; i++) { size_t n = L[i]; const char *t = big_text(n); sv_case("keyed object, algorithm/key bytes", (u64)ai, n, 0); std::string s(t, n); SequentialData sd(s); ref_hmac(ai, (const u8 *)t, n, (const u8 *)t, 7, want);
            { HMACEncoder h(alg(ai), (const u8 *)t, n); h.update((const u8 *)t, 7); same(h.get_digest(), want, d, "keyed digest"); }
            { std::unique_ptr<HMACEncoder> hp(i % 2 ? new HMACEncoder(alg(ai), t) : new HMACEncoder(alg(ai), s)); hp->update((const u8 *)t, 7); same(hp->get_digest(), want, d, "keyed digest"); }
            ref_hmac(ai, (const u8 *)t, 7, (const u8 *)t, n, want);
            HMACEncoder h(alg(ai), (const u8 *)t, 7); if (i % 2) h.update(sd); else h.update(s); same(h.get_digest(), want, d, "keyed digest of a long message"); }
        sv_free(want); }
}
static void base_big(AbstractBaseEncoding &c, int k) {
    int m = lengths(); size_t bits = (size_t)CD[k].bits;
    for (int i = 0; i < m; i++) for (int t = 0; t < 2; t++) { // so many bytes; as many as make so many characters
        size_t n = t ? L[i] * bits / 8 : L[i], e = enclen(k, n); const char *x = big_text(n); char *want = (char *)sv_buf(e + 1); sv_case("encoding object, bytes", n, 0, 0);
        CD[k].ref((const u8 *)x, n, want); sames(t ? c.encode(x) : c.encode((const u8 *)x, n), want, e, "encoding"); sv_free(want); }
}
static void unbase_big(AbstractBaseEncoding &c, int k) {
    int cnt = lengths(); size_t bits = (size_t)CD[k].bits; u8 set[32], last[32]; alphabet(k, 0, set);
    for (int i = 0; i < cnt; i++) for (int f = 0; f < 2; f++) {
        size_t n = f ? L[i] * bits / 8 : L[i], m = (n * 8 + bits - 1) / bits, t = i % 2 ? m : enclen(k, n); alphabet(k, (int)(m * bits - n * 8), last); alphabet(k, 0, set);
        std::string s(t, '='); u8 *want = buf(n); u64 acc = 0; size_t have = 0, o = 0;
        for (size_t j = 0; j < m; j++) { u8 ch = j + 9 < m ? (u8)CD[k].alpha[(j * 7 + j / 64) % (1u << bits)] : sv_char("char", j == m - 1 ? last : set); s[j] = (char)ch; acc = acc << bits | val[ch]; have += bits; if (have >= 8) { have -= 8; want[o++] = (u8)(acc >> have); acc &= (1u << have) - 1; } }
        sv_case("decoding object, bytes", n, 0, 0); SequentialData r = c.decode(s); same(&r, want, n, "decoded string"); sv_free(want); }
}
extern "C" void job_C12_big_base16(void) { Base16 c; base_big(c, 0); unbase_big(c, 0); }
extern "C" void job_C12_big_base32(void) { Base32 c; base_big(c, 1); unbase_big(c, 1); }
extern "C" void job_C12_big_base32hex(void) { Base32 c(true); base_big(c, 2); unbase_big(c, 2); }
extern "C" void job_C12_big_base64(void) { Base64 c; base_big(c, 3); unbase_big(c, 3); }
extern "C" void job_C12_big_base64url(void) { Base64 c(true); base_big(c, 4); unbase_big(c, 4); }
extern "C" void job_C22_big(void) {
    int k = lengths();
    for (int i = 0; i < k; i++) { size_t n = L[i]; sv_case("data bytes", n, 0, 0); const char *t = big_text(n); u8 *x = buf(n); memcpy(x, t, n); x[0] = x[n / 2] = x[n - 1] = 0; const u8 *q = (const u8 *)sv_cbuf(x, n);
        SequentialData a(q, n), b(a), c(&a), d(std::string((const char *)q, n)), e(t); same(&a, x, n, "bytes of the data"); same(&b, x, n, "bytes of a copy"); same(&c, x, n, "bytes of a copy through a pointer"); same(&d, x, n, "bytes of a string"); same(&e, (const u8 *)t, n, "bytes of text");
        sames(a.to_str(), (const char *)x, n, "data as a string"); std::string hs = a.hex_str(); sv_eq64(hs.length(), 2 * n, "length of the hexadecimal form");
        static const char DIG[] = "0123456789abcdef"; char *hex = (char *)sv_buf(2 * n + 1); for (size_t j = 0; j < n; j++) { hex[2 * j] = DIG[x[j] >> 4]; hex[2 * j + 1] = DIG[x[j] & 15]; } hex[2 * n] = 0; sames(hs, hex, 2 * n, "data in hexadecimal");
        SequentialData *p = utils::to_sequential_data(q, n); same(p, x, n, "bytes converted"); delete p;
        if (n < 20000) { u8 *z = buf(n); for (size_t j = 0; j < n; j++) z[j] = 0; z[n / 3] = 7; SequentialData zd(z, n); SequentialData tl = zd.trim_left(), tr = zd.trim_right(), tb = zd.trim(); sv_eq64(tl.length(), n - n / 3, "length without leading zeros"); sv_eq64(tr.length(), n / 3 + 1, "length without trailing zeros"); same(&tb, z + n / 3, 1, "data without zeros at the ends"); sv_free(z); }
        sv_free(hex); sv_free((void *)q); sv_free(x); }
}
extern "C" void job_C22_big_hex(void) {
    int k = lengths(); u8 set[32] = {0}; static const char DIG[] = "0123456789abcdef"; for (int i = 0; i < 16; i++) { put(set, DIG[i]); val[(int)DIG[i]] = (u8)i; }
    for (int i = 0; i < k; i++) { size_t d = L[i]; sv_case("digits", d, 0, 0); char *s = (char *)sv_buf(d + 1); u8 *want = buf((d + 1) / 2); u8 cur = 0; size_t o = 0;
        for (size_t j = 0; j < d; j++) { u8 c = j + 9 < d ? (u8)DIG[(j * 7 + j / 64) % 16] : sv_char("digit", set); s[j] = (char)c; cur = (u8)(cur << 4 | val[c]); if ((d - j - 1) % 2 == 0) { want[o++] = cur; cur = 0; } } s[d] = 0; sv_const(s);
        SequentialData *p = utils::sequential_data::from_hex_string(s); same(p, want, o, "data from hexadecimal"); delete p; sv_free(s); sv_free(want); }
}
extern "C" void job_C06_big_secret(void) {
    int k = lengths();
    for (int i = 0; i < k; i++) { size_t n = L[i]; sv_case("secret bytes", n, 0, 0); const char *t = big_text(n); HOTP h(SHA1); if (i % 2) h.set_secret(t); else h.set_secret((const u8 *)t, n); h.set_counter(77); sv_eq64(h.generate(6), ref_hotp(R_SHA1, (const u8 *)t, n, 77, 6), "password"); }
}
