#include "cxx.h"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
static void enc_obj(AbstractBaseEncoding &c, int k) {
    sv_eq64(c.bit_size(), (u64)CD[k].bits, "bit size"); sv_eq64(c.alphabet_size(), 1u << CD[k].bits, "alphabet size");
    size_t lens[] = {0, 1, 2, 5, 39, 40, 52, 53, 64, 65, 66, 79, 80, 100, 300, 7, 301, 3, 130}, max = 301;
    u8 *x = arb(max, "bytes");
    { const u8 *z = zeros(12); std::string zs((const char *)z, 12); SequentialData zd(z, 12); char w[40]; CD[k].ref(z, 12, w); sv_case("encoding object, zero bytes inside", 0, 0, 0);
      sames(c.encode(zs), w, enclen(k, 12), "encoding of a string with zero bytes"); sames(c.encode(zd), w, enclen(k, 12), "encoding of data with zero bytes"); }
    for (int i = 0; i < 19; i++) {
        size_t n = lens[i], m = enclen(k, n); if (n > 110 && n < 300 && !sv_tier()) continue;
        u8 *y = arb(n, "bytes"); for (size_t j = 0; j < n; j++) y[j] = x[j];
        char *want = (char *)sv_buf(m + 1); sv_case("encoding object, bytes", n, 0, 0);
        CD[k].ref(x, n, want); sv_const(y);
        u64 mk = sv_mark();
        { std::string s = c.encode((const u8 *)y, n); sames(s, want, m, "encoding"); }
        (void)mk;
        if (n && n < 60) { std::string in((const char *)x, n); sames(c.encode(in), want, m, "encoding of a string"); SequentialData sd(x, n); sames(c.encode(sd), want, m, "encoding of data"); }
        sv_free(want);
    }
    const char *s = text(17); char want[40]; CD[k].ref((const u8 *)s, 17, want); sv_case("encoding object, text", 17, 0, 0); sames(c.encode(s), want, enclen(k, 17), "encoding of text");
}
static void dec_obj(AbstractBaseEncoding &c, int k) {
    static const size_t lens[] = {0, 1, 2, 3, 4, 5, 10, 47, 48, 64, 65, 66, 90, 200, 6, 201, 1};
    for (int i = 0; i < 17; i++) {
        size_t n = lens[i], bits = (size_t)CD[k].bits, m = (n * 8 + bits - 1) / bits, t = enclen(k, n);
        u8 set[32], last[32]; alphabet(k, 0, set); alphabet(k, (int)(m * bits - n * 8), last); alphabet(k, 0, set);
        std::string s(t, '='); u8 *want = buf(n); u64 acc = 0; size_t have = 0, o = 0;
        for (size_t j = 0; j < m; j++) { u8 ch = sv_char("char", j == m - 1 ? last : set); s[j] = (char)ch; acc = acc << bits | val[ch]; have += bits; if (have >= 8) { have -= 8; want[o++] = (u8)(acc >> have); acc &= (1u << have) - 1; } }
        sv_case("decoding object, bytes", n, 0, 0);
        SequentialData r = c.decode(s.c_str()); same(&r, want, n, "decoded text");
        if (n < 12) { SequentialData r2 = c.decode(s); same(&r2, want, n, "decoded string"); }
        sv_free(want);
    }
}
extern "C" void job_C12_base16_enc(void) { Base16 c; enc_obj(c, 0); }
extern "C" void job_C12_base32_enc(void) { Base32 c; sv_true(!c.is_hex_mode(), "mode"); enc_obj(c, 1); }
extern "C" void job_C12_base32hex_enc(void) { Base32 c(true); sv_true(c.is_hex_mode(), "mode"); enc_obj(c, 2); }
extern "C" void job_C12_base64_enc(void) { Base64 c; sv_true(!c.is_url_safe_mode(), "mode"); enc_obj(c, 3); }
extern "C" void job_C12_base64url_enc(void) { Base64 c(true); sv_true(c.is_url_safe_mode(), "mode"); enc_obj(c, 4); }
extern "C" void job_C12_base16_dec(void) { Base16 c; dec_obj(c, 0); }
extern "C" void job_C12_base32_dec(void) { Base32 c; dec_obj(c, 1); }
extern "C" void job_C12_base32hex_dec(void) { Base32 c(true); dec_obj(c, 2); }
extern "C" void job_C12_base64_dec(void) { Base64 c; dec_obj(c, 3); }
extern "C" void job_C12_base64url_dec(void) { Base64 c(true); dec_obj(c, 4); }

