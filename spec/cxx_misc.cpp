#include "cxx.h"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/utils.hpp"
extern "C" void job_C11_obj(void) {
    static const u8 key[24] = {1, 35, 69, 0, 137, 171, 205, 239, 16, 50, 84, 118, 152, 186, 220, 254, 7, 9, 11, 13, 17, 19, 23, 29};
    static const char *ks = "passphrase"; u8 *x = arb(33, "text");
    for (int form = 0; form < 4; form++) {
        std::string kstr((const char *)key, 24); SequentialData ksd(key, 23); u64 mk = sv_mark();
        { std::unique_ptr<Blowfish> cp(form == 0 ? new Blowfish(key, 24) : form == 1 ? new Blowfish(ks) : form == 2 ? new Blowfish(kstr) : new Blowfish(ksd)); Blowfish &c = *cp;
          u32 P[18], S[4][256]; if (form == 1) ref_bf_init(P, S, (const u8 *)ks, 10); else ref_bf_init(P, S, key, form == 3 ? 23 : 24);
          size_t lens[] = {0, 1, 7, 8, 9, 16, 33}; const u32(*CS)[256] = (const u32(*)[256])S;
          { const u8 *z = zeros(12); std::string zs((const char *)z, 12); SequentialData zd(z, 12); u8 w[16] = {0}; memcpy(w, z, 12); sv_case("Blowfish object: zero bytes inside, key form", (u64)form, 0, 0);
            for (size_t b = 0; b < 16; b += 8) { u32 L = 0, R = 0; for (int j = 0; j < 4; j++) { L = L << 8 | w[b + j]; R = R << 8 | w[b + 4 + j]; } ref_bf_enc(P, CS, &L, &R); for (int j = 0; j < 4; j++) { w[b + j] = (u8)(L >> (24 - 8 * j)); w[b + 4 + j] = (u8)(R >> (24 - 8 * j)); } }
            SequentialData r1 = c.encrypt(zs), r2 = c.encrypt(zd), r3 = c.encrypt(z, 12); same(&r1, w, 16, "result for a string"); same(&r2, w, 16, "result for data"); same(&r3, w, 16, "result for bytes");
            memset(w, 0, 16); memcpy(w, z, 12); for (size_t b = 0; b < 16; b += 8) { u32 L = 0, R = 0; for (int j = 0; j < 4; j++) { L = L << 8 | w[b + j]; R = R << 8 | w[b + 4 + j]; } ref_bf_dec(P, CS, &L, &R); for (int j = 0; j < 4; j++) { w[b + j] = (u8)(L >> (24 - 8 * j)); w[b + 4 + j] = (u8)(R >> (24 - 8 * j)); } }
            SequentialData d1 = c.decrypt(zs), d2 = c.decrypt(zd), d3 = c.decrypt(z, 12); same(&d1, w, 16, "decryption of a string"); same(&d2, w, 16, "decryption of data"); same(&d3, w, 16, "decryption of bytes"); }
          for (int i = 0; i < 7; i++) for (int dec = 0; dec < 2; dec++) {
              size_t n = lens[i], m = (n + 7) / 8 * 8; if (form && n > 9) continue;
              u8 *pad = buf(m), *w = buf(m); for (size_t j = 0; j < m; j++) pad[j] = j < n ? x[j] : 0;
              for (size_t b = 0; b < m; b += 8) { u32 L = 0, R = 0; for (int j = 0; j < 4; j++) { L = L << 8 | pad[b + j]; R = R << 8 | pad[b + 4 + j]; } if (dec) ref_bf_dec(P, CS, &L, &R); else ref_bf_enc(P, CS, &L, &R); for (int j = 0; j < 4; j++) { w[b + j] = (u8)(L >> (24 - 8 * j)); w[b + 4 + j] = (u8)(R >> (24 - 8 * j)); } }
              sv_case("Blowfish object: key form/length/decrypting", (u64)form, n, (u64)dec);
              std::string xs((const char *)x, n); SequentialData xd(x, n);
              SequentialData r1 = dec ? c.decrypt(x, n) : c.encrypt(x, n); same(&r1, w, m, "result for bytes");
              SequentialData r2 = dec ? c.decrypt(xs) : c.encrypt(xs); same(&r2, w, m, "result for a string");
              SequentialData r3 = dec ? c.decrypt(xd) : c.encrypt(xd); same(&r3, w, m, "result for data");
              AbstractSymmetricCrypter &ac = c; SequentialData r4 = dec ? ac.decrypt(xd) : ac.encrypt(xd); same(&r4, w, m, "result through the base class");
              SequentialData back = dec ? c.encrypt(r1) : c.decrypt(r1); same(&back, pad, m, "round trip");
              sv_free(pad); sv_free(w);
          } }
        sv_noleak(mk, "Blowfish object");
    }
}

// SequentialData holds exactly the bytes given
static const char DIG[] = "0123456789abcdef";
extern "C" void job_C22_data(void) {
    { const u8 *z = zeros(12); sv_case("data with zero bytes", 0, 0, 0); SequentialData a(z, 12); same(&a, z, 12, "bytes of the data"); std::string zs((const char *)z, 12); SequentialData f(zs); same(&f, z, 12, "bytes of a string"); SequentialData c(a), m(std::move(f)); same(&c, z, 12, "bytes of a copy"); same(&m, z, 12, "bytes of moved data");
      sames(a.to_str(), (const char *)z, 12, "data as a string"); sames(a.to_str(false), (const char *)z, 12, "data as a string"); SequentialData *p = utils::to_sequential_data(zs); same(p, z, 12, "string converted"); delete p; p = utils::to_sequential_data(z, 12); same(p, z, 12, "bytes converted"); delete p; }
    for (size_t n = 0; n <= 40; n++) {
        if (n > 3 && n != 15 && n != 16 && n != 17 && n != 40 && !sv_tier()) continue;
        u8 *x = arb(n, "bytes"); sv_const(x); char *hex = (char *)sv_buf(2 * n + 1); for (size_t i = 0; i < n; i++) { hex[2 * i] = DIG[x[i] >> 4]; hex[2 * i + 1] = DIG[x[i] & 15]; }
        sv_case("data bytes", n, 0, 0); u64 mk = sv_mark();
        { SequentialData e; sv_eq64(e.length(), 0, "length of empty data");
          SequentialData a(x, n); same(&a, x, n, "bytes of the data"); SequentialData b(a); same(&b, x, n, "bytes of a copy"); SequentialData c(&a); same(&c, x, n, "bytes of a copy through a pointer");
          SequentialData m(std::move(b)); same(&m, x, n, "bytes of moved data"); std::string s((const char *)x, n); SequentialData f(s); same(&f, x, n, "bytes of a string");
          sames(a.to_str(), (const char *)x, n, "data as a string"); sames(a.to_str(false), (const char *)x, n, "data as a string"); sames(a.hex_str(), hex, 2 * n, "data in hexadecimal");
          size_t l = 999; const u8 *q = a.to_pgfe_seq(l); sv_eq64(l, n, "length of the sequence"); sv_eq(q, x, n, "sequence"); sv_eq(a.to_pgfe_seq(), x, n, "sequence"); same(&a, x, n, "bytes after reading");
          SequentialData *p = utils::to_sequential_data(x, n); same(p, x, n, "bytes converted"); delete p; p = utils::to_sequential_data(s); same(p, x, n, "string converted"); delete p;
          const char *t = text(n); SequentialData td(t); same(&td, (const u8 *)t, n, "bytes of text"); p = utils::to_sequential_data(t); same(p, (const u8 *)t, n, "text converted"); delete p; }
        sv_noleak(mk, "data");
    }
}
extern "C" void job_C22_hex(void) {
    u8 set[32] = {0}; for (int i = 0; i < 16; i++) { put(set, DIG[i]); val[(int)DIG[i]] = (u8)i; if (i > 9) { put(set, DIG[i] - 32); val[DIG[i] - 32] = (u8)i; } }
    for (size_t d = 0; d <= 41; d++) {
        if (d > 9 && d < 38 && !sv_tier()) continue;
        char *s = (char *)sv_buf(d + 1); u8 *want = buf((d + 1) / 2); u8 cur = 0; size_t o = 0; for (size_t i = 0; i < d; i++) { u8 c = sv_char("digit", set); s[i] = (char)c; cur = (u8)(cur << 4 | val[c]); if ((d - i - 1) % 2 == 0) { want[o++] = cur; cur = 0; } }
        s[d] = 0; sv_const(s); sv_case("digits", d, 0, 0); u64 mk = sv_mark();
        { SequentialData *p = utils::sequential_data::from_hex_string(s); same(p, want, o, "data from hexadecimal"); delete p; std::string str(s, d); p = utils::sequential_data::from_hex_string(str); same(p, want, o, "data from a hexadecimal string"); delete p; }
        sv_noleak(mk, "data from hexadecimal");
    }
}
// z: which bytes are zero; the others are arbitrary nonzero bytes
extern "C" void job_C22_trim(void) {
    u8 nz[32]; memset(nz, 255, 32); nz[0] = 0xfe;
    for (size_t n = 0; n <= 5; n++) for (unsigned z = 0; z < 1u << n; z++) {
        u8 *x = buf(n); for (size_t i = 0; i < n; i++) x[i] = z >> i & 1 ? 0 : sv_char("byte", nz);
        sv_const(x);
        size_t l = 0, r = n; while (l < n && (z >> l & 1)) l++; while (r > 0 && (z >> (r - 1) & 1)) r--; size_t both = r > l ? r - l : 0;
        sv_case("bytes/zeros", n, z, 0); u64 mk = sv_mark();
        { SequentialData a(x, n); SequentialData t = a.trim(); same(&t, x + (both ? l : 0), both, "data without zeros at the ends"); SequentialData tl = a.trim_left(); same(&tl, x + l, n - l, "data without leading zeros"); SequentialData tr = a.trim_right(); same(&tr, x, r, "data without trailing zeros"); same(&a, x, n, "the original");
          a.trim_(); same(&a, x + (both ? l : 0), both, "trimmed in place"); SequentialData b(x, n); b.trim_left_(); same(&b, x + l, n - l, "left-trimmed in place"); SequentialData c(x, n); c.trim_right_(); same(&c, x, r, "right-trimmed in place"); }
        sv_noleak(mk, "trimmed data");
    }
}
