// C16 for objects: two objects used alternately behave as if each were alone.
#include "cxx.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/fishes/blowfish.hpp"
static u8 m1[300], m2[300];
static void fill() { for (int i = 0; i < 300; i++) { m1[i] = (u8)(i * 7 + 1); m2[i] = (u8)(i * 13 + 5); } }
extern "C" void job_C16_obj_hash(void) {
    fill(); u8 w[64];
    for (int a = 0; a < 16; a++) for (int k = 0; k < 3; k++) {
        int b = (a + k * 5) % 16; sv_case("algorithms", (u64)a, (u64)b, 0); HashEncoder x(alg(a)), y(alg(b));
        x.update(m1, 70); y.update(m2, 150); x.update(m1 + 70, 99); y.update(m2 + 150, 3);
        const SequentialData *dx = x.get_digest(), *dy = y.get_digest(); ref_hash(a, m1, 169, w, 8 * ref_dsz(a)); same(dx, w, ref_dsz(a), "digest of the first object"); ref_hash(b, m2, 153, w, 8 * ref_dsz(b)); same(dy, w, ref_dsz(b), "digest of the second object");
        x.reset(); y.reset(); x.update(m2, 5); y.update(m1, 5); dx = x.get_digest(); dy = y.get_digest(); ref_hash(a, m2, 5, w, 8 * ref_dsz(a)); same(dx, w, ref_dsz(a), "digest of the first object"); ref_hash(b, m1, 5, w, 8 * ref_dsz(b)); same(dy, w, ref_dsz(b), "digest of the second object");
        if (a < 12 && b < 12) { HMACEncoder p(alg(a), m1, 20), q(alg(b), m2, 200); p.update(m2, 70); q.update(m1, 80); dx = p.get_digest(); dy = q.get_digest(); ref_hmac(a, m1, 20, m2, 70, w); same(dx, w, ref_dsz(a), "keyed digest of the first object"); ref_hmac(b, m2, 200, m1, 80, w); same(dy, w, ref_dsz(b), "keyed digest of the second object"); p.reset(); p.update(m1, 1); dx = p.get_digest(); ref_hmac(a, m1, 20, m1, 1, w); same(dx, w, ref_dsz(a), "keyed digest after a reset"); }
    }
}
extern "C" void job_C16_obj_otp(void) {
    fill(); sv_now = 100000;
    for (int a = 0; a < 12; a++) { int b = (a + 5) % 12; sv_case("algorithms", (u64)a, (u64)b, 0); HOTP x(m1, 20, alg(a)), y(m2, 70, alg(b)); TOTP t(m1, 30, 30, alg(b)), u(m2, 10, 77, alg(a));
        for (u64 c = 0; c < 3; c++) { x.set_counter(c); y.set_counter(1000 - c); sv_eq64(x.generate(6), ref_hotp(a, m1, 20, c, 6), "first password"); sv_eq64(t.generate(8), ref_hotp(b, m1, 30, 100000 / 30, 8), "time-based password"); sv_eq64(y.generate(8), ref_hotp(b, m2, 70, 1000 - c, 8), "second password"); sv_eq64(u.generate(6), ref_hotp(a, m2, 10, 100000 / 77, 6), "second time-based password"); }
        x.set_secret(m2, 9); sv_eq64(y.generate(6), ref_hotp(b, m2, 70, 998, 6), "second password"); sv_eq64(x.generate(6), ref_hotp(a, m2, 9, 2, 6), "password with a new secret"); u.set_interval(10); sv_eq64(t.generate(6), ref_hotp(b, m1, 30, 100000 / 30, 6), "time-based password"); sv_eq64(u.generate(6), ref_hotp(a, m2, 10, 10000, 6), "second time-based password"); }
}
static AbstractBaseEncoding *codec(int k) { return k == 0 ? (AbstractBaseEncoding *)new Base16 : k < 3 ? (AbstractBaseEncoding *)new Base32(k == 2) : new Base64(k == 4); }
extern "C" void job_C16_obj_codecs(void) {
    fill(); AbstractBaseEncoding *o[5], *p[5]; for (int k = 0; k < 5; k++) { o[k] = codec(k); p[k] = codec(k); }
    for (int r = 0; r < 3; r++) for (int k = 0; k < 5; k++) for (int z = 0; z < 2; z++) {
        size_t n = (size_t[]){7, 90, 33}[r]; const u8 *x = (r + z) % 2 ? m1 : m2; sv_case("round/codec/object", (u64)r, (u64)k, (u64)z); char w[700]; size_t l = CD[k].ref(x, n, w);
        AbstractBaseEncoding *c = z ? p[k] : o[k]; sames(c->encode(x, n), w, l, "encoding"); u8 y[100]; for (int i = 0; i < 100; i++) y[i] = (u8)(i * 5 + r + z); l = CD[k].ref(y, n, w); SequentialData d = c->decode((const char *)w); same(&d, y, n, "decoded bytes"); }
    // the same memory with other contents
    for (int k = 0; k < 5; k++) { sv_case("same memory, other contents", (u64)k, 0, 0); u8 *x = buf(20); char *e = (char *)sv_buf(60), w[60]; for (int r = 0; r < 3; r++) { for (int i = 0; i < 20; i++) x[i] = (u8)(i + r); size_t l = CD[k].ref(x, 20, w); sames(o[k]->encode((const u8 *)x, 20), w, l, "encoding"); memcpy(e, w, l + 1); SequentialData d = o[k]->decode((const char *)e); same(&d, x, 20, "decoded bytes"); } }
    for (int k = 0; k < 5; k++) { delete o[k]; delete p[k]; }
}
extern "C" void job_C16_obj_blowfish(void) {
    fill(); Blowfish x(m1, 16), y(m2, 30); u32 P[18], S[4][256];
    for (int r = 0; r < 3; r++) for (int z = 0; z < 2; z++) { sv_case("round/object", (u64)r, (u64)z, 0); SequentialData e = (z ? y : x).encrypt(m1 + r, 8), d = (z ? y : x).decrypt(e); same(&d, m1 + r, 8, "text after the round trip");
        ref_bf_init(P, S, z ? m2 : m1, z ? 30 : 16); u32 L = 0, R = 0; u8 w[8]; for (int i = 0; i < 4; i++) { L = L << 8 | m1[r + i]; R = R << 8 | m1[r + 4 + i]; } ref_bf_enc(P, (const u32(*)[256])S, &L, &R); for (int i = 0; i < 4; i++) { w[i] = (u8)(L >> (24 - 8 * i)); w[4 + i] = (u8)(R >> (24 - 8 * i)); } same(&e, w, 8, "ciphertext"); }
    // the same memory with other contents
    HashEncoder h(SHA256); u8 b[70], wd[32]; for (int r = 0; r < 3; r++) { sv_case("same memory, other contents", (u64)r, 0, 0); memset(b, 'a' + r, 70); h.reset(); h.update(b, 70); const SequentialData *d = h.get_digest(); ref_hash(R_SHA256, b, 70, wd, 256); same(d, wd, 32, "digest"); HOTP o(b, 70); o.set_counter(1); sv_eq64(o.generate(6), ref_hotp(R_SHA1, b, 70, 1, 6), "password"); }
}
