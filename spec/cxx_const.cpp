// C28: what is declared const only reads. Each operation below may run at the same time as every other, and as itself.
#include "cxx.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/fishes/blowfish.h"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/utils.hpp"
static int opn;
template <class F> static void par(const char *what, F f) { (void)what; for (int i = 0; i < 2; i++) { sv_op(++opn); f(); sv_op(0); sv_eq64((u64)sv_locks_held(), 0, "locks still held"); } }
static const char DIG[] = "0123456789abcdef";
static AbstractBaseEncoding *codec(int k) { return k == 0 ? (AbstractBaseEncoding *)new Base16 : k < 3 ? (AbstractBaseEncoding *)new Base32(k == 2) : new Base64(k == 4); }

extern "C" void job_C28_data(void) {
    static const size_t ns[] = {0, 1, 15, 16, 40, 300};
    for (int i = 0; i < 6; i++) for (int zero = 0; zero < 2; zero++) {
        size_t n = ns[i]; if (zero && !n) continue; u8 *x = zero ? buf(n) : arb(n, "bytes"); if (zero) for (size_t j = 0; j < n; j++) x[j] = (u8)(j * 5);
        sv_case("data: length/with zero bytes", n, (u64)zero, 0); char *hex = (char *)sv_buf(2 * n + 1); for (size_t j = 0; j < n; j++) { hex[2 * j] = DIG[x[j] >> 4]; hex[2 * j + 1] = DIG[x[j] & 15]; }
        const SequentialData d(x, n);
        par("sequence", [&] { size_t l = 9; sv_eq(d.to_pgfe_seq(), x, n, "sequence"); d.to_pgfe_seq(l); sv_eq64(l, n, "length of the sequence"); });
        par("hexadecimal", [&] { sames(d.hex_str(), hex, 2 * n, "data in hexadecimal"); });
        par("text", [&] { sames(d.to_str(false), (const char *)x, n, "data as a string"); });
        par("text", [&] { sames(d.to_str(), (const char *)x, n, "data as a string"); });
        par("copy", [&] { SequentialData c(d); same(&c, x, n, "bytes of a copy"); SequentialData e(&d); same(&e, x, n, "bytes of a copy through a pointer"); });
        same(&d, x, n, "bytes afterwards");
    }
}
static void encs(int a) {
    static u8 m[90], k[20]; for (int i = 0; i < 90; i++) m[i] = (u8)(i * 7); sv_case("encoder", (u64)a, 0, 0); u8 w[64];
    HashEncoder h(alg(a)); h.update(m, 70); const AbstractHashEncoder &c = h;
    par("sizes", [&] { if (a < 12) sv_eq64(c.digest_size(), ref_dsz(a), "digest size"); sv_eq64(c.block_size(), ref_bsz(a), "block size"); });
    if (a < 12) { const SequentialData *d = h.get_digest(); ref_hash(a, m, 70, w, 8 * ref_dsz(a)); par("result", [&] { same(d, w, ref_dsz(a), "digest"); d->hex_str(); d->to_str(); });
        HMACEncoder e(alg(a), k, 20); e.update(m, 5); const AbstractHashEncoder &f = e; par("sizes", [&] { sv_eq64(f.digest_size(), ref_dsz(a), "digest size"); sv_eq64(f.block_size(), ref_bsz(a), "block size"); });
        const SequentialData *r = e.get_digest(); ref_hmac(a, k, 20, m, 5, w); par("result", [&] { same(r, w, ref_dsz(a), "keyed digest"); r->hex_str(); }); }
}
extern "C" void job_C28_encoders(void) { for (int a = 0; a < 16; a++) encs(a); }
static void pw(const AbstractOTP &o, int a, const u8 *s, size_t n, u64 c, bool str = true) {
    static const u8 ds[] = {1, 4, 6, 8, 9, 10, 14};
    for (int i = 0; i < 7; i++) par("password", [&] { sv_eq64(o.generate(ds[i]), ref_hotp(a, s, n, c, ds[i]), "password"); if (!str) return; std::string t = o.generate_str(ds[i]); sv_eq64(t.length(), ds[i], "length of the password"); });
    par("password", [&] { sv_eq64(o.generate(), ref_hotp(a, s, n, c, 6), "password"); if (!str) return; std::string t = o.generate_str(); sv_eq64(t.length(), 6, "length of the password"); });
}
extern "C" void job_C28_otp(void) {
    static const u8 s[80] = "a secret that is longer than the block of some of the algorithms......";
    for (int a = 0; a < 12; a++) for (size_t n = 20; n <= 70; n += 50) {
        sv_case("algorithm/secret", (u64)a, n, 0); HOTP h(s, n, alg(a)); u64 c = sv_u64("counter"); h.set_counter(c); pw(h, a, s, n, c, false); h.set_counter(12345); pw(h, a, s, n, 12345);
        if (n > 20) continue;
        sv_now = 100007; TOTP t(s, n, 30, alg(a)); t.set_initial_time(17); t.generate(6); const TOTP &ct = t; time_t left = ct.remaining_time(), upd = ct.update_time();
        par("times", [&] { sv_eq64(ct.interval(), 30, "interval"); sv_eq64((u64)ct.initial_time(), 17, "initial time"); sv_eq64((u64)ct.remaining_time(), (u64)left, "remaining time"); sv_eq64((u64)ct.update_time(), (u64)upd, "time of the next password"); });
        pw(t, a, s, n, (100007 - 17) / 30);
    }
}
extern "C" void job_C28_codecs(void) {
    // one datum encoded by several objects at once, and what a codec tells of itself
    static u8 m[200]; for (int i = 0; i < 200; i++) m[i] = (u8)(i * 3); const SequentialData d(m, 200); const std::string s((const char *)m, 200);
    for (int k = 0; k < 5; k++) {
        sv_case("codec", (u64)k, 0, 0); std::unique_ptr<AbstractBaseEncoding> c(codec(k)); const AbstractBaseEncoding &r = *c; char w[700]; size_t l = CD[k].ref(m, 200, w);
        par("sizes", [&] { sv_eq64(r.bit_size(), (u64)CD[k].bits, "bit size"); r.unit_size(); r.chunk_size(); r.alphabet_size(); });
        par("encoding", [&] { std::unique_ptr<AbstractBaseEncoding> o(codec(k)); sames(o->encode(d), w, l, "encoding of shared data"); sames(o->encode(s), w, l, "encoding of a shared string"); });
        const std::string e(w, l); u8 y[70]; for (int i = 0; i < 70; i++) y[i] = (u8)(i * 11 + 1); char e2[200]; size_t l2 = CD[k].ref(y, 70, e2); const std::string t(e2, l2);
        par("decoding", [&] { std::unique_ptr<AbstractBaseEncoding> o(codec(k)); SequentialData x = o->decode(t); same(&x, y, 70, "bytes decoded from a shared string"); });
    }
    Base32 b(true); Base64 u(true); const Base32 &cb = b; const Base64 &cu = u; par("modes", [&] { sv_true(cb.is_hex_mode(), "mode"); sv_true(cu.is_url_safe_mode(), "mode"); });
    par("hashing", [&] { u8 w[32]; HashEncoder h(SHA256); SequentialData &dd = const_cast<SequentialData &>(d); h.update(dd); ref_hash(R_SHA256, m, 200, w, 256); same(h.get_digest(), w, 32, "digest of shared data"); });
}
extern "C" void job_C28_blowfish(void) {
    static const u8 key[9] = "the key."; struct pgfe_blowfish_ctx ctx; pgfe_blowfish_init(&ctx, key, 8); const struct pgfe_blowfish_ctx *c = &ctx; u8 *x = arb(24, "text"), w[24]; sv_case("one schedule", 0, 0, 0);
    pgfe_blowfish_encrypt(c, x, 24, w);
    par("encryption", [&] { u8 o[24], p[24]; pgfe_blowfish_encrypt(c, x, 24, o); sv_eq(o, w, 24, "ciphertext"); pgfe_blowfish_decrypt(c, o, 24, p); sv_eq(p, x, 24, "text"); });
    par("a block", [&] { pgfe_fake_uint64_t v; v.left = 1; v.right = 2; pgfe_blowfish_encrypt_unit(c, &v); pgfe_blowfish_decrypt_unit(c, &v); sv_eq64(v.left, 1, "left half"); sv_eq64(v.right, 2, "right half"); });
    const SequentialData kd(key, 8), td(key, 8); const std::string ks((const char *)key, 8);
    par("objects of one key", [&] { Blowfish a(kd), b(ks); SequentialData e = a.encrypt(td), f = b.encrypt(ks); same(&e, f.to_pgfe_seq(), 8, "ciphertext"); });
}
