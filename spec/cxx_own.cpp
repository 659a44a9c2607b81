// C17: concurrent use of one codec object; C18: ownership of memory, also when an allocation fails.
#include "cxx.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/utils.hpp"
static AbstractBaseEncoding *codec(int k) { return k == 0 ? (AbstractBaseEncoding *)new Base16 : k < 3 ? (AbstractBaseEncoding *)new Base32(k == 2) : new Base64(k == 4); }

// ---- C17: each operation below may run at the same time as every other; shared bytes need a common lock
static void op_encode(AbstractBaseEncoding *c, int k, size_t n, int form) {
    u8 *x = arb(n, "bytes"); sv_const(x); size_t m = enclen(k, n); char *want = (char *)sv_buf(m + 1); CD[k].ref(x, n, want);
    if (form == 0) sames(c->encode((const u8 *)x, n), want, m, "encoding");
    else if (form == 1) { std::string s((const char *)x, n); sames(c->encode(s), want, m, "encoding"); }
    else if (form == 2) { SequentialData s(x, n); sames(c->encode(s), want, m, "encoding"); }
    else { char *z = (char *)sv_buf(n + 1); for (size_t i = 0; i < n; i++) z[i] = 'a'; z[n] = 0; CD[k].ref((const u8 *)z, n, want); sames(c->encode((const char *)z), want, m, "encoding"); }
}
static void op_decode(AbstractBaseEncoding *c, int k, size_t n, int form) {
    u8 *x = buf(n); for (size_t i = 0; i < n; i++) x[i] = (u8)(i * 77 + 3); size_t m = enclen(k, n); char *e = (char *)sv_buf(m + 1); CD[k].ref(x, n, e); sv_const(e);
    if (form) { std::string s(e, m); SequentialData d = c->decode(s); same(&d, x, n, "decoded bytes"); } else { SequentialData d = c->decode((const char *)e); same(&d, x, n, "decoded bytes"); }
}
static void op_info(AbstractBaseEncoding *c, int k) { sv_eq64(c->bit_size(), (u64)CD[k].bits, "bit size"); c->unit_size(); c->chunk_size(); c->alphabet_size(); }
static void threads(int k) {
    static const size_t ns[] = {3, 200, 5, 300, 250, 310, 0};
    for (int kinds = 0; kinds < 3; kinds++) { // encode only, decode only, both
        AbstractBaseEncoding *c = codec(k); int op = 0;
        for (int i = 0; i < 7; i++) {
            sv_case("operations/bytes", (u64)kinds, ns[i], (u64)op);
            if (kinds != 1) { sv_op(++op); op_encode(c, k, ns[i], i % 4); sv_op(0); sv_eq64((u64)sv_locks_held(), 0, "locks still held"); }
            if (kinds != 0) { sv_op(++op); op_decode(c, k, ns[i], i % 2); sv_op(0); sv_eq64((u64)sv_locks_held(), 0, "locks still held"); }
            sv_op(++op); op_info(c, k); sv_op(0);
        }
        delete c;
    }
}
// an allocation fails inside the operation: every lock is released, and the object still works
static void exits(int k) {
    u8 *x = arb(400, "bytes"); size_t m = enclen(k, 400), m1 = enclen(k, 7), m2 = enclen(k, 390); char *want = (char *)sv_buf(m + 1), *small = (char *)sv_buf(m1 + 1); CD[k].ref(x, 400, want); CD[k].ref(x, 7, small); SequentialData xs(x, 400); char *most = (char *)sv_buf(m2 + 1); CD[k].ref(x, 390, most);
    u8 *y = buf(300); for (size_t i = 0; i < 300; i++) y[i] = (u8)(i * 77 + 3); char *e = (char *)sv_buf(enclen(k, 300) + 1); CD[k].ref(y, 300, e); char *e2 = (char *)sv_buf(enclen(k, 290) + 1); CD[k].ref(y, 290, e2);
    for (int what = 0; what < 4; what++) for (unsigned long f = 1; f < 8; f++) {
        u64 mk = sv_mark(); int failed = 0, thrown = 0; sv_case("operation/failing allocation", (u64)what, f, 0);
        { std::unique_ptr<AbstractBaseEncoding> c(codec(k));
          sv_fail_alloc(f);
          try { if (what == 0) c->encode((const u8 *)x, 400); else if (what == 1) c->decode((const char *)e); else if (what == 2) c->encode(xs); else c->encode((const u8 *)x, 30); } catch (...) { thrown = 1; }
          failed = sv_alloc_failed();
          sv_eq64((u64)sv_locks_held(), 0, "locks still held"); sv_eq64((u64)thrown, (u64)failed, "the failure is reported");
          sames(c->encode((const u8 *)x, 7), small, m1, "encoding afterwards"); sames(c->encode((const u8 *)x, 390), most, m2, "encoding of somewhat less afterwards"); sames(c->encode((const u8 *)x, 400), want, m, "long encoding afterwards");
          SequentialData d2 = c->decode((const char *)e2); same(&d2, y, 290, "decoding of somewhat less afterwards"); SequentialData d = c->decode((const char *)e); same(&d, y, 300, "decoding afterwards"); }
        sv_noleak(mk, "codec object"); if (!failed) break;
    }
}
#define B(i, n) extern "C" void job_C17_threads_##n(void) { threads(i); } extern "C" void job_C17_exits_##n(void) { exits(i); }
B(0, base16) B(1, base32) B(2, base32hex) B(3, base64) B(4, base64url)

// ---- C18
static const u8 KEY[40] = "0123456789abcdefghijklmnopqrstuvwxyz";
static u8 MSG[300];
static void hash_use(int a) { HashEncoder h(alg(a)); h.update(MSG, 300); h.get_digest(); h.reset(); h.update(MSG, 3); h.get_digest(); h.get_digest(16); h.reset(); }
static void hmac_use(int a) { HMACEncoder h(alg(a), KEY, 36); h.update(MSG, 100); h.get_digest(); h.reset(); h.update(MSG, 3); h.get_digest(); }
static void otp_use(int a) { std::string s("GEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQ"); HOTP h(alg(a)); h.set_secret(KEY, 36); h.generate(6); h.generate_str(8); h.set_secret(s, true); h.generate(6); SequentialData d(KEY, 30); h.set_secret(d); h.set_secret_from_base32(s.c_str()); h.generate_str(17); }
static void totp_use(int a) { std::string s((const char *)KEY, 36); TOTP t(s, 30, alg(a)); t.generate(6); t.generate_str(20); t.set_secret(KEY, 36); t.generate_str(8); }
static void bf_use(int) { std::string s((const char *)KEY, 36); Blowfish b(s); SequentialData e = b.encrypt(MSG, 100), d = b.decrypt(e), t = b.encrypt(s); }
static void sd_use(int) { SequentialData a(MSG, 100), b(a), c(std::move(a)), d("a text of more than twenty characters"); std::string s = d.hex_str() + d.to_str(); SequentialData e = c.trim(), f = c.trim_left(), g = c.trim_right(), h(&d), i(s); e.trim_();
    std::unique_ptr<SequentialData> p(utils::sequential_data::from_hex_string(s)), q(utils::to_sequential_data(MSG, 50)), r(utils::to_sequential_data(s)), t(utils::to_sequential_data("another text of more than twenty characters")); }
static void cfun_use(int a) { static const char *hex = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"; u8 out[80]; char txt[200]; u8 d[64]; pgfe_hex_string_to_hash(hex, out); pgfe_hash_length(hex); pgfe_hash_to_hex_string(MSG, 64, txt); pgfe_hash_string_clean(hex, txt); pgfe_hash_string_clean_(txt); if (!H[a].xof && a < 12) { MA[a].oneshot(KEY, 36, MSG, 30, d); ((f_encode *)H[a].encode)(MSG, 30, d); struct sv_file f = {(const char *)MSG, 200, 0}; ((f_encodef *)H[a].encode_f)((FILE *)&f, d); ((f_multi *)H[a].multi)(d, (size_t)1, MSG, (size_t)5); } }
// texts that are not what they should be, lengths of nothing
static void odd_use(int a) {
    static const char *texts[] = {"", " ", "zz", "0", "0x", "not hexadecimal", "0123456789", "g0g1g2", "\xff\xfe"}; u8 o[300]; char t[300]; u8 d[64];
    for (int i = 0; i < 9; i++) { strcpy(t, texts[i]); pgfe_hash_length(t); pgfe_hex_string_to_hash(texts[i], o); pgfe_hash_string_clean(texts[i], t); pgfe_hash_string_clean_(t);
        std::string s(texts[i]); std::unique_ptr<SequentialData> p(utils::sequential_data::from_hex_string(s)), q(utils::sequential_data::from_hex_string(texts[i])), r(utils::to_sequential_data(texts[i])); p->hex_str(); p->to_str(); p->trim(); p->trim_(); SequentialData x(*q), y(std::move(*r)); }
    pgfe_hash_to_hex_string(MSG, 0, t);
    if (!H[a].xof && a < 12) { MA[a].oneshot(KEY, 0, MSG, 0, d); MA[a].oneshot(MSG, 200, MSG, 200, d); ((f_encode *)H[a].encode)(MSG, 0, d); struct sv_file f = {(const char *)MSG, 0, 0}; ((f_encodef *)H[a].encode_f)((FILE *)&f, d); ((f_multi *)H[a].multi)(d, (size_t)0); }
    HashEncoder h(alg(a)); h.get_digest(); h.reset(); h.reset(); h.update(""); std::string e; h.update(e); SequentialData n; h.update(n); h.get_digest(); h.get_digest();
    Base16 b16; Base32 b32; Base64 b64; AbstractBaseEncoding *bs[] = {&b16, &b32, &b64};
    for (auto *b : bs) { b->encode(""); b->encode(MSG, 0); b->decode(e); for (auto *tx : {"A", "=", "====", "A===", "!!!!", "AB==CD==", "A B", "AAAAA", "\n\n"}) { std::string sx(tx); try { b->decode(sx); } catch (...) {} } }
}
typedef void use(int);
static void own(use *u, int a, int cfun) {
    for (int i = 0; i < 300; i++) MSG[i] = (u8)(i * 7);
    u64 mk = sv_mark(); sv_case("no failure", (u64)a, 0, 0); u(a); sv_noleak(mk, "after everything was destroyed");
    if (cfun) return;
    for (unsigned long f = 1; f < 60; f++) {
        int thrown = 0, failed; mk = sv_mark(); sv_case("failing allocation", f, 0, 0);
        sv_fail_alloc(f); try { u(a); } catch (...) { thrown = 1; } failed = sv_alloc_failed();
        sv_noleak(mk, "after an allocation failed"); if (!failed) break; sv_eq64((u64)thrown, 1, "the failure is reported");
    }
}
#define J(i, n) extern "C" void job_C18_hash_##n(void) { own(hash_use, i, 0); }
EACH_HASH(J)
#undef J
#define J(i, n) extern "C" void job_C18_cfun_##n(void) { own(cfun_use, i, 1); }
EACH_HASH(J)
#undef J
#define J(i, n) extern "C" void job_C18_odd_##n(void) { own(odd_use, i, 1); }
EACH_HASH(J)
#undef J
#define J(i, n) extern "C" void job_C18_hmac_##n(void) { own(hmac_use, i, 0); }
EACH_MAC(J)
#undef J
extern "C" void job_C18_hotp(void) { own(otp_use, R_SHA1, 0); }
extern "C" void job_C18_hotp512(void) { own(otp_use, R_SHA512, 0); }
extern "C" void job_C18_totp(void) { own(totp_use, R_SHA1, 0); }
extern "C" void job_C18_blowfish(void) { own(bf_use, 0, 0); }
// every way of making an object
static void make_use(int a) {
    static char text[] = "A text of more than twenty characters as the secret."; std::string s(text), b("GEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQ"); SequentialData d(KEY, 36);
    if (a == 0) { HOTP x(KEY, 36, SHA256); x.generate_str(8); HOTP y(text, SHA384); y.generate_str(40); HOTP z(s); z.generate(6); HOTP w(d, SHA512); w.generate_str(6); HOTP n(SHA224); n.set_secret(s); n.generate(6); }
    else if (a == 1) { TOTP x(KEY, 36, 30, SHA256); x.generate_str(8); TOTP y(text, 60, SHA384); y.generate_str(40); TOTP z(s, 30); z.generate(6); TOTP w(d, 90, SHA512); w.generate_str(6); TOTP n(30, SHA224); n.set_secret(b, true); n.generate(6); }
    else if (a == 2) { HMACEncoder x(SHA256, KEY, 36); x.update(s); x.get_digest(); HMACEncoder y(SHA512, text); y.update(d); y.get_digest(); HMACEncoder z(SHA3_256, s); z.update(text); z.get_digest(); HMACEncoder w(MD5, d); w.update(KEY, 36); w.get_digest(); }
    else if (a == 3) { Blowfish x(KEY, 36), y(s), z(text), w(d); x.encrypt(d); y.encrypt(text); z.encrypt(s); w.encrypt(KEY, 36); }
    else { HashEncoder e(_algstr(std::string("SHA512_256"))); HashEncoder f(SHA3_384); f.update(text); f.get_digest(); Base16 b16; Base32 b32, h32(true); Base64 b64, u64_(true); b16.encode(text); b32.encode(s); h32.encode(d); b64.encode(KEY, 36); u64_.encode(text); }
}
// a class derived from the encoder changes the algorithm of a living object
struct Reselect : HashEncoder { Reselect(int a) : HashEncoder(alg(a)) {} void to(int a) { select_algorithm(alg(a)); } };
static void reselect(int) {
    for (int a = 0; a < 16; a++) for (int k = 0; k < 4; k++) {
        int b = (a + k * 5) % 16; u8 w[64]; sv_case("algorithms", (u64)a, (u64)b, 0); Reselect h(a); h.update(MSG, 70); h.to(b); h.reset(); h.update(MSG, 50); const SequentialData *d = h.get_digest(); ref_hash(b, MSG, 50, w, 8 * ref_dsz(b)); if (b < 12) same(d, w, ref_dsz(b), "digest of the other algorithm");
        sv_eq64(h.block_size(), ref_bsz(b), "block size"); h.to(a); h.reset(); h.update(MSG, 3); h.get_digest(); }
}
extern "C" void job_C18_reselect(void) { own(reselect, 0, 1); }
extern "C" void job_C12_reselect(void) { own(reselect, 0, 1); }
extern "C" void job_C18_make_hotp(void) { own(make_use, 0, 0); }
extern "C" void job_C18_make_totp(void) { own(make_use, 1, 0); }
extern "C" void job_C18_make_hmac(void) { own(make_use, 2, 0); }
extern "C" void job_C18_make_blowfish(void) { own(make_use, 3, 0); }
extern "C" void job_C18_make_other(void) { own(make_use, 4, 0); }
extern "C" void job_C18_data(void) { own(sd_use, 0, 0); }
// an allocation fails inside one operation; the same object, asked again, gives the right result and releases everything
template <class Make, class Op, class Again> static void retry(const char *what, Make make, Op op, Again again) {
    for (unsigned long f = 1; f < 12; f++) {
        u64 mk = sv_mark(); int failed, thrown = 0; sv_case(what, f, 0, 0);
        { auto o = make(); sv_fail_alloc(f); try { op(*o); } catch (...) { thrown = 1; } failed = sv_alloc_failed(); sv_eq64((u64)thrown, (u64)failed, "the failure is reported"); again(*o); again(*o); }
        sv_noleak(mk, "after the object that met the failure was destroyed"); if (!failed) break;
    }
}
static void retry_hash(int a) {
    for (int i = 0; i < 300; i++) MSG[i] = (u8)(i * 7);
    size_t d = ref_dsz(a); u8 *w = buf(d); ref_hash(a, MSG, 40, w, 8 * d); SequentialData sd(MSG, 40); std::string st((const char *)MSG, 40);
    auto make = [&] { return std::make_unique<HashEncoder>(alg(a)); };
    auto again = [&](HashEncoder &h) { h.reset(); h.update(MSG, 40); same(h.get_digest(), w, d, "digest afterwards"); };
    retry("failure in update, digest, reset", make, [&](HashEncoder &h) { AbstractHashEncoder &b = h; b.update(sd); b.update(st); h.get_digest(); h.reset(); h.update(MSG, 40); h.get_digest(); h.get_digest(16); h.reset(); }, again);
}
static void retry_mac(int a) {
    for (int i = 0; i < 300; i++) MSG[i] = (u8)(i * 7);
    size_t d = ref_dsz(a); u8 *w = buf(d); ref_hmac(a, KEY, 36, MSG, 40, w); SequentialData sd(MSG, 40); std::string st((const char *)MSG, 290);
    auto make = [&] { return std::make_unique<HMACEncoder>(alg(a), KEY, 36); };
    auto again = [&](HMACEncoder &h) { h.reset(); h.update(MSG, 40); same(h.get_digest(), w, d, "keyed digest afterwards"); };
    retry("failure in update, digest, reset", make, [&](HMACEncoder &h) { AbstractHashEncoder &b = h; b.update(sd); h.get_digest(); h.reset(); h.update(MSG, 40); h.get_digest(); h.reset(); }, again);
}
static void retry_otp(int a) {
    std::string b32("GEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQ"); u8 dec[60]; for (int i = 0; i < 60; i++) dec[i] = (u8)("1234567890"[i % 10]);
    u32 w = ref_hotp(a, KEY, 36, 9, 8), w2 = ref_hotp(a, dec, 60, 9, 8); SequentialData sd(KEY, 36); std::string ks((const char *)KEY, 36);
    auto make = [&] { auto h = std::make_unique<HOTP>(alg(a)); h->set_secret(KEY, 36); h->set_counter(9); return h; };
    retry("failure in a password", make, [&](HOTP &h) { h.generate(8); h.generate_str(8); h.generate_str(20); }, [&](HOTP &h) { h.set_counter(9); sv_eq64(h.generate(8), w, "password afterwards"); });
    retry("failure in a change of secret", make, [&](HOTP &h) { h.set_secret(sd); }, [&](HOTP &h) { h.set_secret(sd); h.set_counter(9); sv_eq64(h.generate(8), w, "password afterwards"); });
    retry("failure in a change of secret in Base32", make, [&](HOTP &h) { h.set_secret(b32, true); }, [&](HOTP &h) { h.set_secret(b32, true); h.set_counter(9); sv_eq64(h.generate(8), w2, "password afterwards"); });
    retry("failure in a change of secret in Base32, text", make, [&](HOTP &h) { h.set_secret_from_base32(b32.c_str()); }, [&](HOTP &h) { h.set_secret_from_base32(b32.c_str()); h.set_counter(9); sv_eq64(h.generate(8), w2, "password afterwards"); });
    sv_now = 1000; u32 wt = ref_hotp(a, KEY, 36, 33, 8);
    retry("failure in a password of the time", [&] { return std::make_unique<TOTP>(ks, 30, alg(a)); }, [&](TOTP &t) { t.generate(8); t.generate_str(20); t.set_secret(KEY, 36); }, [&](TOTP &t) { t.set_secret(KEY, 36); sv_eq64(t.generate(8), wt, "password afterwards"); });
}
#define J(i, n) extern "C" void job_C18_retry_hash_##n(void) { retry_hash(i); }
EACH_HASH(J)
#undef J
#define J(i, n) extern "C" void job_C18_retry_hmac_##n(void) { retry_mac(i); }
EACH_MAC(J)
#undef J
extern "C" void job_C18_retry_otp(void) { retry_otp(R_SHA1); }
extern "C" void job_C18_retry_otp256(void) { retry_otp(R_SHA256); }
extern "C" void job_C18_retry_data(void) {
    for (int i = 0; i < 300; i++) MSG[i] = (u8)(i * 7);
    u8 *w = buf(300); memcpy(w, MSG, 300); for (int i = 0; i < 5; i++) w[i] = w[299 - i] = 0; w[5] = 1; w[294] = 1; u8 k[36]; memcpy(k, KEY, 36);
    auto make = [&] { return std::make_unique<SequentialData>(w, 300); };
    auto all = [&](SequentialData &d) { SequentialData c(d), e(&d), t = d.trim(), l = d.trim_left(), r = d.trim_right(); std::string h = d.hex_str(), s = d.to_str(); };
    retry("failure in conversions of data", make, all, [&](SequentialData &d) { same(&d, w, 300, "data afterwards"); SequentialData t = d.trim(); same(&t, w + 5, 290, "trimmed data"); sv_eq64(d.hex_str().length(), 600, "digits"); });
    retry("failure in trimming in place", make, [&](SequentialData &d) { d.trim_(); }, [&](SequentialData &d) { d.trim_(); same(&d, w + 5, 290, "trimmed data"); });
    u32 P[18], S[4][256]; ref_bf_init(P, S, KEY, 36); u8 *e = buf(104); memset(e, 0, 104); memcpy(e, MSG, 100);
    for (size_t q = 0; q < 104; q += 8) { u32 L = 0, R = 0; for (int z = 0; z < 4; z++) { L = L << 8 | e[q + z]; R = R << 8 | e[q + 4 + z]; } ref_bf_enc(P, (const u32(*)[256])S, &L, &R); for (int z = 0; z < 4; z++) { e[q + z] = (u8)(L >> (24 - 8 * z)); e[q + 4 + z] = (u8)(R >> (24 - 8 * z)); } }
    std::string ks((const char *)KEY, 36);
    retry("failure in encryption and decryption", [&] { return std::make_unique<Blowfish>(ks); }, [&](Blowfish &b) { SequentialData x = b.encrypt(MSG, 100), y = b.decrypt(x), z = b.encrypt(ks); }, [&](Blowfish &b) { SequentialData x = b.encrypt(MSG, 100); same(&x, e, 104, "ciphertext afterwards"); });
}
// deleting through a base class releases everything, too
extern "C" void job_C18_bases(void) {
    for (int i = 0; i < 16; i++) { u64 mk = sv_mark(); sv_case("object deleted through a base class", (u64)i, 0, 0);
        { if (i == 0) { AbstractEncoder *e = new HashEncoder(SHA256); e->update(MSG, 3); delete e; } if (i == 1) { AbstractEncoder *e = new HMACEncoder(SHA1, KEY, 36); e->update(MSG, 3); delete e; }
          if (i == 2) { AlgorithmSelectable *e = new HashEncoder(SHA512); delete e; } if (i == 3) { AbstractOTP *o = new HOTP(KEY, 36); o->generate(6); delete o; } if (i == 4) { HOTP *o = new TOTP(KEY, 36); delete o; } if (i == 5) { AlgorithmSelectable *o = new TOTP(KEY, 36); delete o; }
          if (i == 6) { AbstractSymmetricCrypter *c = new Blowfish("key"); c->encrypt("text"); delete c; } if (i > 6 && i < 12) { AbstractBaseEncoding *c = codec(i - 7); c->encode(MSG, 290); delete c; } if (i == 12) { AbstractHashEncoder *h = new HashEncoder(MD5); h->get_digest(); delete h; } }
        sv_noleak(mk, "after deletion through a base class"); }
}
