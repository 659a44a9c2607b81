// C26: objects that can be copied or moved.
#include "cxx.h"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/otp/totp.hpp"
#include <type_traits>
#include <new>
// (a class that cannot be copied or moved makes no promise)
template <class T> static typename std::enable_if<std::is_move_constructible<T>::value, T *>::type mv(T *p) { return new T(std::move(*p)); }
template <class T> static typename std::enable_if<!std::is_move_constructible<T>::value, T *>::type mv(T *) { return nullptr; }
template <class T> static typename std::enable_if<std::is_move_assignable<T>::value, bool>::type as(T *q, T *p) { *q = std::move(*p); return true; }
template <class T> static typename std::enable_if<!std::is_move_assignable<T>::value, bool>::type as(T *, T *) { return false; }
template <class T> static typename std::enable_if<std::is_copy_constructible<T>::value, T *>::type cp(const T *p) { return new T(*p); }
template <class T> static typename std::enable_if<!std::is_copy_constructible<T>::value, T *>::type cp(const T *) { return nullptr; }
template <class T> static typename std::enable_if<std::is_copy_assignable<T>::value, bool>::type ca(T *q, const T *p) { *q = *p; return true; }
template <class T> static typename std::enable_if<!std::is_copy_assignable<T>::value, bool>::type ca(T *, const T *) { return false; }
static void mac(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a); u8 *key = arb(b + 2, "key"), *x = arb(b + 9, "msg"), *w = buf(d), *v = buf(d); sv_const(key); sv_const(x); u64 mk = sv_mark();
    for (int form = 0; form < 4; form++) for (size_t n = 3; n < b + 9; n += b - 2) {
        if (n > 3 && form != 1 && !sv_tier()) continue; sv_case("keyed object moved: form/bytes before", (u64)form, n, 0); size_t kl = form % 2 ? b + 2 : 11; ref_hmac(a, key, kl, x, n + 7, w); ref_hmac(a, key, kl, x, 5, v);
        HMACEncoder *h = new HMACEncoder(alg(a), key, kl), *g = nullptr; h->update(x, 5); const SequentialData *r = h->get_digest(); same(r, v, d, "keyed digest before"); h->reset(); h->update(x, n);
        if (form == 0 || form == 3) { g = mv(h); if (!g) { delete h; continue; } } else { g = form == 1 ? new HMACEncoder(alg(a), "another key") : new HMACEncoder(alg((a + 5) % 12), x, 3); g->update(x, 3); g->get_digest(); if (!as(g, h)) { delete g; delete h; continue; } }
        delete h; if (form == 3) { HMACEncoder *f = mv(g); delete g; g = f; }
        sv_eq64(g->algorithm(), alg(a), "algorithm of the moved object"); sv_eq64(g->block_size(), b, "block size of the moved object"); sv_eq64(g->digest_size(), d, "digest size of the moved object");
        g->update(x + n, 7); same(g->get_digest(), w, d, "keyed digest of the moved object"); g->reset(); g->update(x, 5); same(g->get_digest(), v, d, "keyed digest after a reset of the moved object"); delete g;
    }
    sv_noleak(mk, "keyed objects");
}
#define J(i, n) extern "C" void job_C26_mobj_##n(void) { mac(i); }
EACH_MAC(J)
#undef J
extern "C" void job_C26_obj_blowfish(void) {
    u8 key[24], x[16], *w = buf(16), *v = buf(16); for (int i = 0; i < 24; i++) key[i] = (u8)(i * 7 + 1); sv_bytes(x, 16, "text"); u32 P[18], S[4][256]; u64 mk = sv_mark();
    for (int f = 0; f < 2; f++) { ref_bf_init(P, S, key + f, 20); for (int b = 0; b < 16; b += 8) { u32 L = 0, R = 0; for (int i = 0; i < 4; i++) { L = L << 8 | x[b + i]; R = R << 8 | x[b + 4 + i]; } ref_bf_enc(P, S, &L, &R); for (int i = 0; i < 4; i++) { (f ? v : w)[b + i] = (u8)(L >> (24 - 8 * i)); (f ? v : w)[b + 4 + i] = (u8)(R >> (24 - 8 * i)); } } }
    for (int form = 0; form < 4; form++) {
        sv_case("Blowfish object copied or moved, form", (u64)form, 0, 0); Blowfish *h = new Blowfish(key, 20), *g = nullptr, *other = new Blowfish(key + 1, 20);
        if (form == 0) g = cp(h); else if (form == 1) g = mv(h); else { g = new Blowfish(key + 1, 20); if (!(form == 2 ? ca(g, h) : as(g, h))) { delete g; g = nullptr; } }
        if (g) { if (form % 2 == 0) { SequentialData k = h->encrypt(x, 16); same(&k, w, 16, "ciphertext of the original"); ca(h, other); SequentialData q = h->encrypt(x, 16); same(&q, v, 16, "ciphertext of the original with another key"); } }
        delete h; if (g) { SequentialData e = g->encrypt(x, 16); same(&e, w, 16, "ciphertext of the copy"); SequentialData t = g->decrypt(e); same(&t, x, 16, "text through the copy"); delete g; }
        SequentialData e = other->encrypt(x, 16); same(&e, v, 16, "ciphertext of an object with another key"); delete other;
    }
    sv_noleak(mk, "Blowfish objects");
}
// Classes that cannot be copied or moved today: as soon as one can, it has to do it right.
template <class T> static T *dup(T *h, T *other, int form) { if (form == 0) return cp(h); if (form == 1) { T *g = mv(h); return g; } if (!(form == 2 ? ca(other, h) : as(other, h))) return nullptr; return other; }
static void hashobj(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a); u8 *x = arb(b + 9, "msg"), *w = buf(d), *v = buf(d); sv_const(x); ref_hash(a, x, b + 9, w, 8 * d); ref_hash(a, x, b, v, 8 * d); u64 mk = sv_mark();
    for (int form = 0; form < 4; form++) {
        sv_case("hash object copied or moved, form", (u64)form, 0, 0); HashEncoder *h = new HashEncoder(alg(a)), *o = new HashEncoder(alg((a + 5) % 12)); h->update(x, 7); h->get_digest(); h->reset(); h->update(x, b); o->update(x, 3); HashEncoder *g = dup(h, o, form);
        if (form % 2 == 0 || !g) same(h->get_digest(), v, d, "digest of the original"); delete h; if (g) { g->update(x + b, 9); same(g->get_digest(), w, d, "digest of the copy"); if (g != o) delete g; } delete o;
    }
    sv_noleak(mk, "hash objects");
}
#define J(i, n) extern "C" void job_C26_obj_##n(void) { hashobj(i); }
EACH_MAC(J)
#undef J
template <class T> static void otp(int a, T *(*make)(int)) {
    u8 *k = arb(20, "secret"); sv_const(k); u64 mk = sv_mark();
    for (int form = 0; form < 4; form++) {
        sv_case("password object copied or moved: form/algorithm", (u64)form, (u64)a, 0); sv_now = 1700000000; T *h = make(a), *o = make((a + 5) % 12); h->set_secret(k, 20); h->set_counter(77); o->set_secret(k, 3); o->set_counter(5); T *g = dup(h, o, form); u32 w = ref_hotp(a, k, 20, 77, 6);
        if (form % 2 == 0 || !g) sv_eq64(h->generate(6), w, "password of the original"); delete h; if (g) { sv_eq64(g->generate(6), w, "password of the copy"); if (g != o) delete g; } delete o;
    }
    sv_noleak(mk, "password objects");
}
static HOTP *hotp(int a) { return new HOTP(alg(a)); }
extern "C" void job_C26_obj_hotp(void) { for (int a = 0; a < 12; a++) otp<HOTP>(a, hotp); }
extern "C" void job_C26_obj_totp(void) {
    u8 *k = arb(20, "secret"); sv_const(k); u64 mk = sv_mark();
    for (int a = 0; a < 12; a++) for (int form = 0; form < 4; form++) {
        sv_case("password object copied or moved: form/algorithm", (u64)form, (u64)a, 0); sv_now = 1700000000; TOTP *h = new TOTP(k, 20, 45, alg(a)), *o = new TOTP(k, 3, 30, alg((a + 5) % 12)); TOTP *g = dup(h, o, form); u32 w = ref_hotp(a, k, 20, 1700000000 / 45, 6);
        if (form % 2 == 0 || !g) sv_eq64(h->generate(6), w, "password of the original"); delete h; if (g) { sv_eq64(g->generate(6), w, "password of the copy"); if (g != o) delete g; } delete o;
    }
    sv_noleak(mk, "password objects");
}
template <class T> static void codec(int k, T *(*make)()) {
    u8 *x = arb(11, "data"); sv_const(x); char w[40]; size_t n = CD[k].ref(x, 11, w); u64 mk = sv_mark();
    for (int form = 0; form < 4; form++) {
        sv_case("codec copied or moved, form", (u64)form, 0, 0); T *h = make(), *o = make(); delete std::make_unique<std::string>(h->encode(x, 3)).release(); T *g = dup(h, o, form);
        if (form % 2 == 0 || !g) sames(h->encode(x, 11), w, n, "text of the original"); delete h; if (g) { sames(g->encode(x, 11), w, n, "text of the copy"); if (g != o) delete g; } delete o;
    }
    sv_noleak(mk, "codecs");
}
extern "C" void job_C26_obj_base16(void) { codec<Base16>(0, []() { return new Base16; }); }
extern "C" void job_C26_obj_base32(void) { codec<Base32>(1, []() { return new Base32; }); }
extern "C" void job_C26_obj_base32hex(void) { codec<Base32>(2, []() { return new Base32(true); }); }
extern "C" void job_C26_obj_base64(void) { codec<Base64>(3, []() { return new Base64; }); }
extern "C" void job_C26_obj_base64url(void) { codec<Base64>(4, []() { return new Base64(true); }); }
