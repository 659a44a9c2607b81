// Every history: all sequences of operations up to a length on one object, each result compared with what a model of the object says.
#include "cxx.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/fishes/blowfish.hpp"
static u8 T[600]; static void fill() { for (int i = 0; i < 600; i++) T[i] = (u8)(i * 37 + (i >> 3) * 5 + 11); T[7] = 0; }
static u64 power(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
// the digits of `code` in base `ops` are the operations
#define HISTORIES(ops, len) for (u64 code = 0, all = power(ops, len); code < all; code++)
#define STEPS(ops, len) for (u64 rest = code, step = 0, op = rest % (ops); step < (u64)(len); step++, rest /= (ops), op = rest % (ops))
struct Msg { u8 b[1400]; size_t n = 0; void add(const u8 *p, size_t k) { memcpy(b + n, p, k); n += k; } };
static void hash_hist(int a) {
    fill(); size_t b = ref_bsz(a), d = H[a].xof ? (a < R_RAWSHAKE256 ? 32 : 64) : ref_dsz(a); int len = sv_tier() ? 4 : 3; u8 w[300];
    HISTORIES(6, len) {
        sv_case("operations on a hash object", code, 0, 0); HashEncoder h(alg(a)); Msg m; u64 out = 0; bool done = false;
        auto ask = [&](u64 bits) { if (done && !H[a].xof) { h.get_digest(bits); return; }
            if (!H[a].xof) { ref_hash(a, m.b, m.n, w, 8 * d); u64 n = !bits ? d : (bits + 7) / 8; same(h.get_digest(bits), w, n < d ? n : d, "digest"); }
            else { u64 n = bits ? bits / 8 : d; ref_hash(a, m.b, m.n, w, 8 * (out + n)); same(h.get_digest(bits), w + out, n, "digest"); out += n; }
            done = true; };
        STEPS(6, len) {
            if (op == 0) { if (done) { h.reset(); m.n = 0; out = 0; done = false; } h.update(T, 5); m.add(T, 5); }
            if (op == 1) { if (done) { h.reset(); m.n = 0; out = 0; done = false; } h.update(T + 50, b + 3); m.add(T + 50, b + 3); }
            if (op == 2) ask(0); if (op == 3) ask(16); if (op == 4) ask(8 * (d + 5));
            if (op == 5) { h.reset(); m.n = 0; out = 0; done = false; }
            sv_eq64(h.block_size(), b, "block size"); sv_eq64(h.algorithm(), alg(a), "algorithm"); if (!H[a].xof) sv_eq64(h.digest_size(), d, "digest size");
        }
        h.reset(); m.n = 0; out = 0; done = false; h.update(T, 3); m.add(T, 3); ask(0);
    }
}
#define J(i, n) extern "C" void job_C12_hist_##n(void) { hash_hist(i); }
EACH_HASH(J)
#undef J
static void hmac_hist(int a) {
    fill(); size_t b = ref_bsz(a), d = ref_dsz(a); int len = sv_tier() ? 5 : 3; u8 w[64];
    HISTORIES(4, len) {
        size_t kl = code % 3 == 0 ? 5 : code % 3 == 1 ? b : b + 1;
        sv_case("operations on a keyed object/key bytes", code, kl, 0); HMACEncoder h(alg(a), T + 300, kl); Msg m; bool done = false;
        auto ask = [&] { if (done) { h.get_digest(); return; } ref_hmac(a, T + 300, kl, m.b, m.n, w); same(h.get_digest(), w, d, "keyed digest"); done = true; };
        STEPS(4, len) {
            if (done && op < 2) { h.reset(); m.n = 0; done = false; }
            if (op == 0) { h.update(T, 5); m.add(T, 5); } if (op == 1) { h.update(T + 50, b + 3); m.add(T + 50, b + 3); }
            if (op == 2) ask(); if (op == 3) { h.reset(); m.n = 0; done = false; }
            sv_eq64(h.block_size(), b, "block size"); sv_eq64(h.digest_size(), d, "digest size");
        }
        h.reset(); m.n = 0; done = false; h.update(T, 3); m.add(T, 3); ask();
    }
}
#define J(i, n) extern "C" void job_C12_hist_hmac_##n(void) { hmac_hist(i); }
EACH_MAC(J)
#undef J
static void codec_hist(AbstractBaseEncoding *(*mk)(), int k) {
    fill(); static const size_t S[] = {0, 1, 6, 41}; static char enc[4][100]; int len = sv_tier() ? 4 : 3; for (int i = 0; i < 4; i++) enc[i][CD[k].ref(T, S[i], enc[i])] = 0;
    HISTORIES(8, len) {
        sv_case("operations on a codec object", code, 0, 0); std::unique_ptr<AbstractBaseEncoding> c(mk());
        STEPS(8, len) { size_t i = op % 4, n = S[i];
            if (op < 4) { if (step % 2) { SequentialData sd(T, n); sames(c->encode(sd), enc[i], enclen(k, n), "encoding"); } else sames(c->encode(T, n), enc[i], enclen(k, n), "encoding"); }
            else if (step % 2) { std::string s(enc[i]); SequentialData r = c->decode(s); same(&r, T, n, "decoded text"); } else { SequentialData r = c->decode(enc[i]); same(&r, T, n, "decoded text"); } }
    }
}
extern "C" void job_C12_hist_base16(void) { codec_hist([]() -> AbstractBaseEncoding * { return new Base16; }, 0); }
extern "C" void job_C12_hist_base32(void) { codec_hist([]() -> AbstractBaseEncoding * { return new Base32; }, 1); }
extern "C" void job_C12_hist_base32hex(void) { codec_hist([]() -> AbstractBaseEncoding * { return new Base32(true); }, 2); }
extern "C" void job_C12_hist_base64(void) { codec_hist([]() -> AbstractBaseEncoding * { return new Base64; }, 3); }
extern "C" void job_C12_hist_base64url(void) { codec_hist([]() -> AbstractBaseEncoding * { return new Base64(true); }, 4); }
static void num(u32 v, unsigned digits, char *o) { for (unsigned i = digits; i-- > 0; v /= 10) o[i] = (char)('0' + v % 10); }
struct Secret { const u8 *k; size_t n; };
static Secret give(HOTP &h, int form) {
    static char b32[40]; SequentialData sd(T, 12); std::string s((const char *)T, 20);
    switch (form) { case 0: h.set_secret(T, 70); return {T, 70}; case 1: h.set_secret(sd); return {T, 12}; case 2: h.set_secret(s); return {T, 20};
        case 3: b32[ref_b32(T + 60, 10, b32, 0)] = 0; h.set_secret(b32, true); return {T + 60, 10}; default: h.set_secret("text"); return {(const u8 *)"text", 4}; }
}
static void hotp_hist(int a) {
    fill(); int len = sv_tier() ? 4 : a == R_SHA1 ? 3 : 2;
    HISTORIES(9, len) {
        sv_case("operations on a counter-based object", code, 0, 0); HOTP h(T + 100, 20, alg(a)); Secret s = {T + 100, 20}; u64 c = 0; char w[12];
        auto ask = [&](unsigned digits, bool str) { u32 v = ref_hotp(a, s.k, s.n, c, (int)digits); if (!str) { sv_eq64(h.generate((u8)digits), v, "password"); return; } num(v, digits, w); sames(h.generate_str((u8)digits), w, digits, "password in decimal"); };
        STEPS(9, len) { if (op < 5) s = give(h, (int)op); if (op == 5) h.set_counter(c = 0x100000001ull + step); if (op == 6) h.set_counter(c = 3); if (op == 7) ask(6, false); if (op == 8) ask(8, true); }
        ask(6, true); ask(7, false);
    }
}
extern "C" void job_C06_hist_sha1(void) { hotp_hist(R_SHA1); }
extern "C" void job_C06_hist_sha256(void) { hotp_hist(R_SHA256); }
static void totp_hist(int a) {
    fill(); int len = sv_tier() ? 4 : a == R_SHA1 ? 3 : 2;
    HISTORIES(9, len) {
        sv_case("operations on a time-based object", code, 0, 0); sv_now = 1000000; TOTP t(T + 100, 20, 30, alg(a)); Secret s = {T + 100, 20}; u64 iv = 30, start = 0, left = 0, when = 0; char w[12];
        auto ask = [&](unsigned digits, bool str) { u64 now = (u64)sv_now, c = (now - start) / iv; u32 v = ref_hotp(a, s.k, s.n, c, (int)digits); if (!str) sv_eq64(t.generate((u8)digits), v, "time-based password"); else { num(v, digits, w); sames(t.generate_str((u8)digits), w, digits, "time-based password in decimal"); }
            when = now; left = iv - (now - start) % iv; sv_eq64((u64)t.remaining_time(), left, "remaining seconds"); sv_eq64((u64)t.update_time(), now, "time of the password"); };
        STEPS(9, len) { if (op == 0) sv_now += 1; if (op == 1) sv_now += 40; if (op == 2) t.set_interval((pgfe_totp_interval_t)(iv = 45)); if (op == 3) { start = 10 + step; t.set_initial_time((time_t)start); } if (op == 4) s = give(t, 3); if (op == 5) s = give(t, (int)step % 3); if (op == 6) t.set_counter(5); if (op == 7) ask(6, false); if (op == 8) ask(8, true);
            sv_eq64(t.interval(), iv, "interval"); sv_eq64((u64)t.initial_time(), start, "initial time"); }
        ask(6, false); sv_now += 1; if (left > 1) sv_eq64((u64)t.remaining_time(), left - 1, "remaining seconds a second later"); ask(8, true);
    }
}
extern "C" void job_C07_hist_sha1(void) { totp_hist(R_SHA1); }
extern "C" void job_C07_hist_sha512(void) { totp_hist(R_SHA512); }
extern "C" void job_C11_hist(void) {
    fill(); static const size_t S[] = {0, 5, 8, 19}; int len = sv_tier() ? 4 : 3; u32 P[18], X[4][256]; ref_bf_init(P, X, T, 16); const u32(*CX)[256] = (const u32(*)[256])X; static u8 w[2][4][24];
    for (int dec = 0; dec < 2; dec++) for (int i = 0; i < 4; i++) for (size_t b = 0; b < S[i]; b += 8) { u8 p[8]; u32 L = 0, R = 0; for (size_t j = 0; j < 8; j++) p[j] = b + j < S[i] ? T[50 + b + j] : 0; for (int j = 0; j < 4; j++) { L = L << 8 | p[j]; R = R << 8 | p[4 + j]; } if (dec) ref_bf_dec(P, CX, &L, &R); else ref_bf_enc(P, CX, &L, &R); for (int j = 0; j < 4; j++) { w[dec][i][b + (size_t)j] = (u8)(L >> (24 - 8 * j)); w[dec][i][b + 4 + (size_t)j] = (u8)(R >> (24 - 8 * j)); } }
    Blowfish c(T, 16);
    HISTORIES(8, len) { sv_case("operations on a Blowfish object", code, 0, 0);
        STEPS(8, len) { size_t i = op % 4, n = S[i]; int dec = op >= 4; SequentialData sd(T + 50, n); SequentialData r = step % 2 ? (dec ? c.decrypt(sd) : c.encrypt(sd)) : dec ? c.decrypt(T + 50, n) : c.encrypt(T + 50, n); same(&r, w[dec][i], (n + 7) / 8 * 8, dec ? "decryption" : "encryption"); } }
}
extern "C" void job_C22_hist(void) {
    static const u8 I[8] = {0, 0, 7, 0, 0, 9, 0, 0}; int len = sv_tier() ? 5 : 4;
    HISTORIES(9, len) {
        sv_case("operations on a data object", code, 0, 0); std::unique_ptr<SequentialData> a(new SequentialData(I, 8)); u8 m[64]; size_t n = 8; memcpy(m, I, 8);
        auto left = [](u8 *p, size_t &k) { size_t z = 0; while (z < k && !p[z]) z++; memmove(p, p + z, k - z); k -= z; }; auto right = [](u8 *p, size_t &k) { while (k && !p[k - 1]) k--; };
        STEPS(9, len) {
            if (op == 0) { a->trim_left_(); left(m, n); } if (op == 1) { a->trim_right_(); right(m, n); } if (op == 2) { a->trim_(); left(m, n); right(m, n); }
            if (op == 3) { a->push_back(0); m[n++] = 0; } if (op == 4) { a->push_back((u8)(5 + step)); m[n++] = (u8)(5 + step); }
            if (op == 5) { a.reset(new SequentialData(*a)); a->insert(a->begin(), (u8)0); memmove(m + 1, m, n); m[0] = 0; n++; }
            if (op == 6) { SequentialData r = step % 2 ? a->trim_left() : a->trim_right(); u8 q[64]; size_t k = n; memcpy(q, m, n); if (step % 2) left(q, k); else right(q, k); same(&r, q, k, "trimmed copy"); }
            if (op == 7) { SequentialData r = a->trim(); a.reset(new SequentialData(std::move(r))); left(m, n); right(m, n); }
            if (op == 8) { a.reset(new SequentialData(a.get())); size_t l; a->to_pgfe_seq(l); sv_eq64(l, n, "length of the sequence"); sames(a->to_str(), (const char *)m, n, "data as a string"); sv_eq64(a->hex_str().length(), 2 * n, "length in hexadecimal"); }
            same(a.get(), m, n, "bytes of the data");
        }
    }
}
// The same object used many times in a row: nothing wears out.
extern "C" void job_C12_many_objects(void) {
    fill(); u8 w[64]; int times = sv_tier() ? 1100 : 300; sv_case("hash object, many messages", 0, 0, 0);
    { HashEncoder h(MD5), x(SHAKE128); ref_hash(R_MD5, T, 4, w, 128); for (int i = 0; i < times; i++) { h.update(T, 4); same(h.get_digest(), w, 16, "digest"); h.reset(); if (i < 80) { x.update(T, 4); x.get_digest(8); x.reset(); } } x.update(T, 4); ref_hash(R_SHAKE128, T, 4, w, 256); same(x.get_digest(), w, 32, "digest"); }
    sv_case("keyed object, many messages", 0, 0, 0);
    { HMACEncoder h(MD5, T, 9); ref_hmac(R_MD5, T, 9, T, 4, w); for (int i = 0; i < times; i++) { h.update(T, 4); same(h.get_digest(), w, 16, "keyed digest"); h.reset(); } }
    sv_case("one-time passwords, many", 0, 0, 0);
    { HOTP h(T, 20, MD5); TOTP t(T, 20, 30, MD5); for (int i = 0; i < times; i++) { u64 c = (u64)i * 3; h.set_counter(c); u32 v = ref_hotp(R_MD5, T, 20, c, 6); sv_eq64(h.generate(6), v, "password"); sv_now = (int64_t)c * 30 + 7; sv_eq64(t.generate(6), v, "time-based password"); h.set_secret(T, 20); } }
    sv_case("cipher object, many messages", 0, 0, 0);
    { Blowfish c(T, 9); SequentialData first = c.encrypt(T, 9); for (int i = 0; i < times; i++) { SequentialData r = c.encrypt(T, 9); same(&r, first.c_str(), 16, "encryption"); SequentialData q = c.decrypt(r); sv_eq64(q.length(), 16, "length of the decryption"); sv_eq(q.c_str(), T, 9, "decryption"); } }
}
extern "C" void job_C12_many_codecs(void) {
    fill(); int times = sv_tier() ? 66000 : 3000; char e[5][40]; for (int k = 0; k < 5; k++) e[k][CD[k].ref(T, 3, e[k])] = 0;
    Base16 a; Base32 b, bh(true); Base64 c, cu(true); AbstractBaseEncoding *o[5] = {&a, &b, &bh, &c, &cu};
    for (int k = 0; k < 5; k++) { sv_case("codec object, many messages", (u64)k, 0, 0); for (int i = 0; i < times; i++) { sames(o[k]->encode(T, 3), e[k], enclen(k, 3), "encoding"); SequentialData r = o[k]->decode(e[k]); same(&r, T, 3, "decoded text"); } }
}
extern "C" void job_C02_many_updates(void) {
    static const int A[] = {R_MD5, R_SHA256, R_SHA512, R_SHA3_224}; size_t n = sv_tier() ? 66100 : 5000; u8 *m = buf(n), w[64]; for (size_t i = 0; i < n; i++) m[i] = (u8)(i * 29 + (i >> 8));
    for (int j = 0; j < 4; j++) { int a = A[j]; size_t d = ref_dsz(a); ref_hash(a, m, n, w, 8 * d); u8 *got = buf(d);
        { sv_case("single bytes, algorithm", (u64)a, 0, 0); void *c = sv_buf(H[a].ctxsz); H[a].init(c); for (size_t i = 0; i < n; i++) { H[a].update(c, m + i, 1); if (i % 7 == 0) H[a].update(c, m, 0); } h_digest(a, c, got, 8 * d); sv_eq(got, w, d, "digest"); sv_free(c); }
        { sv_case("single bytes into a keyed object, algorithm", (u64)a, 0, 0); HMACEncoder h(alg(a), T, 3); for (size_t i = 0; i < n; i++) h.update(m + i, 1); u8 z[64]; ref_hmac(a, T, 3, m, n, z); same(h.get_digest(), z, d, "keyed digest"); } }
}
