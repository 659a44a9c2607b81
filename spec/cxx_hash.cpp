#include "cxx.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/generic.hpp"
static void hash_obj(int a) {
    size_t b = ref_bsz(a), d = H[a].xof ? (a < R_RAWSHAKE256 ? 32 : 64) : ref_dsz(a), lens[] = {0, 1, b - 1, b, b + 9};
    u8 *x = arb(b + 9, "msg"), *want = buf(d);
    const char *s = text(13); std::string str((const char *)x, 21); SequentialData sd(x, 22);
    { const u8 *z = zeros(12); std::string zs((const char *)z, 12); SequentialData zd(z, 12); u8 zz[24]; memcpy(zz, z, 12); memcpy(zz + 12, z, 12); sv_case("hash object, zero bytes inside", 0, 0, 0);
      HashEncoder h(alg(a)); h.update(zs); h.update(zd); ref_hash(a, zz, 24, want, 8 * d); same(h.get_digest(), want, d, "digest of a string and data with zero bytes"); }
    for (int i = 0; i < 5; i++) {
        size_t n = lens[i]; u64 mk = sv_mark(); sv_case("hash object, bytes", n, 0, 0);
        { HashEncoder h(alg(a));
          sv_eq64(h.algorithm(), alg(a), "algorithm"); sv_eq64(h.block_size(), b, "block size"); if (!H[a].xof) sv_eq64(h.digest_size(), d, "digest size");
          const u8 *in = (const u8 *)sv_cbuf(x, n); h.update(in, n); sv_free((void *)in);
          ref_hash(a, x, n, want, 8 * d); same(h.get_digest(), want, d, "digest of the object");
          for (int again = 0; again < 2; again++) { h.reset(); h.update(x, n); same(h.get_digest(), want, d, "digest after reset"); }
        }
        sv_noleak(mk, "hash object");
    }
    sv_case("hash object, other argument types", 0, 0, 0);
    u8 all[56]; memcpy(all, s, 13); memcpy(all + 13, x, 21); memcpy(all + 34, x, 22);
    { HashEncoder h(alg(a)); h.update(s); h.update(str); h.update(sd); ref_hash(a, all, 56, want, 8 * d); same(h.get_digest(), want, d, "digest of text, string and data");
      AbstractHashEncoder &r = h; r.reset(); r.update(s); r.update(str); r.update(sd); AbstractEncoder &e = h; e.update(x, 3); sv_eq64(r.block_size(), b, "block size"); }
    { HashEncoder h(alg(a)); AbstractEncoder &e = h; e.update(str); e.update(s); memcpy(all, x, 21); memcpy(all + 21, s, 13); ref_hash(a, all, 34, want, 8 * d); same(h.get_digest(), want, d, "digest through the base class"); }
    if (H[a].xof) {
        u64 bits[] = {1, 8, 13, 100, 8 * b, 8 * b + 8, 2 * 8 * b + 3};
        for (int i = 0; i < 7; i++) { size_t m = (size_t)(bits[i] + 7) / 8; u8 *w = buf(m); sv_case("output bits", bits[i], 0, 0); HashEncoder h(alg(a)); h.update(x, 5); ref_hash(a, x, 5, w, 8 * m); if (bits[i] % 8) w[m - 1] &= (u8)((1 << bits[i] % 8) - 1); same(h.get_digest(bits[i]), w, m, "digest of a given length"); sv_free(w); }
    } else for (size_t m = 1; m <= d + 3; m += m == 1 ? d - 3 : 1) { sv_case("output bytes", m, 0, 0); HashEncoder h(alg(a)); h.update(x, 5); ref_hash(a, x, 5, want, 8 * d); same(h.get_digest(8 * m), want, m < d ? m : d, "shortened digest"); }
    if (!H[a].xof) { u64 odd[] = {1, 7, 9, 8 * d - 9, 8 * d - 1, 8 * d + 1, 1ull << 40}; for (int i = 0; i < 7; i++) { size_t m = (size_t)((odd[i] + 7) / 8); if (m > d) m = d; sv_case("output bits", odd[i], 0, 0); HashEncoder h(alg(a)); h.update(x, 5); ref_hash(a, x, 5, want, 8 * d);
        const SequentialData *r = h.get_digest(odd[i]); sv_eq64(r->length(), m, "length of the shortened digest"); sv_eq(r->c_str(), want, odd[i] / 8 < d ? (size_t)(odd[i] / 8) : d, "shortened digest"); sv_defined(r->c_str(), m, "shortened digest"); } }
}
#define J(i, n) extern "C" void job_C12_hash_##n(void) { hash_obj(i); }
EACH_HASH(J)
#undef J
static void hmac_obj(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a), ks[] = {0, 1, b, b + 1};
    u8 *x = arb(b + 9, "msg"), *key = arb(b + 1, "key"), *want = buf(d);
    const char *s = text(13); std::string str((const char *)x, 21); SequentialData sd(x, 22);
    for (int i = 0; i < 2; i++) { const u8 *z = zeros(12); std::string zs((const char *)z, 12); SequentialData zd(z, 12); u8 zz[24]; memcpy(zz, z, 12); memcpy(zz + 12, z, 12); sv_case("keyed object, zero bytes inside", (u64)i, 0, 0);
      std::unique_ptr<HMACEncoder> hp(i ? new HMACEncoder(alg(a), zs) : new HMACEncoder(alg(a), zd)); HMACEncoder &h = *hp; h.update(zs); h.update(zd); ref_hmac(a, z, 12, zz, 24, want); same(h.get_digest(), want, d, "keyed digest of a string and data with zero bytes"); }
    for (int i = 0; i < 4; i++) {
        u64 mk = sv_mark(); sv_case("keyed object, key bytes", ks[i], 0, 0);
        { const u8 *k = (const u8 *)sv_cbuf(key, ks[i]); HMACEncoder h(alg(a), k, ks[i]); sv_free((void *)k);
          sv_eq64(h.algorithm(), alg(a), "algorithm"); sv_eq64(h.block_size(), b, "block size"); sv_eq64(h.digest_size(), d, "digest size");
          for (int again = 0; again < 3; again++) { size_t n = again == 1 ? b + 9 : 7; if (again) h.reset(); h.update(x, n); ref_hmac(a, key, ks[i], x, n, want); same(h.get_digest(), want, d, again ? "keyed digest after reset" : "keyed digest of the object"); }
          h.reset(); h.update(x, 3); h.reset(); h.update(x, 7); ref_hmac(a, key, ks[i], x, 7, want); same(h.get_digest(), want, d, "keyed digest after an abandoned message"); }
        sv_noleak(mk, "keyed object");
    }
    u8 all[56]; memcpy(all, s, 13); memcpy(all + 13, x, 21); memcpy(all + 34, x, 22);
    for (int i = 0; i < 3; i++) {
        sv_case("keyed object, argument types", (u64)i, 0, 0); u64 mk = sv_mark();
        { std::unique_ptr<HMACEncoder> hp(i == 0 ? new HMACEncoder(alg(a), s) : i == 1 ? new HMACEncoder(alg(a), str) : new HMACEncoder(alg(a), sd)); HMACEncoder &h = *hp;
          h.update(s); h.update(str); h.update(sd);
          if (i == 0) ref_hmac(a, (const u8 *)s, 13, all, 56, want); else ref_hmac(a, x, i == 1 ? 21 : 22, all, 56, want);
          same(h.get_digest(), want, d, "keyed digest"); }
        sv_noleak(mk, "keyed object");
    }
}
#define J(i, n) extern "C" void job_C12_hmac_##n(void) { hmac_obj(i); }
EACH_MAC(J)
#undef J

// names and sizes of algorithms
extern "C" void job_C23_names(void) {
    static const char *low[16] = {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256", "sha3_224", "sha3_256", "sha3_384", "sha3_512", "rawshake128", "shake128", "rawshake256", "shake256"};
    static const char *up[16] = {"MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA512_224", "SHA512_256", "SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512", "RawSHAKE128", "SHAKE128", "RawSHAKE256", "SHAKE256"};
    for (int a = 0; a < 16; a++) {
        sv_case("algorithm", (u64)a, 0, 0);
        sv_eq64((u64)_algstr(low[a]), alg(a), "algorithm of the lower-case name"); sv_eq64((u64)_algstr(std::string(up[a])), alg(a), "algorithm of the name");
        sv_eq64(pgfe_block_length.at(alg(a)), ref_bsz(a), "block length"); if (a < 12) sv_eq64(pgfe_digest_length.at(alg(a)), ref_dsz(a), "digest length");
        for (int b = 0; b < a; b++) sv_true(alg(a) != alg(b), "algorithms are distinct");
        HashEncoder h(_algstr(up[a])); sv_eq64(h.block_size(), ref_bsz(a), "block size"); if (a < 12) sv_eq64(h.digest_size(), ref_dsz(a), "digest size");
    }
    static const char *bad[] = {"", "md", "md55", "sha", "SHA-1", "Md5", "sha3", "SHA3-224", "rawSHAKE128", "shake", " md5", "md5 "};
    for (int i = 0; i < 12; i++) { int caught = 0; sv_case("unknown name", (u64)i, 0, 0); try { _algstr(bad[i]); } catch (...) { caught = 1; } sv_true(caught, "an unknown name is refused"); }
    // every name with one character changed, missing, added or in the other case, and every prefix and suffix of it
    auto known = [&](const std::string &n) { for (int k = 0; k < 16; k++) if (n == low[k] || n == up[k]) return 1 + k; return 0; };
    auto ask = [&](const std::string &n, bool text) { int k = known(n), got = -1; bool refused = false; try { got = (int)(text ? _algstr(n.c_str()) : _algstr(n)); } catch (...) { refused = true; } if (k) sv_eq64((u64)(int64_t)got, alg(k - 1), "algorithm of the name"); else sv_true(refused, "an unknown name is refused"); };
    for (int a = 0; a < 32; a++) {
        const std::string n = a < 16 ? low[a] : up[a - 16]; if (a >= 16 && n == low[a - 16]) continue; size_t l = n.length(); sv_case("names like this one", (u64)a, 0, 0);
        for (size_t i = 0; i <= l; i++) {
            ask(n.substr(0, i), true); ask(n.substr(i), false);
            static const char ins[] = {' ', '_', '-', '0', '1', 'S', 'x', '/', 0}; for (int j = 0; j < (sv_tier() ? 9 : 3); j++) { std::string m(n); m.insert(i, 1, ins[j]); ask(m, j % 2 && ins[j]); }
            { std::string m(n); m.insert(i, 1, '\0'); ask(m, false); }
            if (i == l) break;
            std::string m(n); m.erase(i, 1); ask(m, true);
            m = n; m[i] = (char)(m[i] ^ 32); ask(m, true); m = n; m[i] = (char)(m[i] + 1); ask(m, false); m = n; m[i] = (char)(m[i] - 1); ask(m, true); m = n; m[i] = (char)(m[i] | 0x80); ask(m, false); if (n[i] == '_') { m = n; m[i] = '-'; ask(m, true); m[i] = '/'; ask(m, false); }
        }
    }
}
