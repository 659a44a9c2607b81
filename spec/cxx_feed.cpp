// C25: results of objects as inputs of the same objects.
#include "cxx.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
static void feed(AbstractHashEncoder &h, const SequentialData *r, int form) { if (form == 0) h.update(r->c_str(), r->length()); else if (form == 1) h.update(*(SequentialData *)r); else { size_t n = r->length(); h.update(r->c_str(), n / 2); h.update(r->c_str() + n / 2, n - n / 2); } }
static void hash(int a) {
    size_t b = ref_bsz(a), d = H[a].xof ? (a < R_RAWSHAKE256 ? 32 : 64) : ref_dsz(a); u8 *x = arb(b + 9, "msg"), *w = buf(d + d), *o = buf(d); sv_const(x);
    for (int form = 0; form < 3; form++) for (size_t n = 5; n < b + 9; n += b + 2) {
        sv_case("hash object fed with its digest: form/length", (u64)form, n, 0); HashEncoder h(alg(a)); h.update(x, n); ref_hash(a, x, n, o, 8 * d); const SequentialData *r = h.get_digest(); same(r, o, d, "digest");
        for (int i = 0; i < 4; i++) { h.reset(); same(r, o, d, "digest kept over a reset"); memcpy(w, o, d); memcpy(w + d, o, d); feed(h, r, form); same(r, o, d, "digest kept over an update"); size_t t = d; if (i == 2) { feed(h, r, form); t += d; } ref_hash(a, w, t, o, 8 * d); r = h.get_digest(); same(r, o, d, "digest of the digest"); }
        // the digest of a message that is followed by its digest
        HashEncoder g(alg(a)); SequentialData keep(*r); g.update(keep); ref_hash(a, o, d, w, 8 * d); r = g.get_digest(); same(r, w, d, "digest of a copy of the digest"); same(&keep, o, d, "copy");
    }
}
#define J(i, n) extern "C" void job_C25_obj_##n(void) { hash(i); }
EACH_HASH(J)
#undef J
static void mac(int a) {
    size_t b = ref_bsz(a), d = ref_dsz(a); u8 *x = arb(b + 9, "msg"), *key = arb(b + 5, "key"), *o = buf(d), *w = buf(d + d); sv_const(x); sv_const(key);
    for (int form = 0; form < 3; form++) for (size_t kl = 7; kl < b + 9; kl += b - 2) {
        if (!sv_tier() && (form & 1) != (kl > 7)) continue;
        sv_case("keyed object fed with its digest: form/key length", (u64)form, kl, 0); HMACEncoder h(alg(a), key, kl); h.update(x, 9); ref_hmac(a, key, kl, x, 9, o); const SequentialData *r = h.get_digest(); same(r, o, d, "keyed digest");
        for (int i = 0; i < 4; i++) { h.reset(); same(r, o, d, "keyed digest kept over a reset"); memcpy(w, o, d); memcpy(w + d, o, d); feed(h, r, form); same(r, o, d, "keyed digest kept over an update"); size_t t = d; if (i == 2) { feed(h, r, form); t += d; } ref_hmac(a, key, kl, w, t, o); r = h.get_digest(); same(r, o, d, "keyed digest of the keyed digest"); }
        // the digest becomes the key of another object
        std::unique_ptr<HMACEncoder> last; for (int i = 0; i < 3; i++) { memcpy(w, o, d); std::unique_ptr<HMACEncoder> g(form == 0 ? new HMACEncoder(alg(a), r->c_str(), r->length()) : new HMACEncoder(alg(a), *(SequentialData *)r)); same(r, o, d, "keyed digest that was a key"); g->update(x, 11); ref_hmac(a, w, d, x, 11, o); r = g->get_digest(); last = std::move(g); same(r, o, d, "digest under the digest"); }
    }
}
#define J(i, n) extern "C" void job_C25_mobj_##n(void) { mac(i); }
EACH_MAC(J)
#undef J
// encodings of encodings, back to the bytes; the result replaces the argument
static void codec(AbstractBaseEncoding &c, int k) {
    static const size_t ls[] = {0, 1, 3, 7};
    for (int back = 0; back < 2; back++) for (int i = 0; i < 4; i++) {
        // the way back is taken with fixed bytes
        size_t n = ls[i], m = n; u8 *x = back ? buf(n) : arb(n, "bytes"); if (back) for (size_t j = 0; j < n; j++) x[j] = (u8)(0x93 * j + 0xb5); sv_const(x); char *w = (char *)buf(400), *v = (char *)buf(400); std::string s((const char *)x, n), t = s;
        for (size_t j = 0; j < n; j++) w[j] = (char)x[j];
        for (int r = 0; r < 3; r++) { sv_case("encoding replaced by its encoding: length/round", n, (u64)r, 0); m = CD[k].ref((const u8 *)w, m, v); m = enclen(k, s.length()); memcpy(w, v, m); s = c.encode(s); sames(s, w, m, "encoding"); }
        if (back) for (int r = 0; r < 3; r++) { sv_case("text replaced by its decoding: length/round", n, (u64)r, 0); SequentialData d = c.decode(s); s.assign((const char *)d.c_str(), d.length()); }
        if (back) sames(s, t.c_str(), n, "bytes after as many decodings");
    }
}
extern "C" void job_C25_base16(void) { Base16 c; codec(c, 0); }
extern "C" void job_C25_base32(void) { Base32 c; codec(c, 1); }
extern "C" void job_C25_base32hex(void) { Base32 c(true); codec(c, 2); }
extern "C" void job_C25_base64(void) { Base64 c; codec(c, 3); }
extern "C" void job_C25_base64url(void) { Base64 c(true); codec(c, 4); }
extern "C" void job_C25_obj_blowfish(void) {
    u8 key[24], in[20]; for (int i = 0; i < 24; i++) key[i] = (u8)(i * 7 + 1); sv_bytes(in, 20, "text"); Blowfish c(key, 24); u32 P[18], S[4][256]; ref_bf_init(P, S, key, 24);
    for (size_t n = 0; n <= 20; n += n < 8 ? 4 : 6) {
        std::unique_ptr<SequentialData> cur(new SequentialData(in, n)); size_t m = (n + 7) / 8 * 8; u8 *w = buf(m), *x = buf(m); for (size_t i = 0; i < m; i++) x[i] = w[i] = i < n ? in[i] : 0;
        for (int r = 0; r < 6; r++) {
            sv_case("ciphertext of a ciphertext: length/round", n, (u64)r, 0);
            for (size_t b = 0; b < m; b += 8) { u32 L = 0, R = 0; for (int i = 0; i < 4; i++) { L = L << 8 | w[b + i]; R = R << 8 | w[b + 4 + i]; } if (r < 3) ref_bf_enc(P, S, &L, &R); else ref_bf_dec(P, S, &L, &R); for (int i = 0; i < 4; i++) { w[b + i] = (u8)(L >> (24 - 8 * i)); w[b + 4 + i] = (u8)(R >> (24 - 8 * i)); } }
            cur.reset(new SequentialData(r < 3 ? c.encrypt(*cur) : c.decrypt(*cur))); same(cur.get(), w, m, "result of the round");
        }
        same(cur.get(), x, m, "text after as many decryptions");
    }
}
