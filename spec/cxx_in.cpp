// C15: inputs are read-only while an operation runs and cease to exist when it returns; everything goes on working.
#include "cxx.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/totp.h"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/utils.hpp"
// an input of n bytes in each of the forms the interface takes
struct In {
    u8 *p = nullptr; char *c = nullptr; std::string *s = nullptr; SequentialData *d = nullptr; size_t n;
    In(int form, const u8 *x, size_t n) : n(n) {
        if (form == 0) { p = (u8 *)sv_cbuf(x, n); }
        if (form == 1) { c = (char *)sv_buf(n + 1); memcpy(c, x, n); c[n] = 0; sv_const(c); }
        if (form == 2) { s = new std::string((const char *)x, n); sv_const(s->data()); sv_const(s); }
        if (form == 3) { d = new SequentialData(x, n); sv_const(d->data()); sv_const(d); }
    }
    void gone() { if (p) sv_free(p); if (c) sv_free(c); if (s) { if ((const char *)s->data() < (const char *)s || (const char *)s->data() >= (const char *)(s + 1)) sv_free((void *)s->data()); sv_free(s); }
        if (d) { if ((const char *)d->data() < (const char *)d || (const char *)d->data() >= (const char *)(d + 1)) sv_free((void *)d->data()); sv_free(d); } }
};
#define BY(f, call4) (f == 0 ? call4(i.p, i.n) : f == 1 ? call4(i.c) : f == 2 ? call4(*i.s) : call4(*i.d))
static const size_t NS[] = {3, 14, 40, 150};
static u8 TXT[300];
static void txt() { for (int i = 0; i < 300; i++) TXT[i] = (u8)('a' + i * 7 % 26); }
static void hashes(int a) {
    txt(); u8 *w = buf(ref_dsz(a)), *w2 = buf(ref_dsz(a)); u8 all[600];
    for (int f = 0; f < 4; f++) for (int k = 0; k < 4; k++) {
        sv_case("argument form/bytes", (u64)f, NS[k], 0); size_t n = NS[k];
        In i(f, TXT, n), j(f, TXT + 50, 9); HashEncoder *h = new HashEncoder(alg(a));
        if (f == 0) h->update(i.p, n); else if (f == 1) static_cast<AbstractHashEncoder *>(h)->update(i.c); else if (f == 2) static_cast<AbstractHashEncoder *>(h)->update(*i.s); else static_cast<AbstractHashEncoder *>(h)->update(*i.d);
        i.gone();
        if (f == 0) h->update(j.p, 9); else if (f == 1) static_cast<AbstractHashEncoder *>(h)->update(j.c); else if (f == 2) static_cast<AbstractHashEncoder *>(h)->update(*j.s); else static_cast<AbstractHashEncoder *>(h)->update(*j.d);
        j.gone();
        memcpy(all, TXT, n); memcpy(all + n, TXT + 50, 9); ref_hash(a, all, n + 9, w, 8 * ref_dsz(a)); same(h->get_digest(), w, ref_dsz(a), "digest"); delete h;
        // the plain functions, piece by piece
        void *c = sv_buf(H[a].ctxsz); u8 *o = buf(ref_dsz(a)); H[a].init(c);
        { u8 *p = (u8 *)sv_cbuf(TXT, n); H[a].update(c, p, n); sv_free(p); p = (u8 *)sv_cbuf(TXT + 50, 9); H[a].update(c, p, 9); sv_free(p); }
        h_digest(a, c, o, 8 * ref_dsz(a)); sv_eq(o, w, ref_dsz(a), "digest by functions");
        u8 *p = (u8 *)sv_cbuf(TXT, n), *q = (u8 *)sv_cbuf(TXT + 50, 9);
        if (H[a].xof) { ((f_multix *)H[a].multi)(o, 8 * ref_dsz(a), (size_t)2, p, n, q, (size_t)9); } else ((f_multi *)H[a].multi)(o, (size_t)2, p, n, q, (size_t)9);
        sv_eq(o, w, ref_dsz(a), "digest of several pieces");
        if (H[a].xof) ((f_encodex *)H[a].encode)(p, n, o, 8 * ref_dsz(a)); else ((f_encode *)H[a].encode)(p, n, o);
        sv_free(p); sv_free(q); ref_hash(a, TXT, n, w2, 8 * ref_dsz(a)); sv_eq(o, w2, ref_dsz(a), "digest in one call");
    }
}
#define J(i, n) extern "C" void job_C15_hash_##n(void) { hashes(i); }
EACH_HASH(J)
#undef J
static void macs(int a) {
    txt(); u8 *w = buf(ref_dsz(a)); size_t d = ref_dsz(a);
    for (int f = 0; f < 4; f++) for (int k = 0; k < 4; k++) {
        sv_case("argument form/key bytes", (u64)f, NS[k], 0); size_t n = NS[k];
        In i(f, TXT, n), j(f, TXT + 50, 9);
        HMACEncoder *h = f == 0 ? new HMACEncoder(alg(a), i.p, n) : f == 1 ? new HMACEncoder(alg(a), i.c) : f == 2 ? new HMACEncoder(alg(a), *i.s) : new HMACEncoder(alg(a), *i.d);
        i.gone();
        if (f == 0) h->update(j.p, 9); else if (f == 1) static_cast<AbstractHashEncoder *>(h)->update(j.c); else if (f == 2) static_cast<AbstractHashEncoder *>(h)->update(*j.s); else static_cast<AbstractHashEncoder *>(h)->update(*j.d);
        j.gone(); ref_hmac(a, TXT, n, TXT + 50, 9, w); same(h->get_digest(), w, d, "keyed digest"); h->reset(); h->update(TXT + 50, 9); same(h->get_digest(), w, d, "keyed digest after a reset"); delete h;
        void *c = sv_buf(MA[a].ctxsz); u8 *o = buf(d); MA[a].init(c);
        { u8 *p = (u8 *)sv_cbuf(TXT, n); MA[a].set_key(c, p, n); sv_free(p); p = (u8 *)sv_cbuf(TXT + 50, 9); MA[a].update(c, p, 9); sv_free(p); } MA[a].digest(c, o); sv_eq(o, w, d, "keyed digest by functions");
        u8 *p = (u8 *)sv_cbuf(TXT, n), *q = (u8 *)sv_cbuf(TXT + 50, 9); MA[a].oneshot(p, n, q, 9, o); sv_eq(o, w, d, "keyed digest in one call"); pgfe_hmac(alg(a), p, n, q, 9, o); sv_eq(o, w, d, "keyed digest in one call");
        sv_eq64(pgfe_hotp_generic(alg(a), p, n, 77, 6), ref_hotp(a, TXT, n, 77, 6), "password"); sv_free(p); sv_free(q);
    }
}
#define J(i, n) extern "C" void job_C15_hmac_##n(void) { macs(i); }
EACH_MAC(J)
#undef J
extern "C" void job_C15_otp(void) {
    txt(); sv_now = 1000;
    for (int f = 0; f < 4; f++) for (int k = 0; k < 4; k++) for (int way = 0; way < 4; way++) {
        sv_case("argument form/secret bytes/way", (u64)f, NS[k], (u64)way); size_t n = NS[k]; In i(f, TXT, n); HOTP *h;
        u32 want = ref_hotp(R_SHA1, TXT, n, way == 1 ? 33 : 12, 8);
        if (way == 0) h = f == 0 ? new HOTP(i.p, n) : f == 1 ? new HOTP(i.c) : f == 2 ? new HOTP(*i.s) : new HOTP(*i.d);
        else if (way == 1) { TOTP *t = f == 0 ? new TOTP(i.p, n) : f == 1 ? new TOTP(i.c) : f == 2 ? new TOTP(*i.s) : new TOTP(*i.d); i.gone(); sv_eq64(t->generate(8), want, "password"); delete t; continue; }
        else { h = new HOTP; AbstractOTP *o = h; if (way == 2 && f == 0) o->set_secret(i.p, n); else if (way == 2 && f == 1) o->set_secret(i.c); else if (way == 2 && f == 2) o->set_secret(*i.s); else if (way == 2) o->set_secret(*i.d);
            else if (f == 0) h->set_secret(i.p, n); else if (f == 1) h->set_secret(i.c); else if (f == 2) h->set_secret(*i.s); else h->set_secret(*i.d); }
        i.gone(); h->set_counter(12); sv_eq64(h->generate(8), want, "password"); delete h;
    }
    for (int f = 1; f < 3; f++) for (int way = 0; way < 2; way++) for (int v = 0; v < 4; v++) { // secrets in Base32, grouped and in either case
        sv_case("argument form/Base32 secret/variant", (u64)f, (u64)way, (u64)v); char e0[80], e[100]; ref_b32(TXT, 40, e0, 0); size_t l = 0; for (size_t q = 0; q < 64; q++) { if (v > 1 && q && q % 4 == 0) e[l++] = v == 2 ? ' ' : '-'; e[l++] = (char)(v & 1 ? lower(e0[q]) : e0[q]); } if (v) e[l++] = '\n'; In i(f, (u8 *)e, l); HOTP *h = new HOTP;
        if (f == 1) { if (way) h->set_secret(i.c, true); else h->set_secret_from_base32(i.c); } else { if (way) h->set_secret(*i.s, true); else h->set_secret_from_base32(*i.s); }
        i.gone(); h->set_counter(5); sv_eq64(h->generate(8), ref_hotp(R_SHA1, TXT, 40, 5, 8), "password"); delete h;
    }
}
static AbstractBaseEncoding *codec(int k) { return k == 0 ? (AbstractBaseEncoding *)new Base16 : k < 3 ? (AbstractBaseEncoding *)new Base32(k == 2) : new Base64(k == 4); }
static void codecs(int k) {
    txt(); AbstractBaseEncoding *c = codec(k); u8 *x = arb(200, "bytes");
    for (int f = 0; f < 4; f++) for (int t = 0; t < 5; t++) {
        size_t n = t < 4 ? NS[t] : 200; sv_case("argument form/bytes", (u64)f, n, 0); const u8 *src = f == 1 ? TXT : x; In i(f, src, n);
        std::string r = f == 0 ? c->encode(i.p, n) : f == 1 ? c->encode(i.c) : f == 2 ? c->encode(*i.s) : c->encode(*i.d); i.gone();
        char *w = (char *)sv_buf(enclen(k, n) + 1); CD[k].ref(src, n, w); sames(r, w, enclen(k, n), "encoding"); sv_free(w);
    }
    for (int f = 1; f < 3; f++) for (int t = 0; t < 4; t++) {
        size_t n = NS[t], m = enclen(k, n); sv_case("argument form/bytes to decode", (u64)f, n, 0); char e[500]; CD[k].ref(TXT, n, e); In i(f, (u8 *)e, m);
        SequentialData d = f == 1 ? c->decode(i.c) : c->decode(*i.s); i.gone(); same(&d, TXT, n, "decoded bytes");
    }
    // texts as they come: characters outside the alphabet before, between and after, letters in either case
    static const char *pre[] = {"", " ", "", "\r\n\t", "", "", ""}, *mid[] = {"", "", "\n", " \n", "", "", "\r\n"}, *post[] = {"\n", "\r\n", "  ", "\n\n", "=", "!", ""};
    for (int f = 1; f < 3; f++) for (int v = 0; v < 7; v++) for (int low = 0; low <= CD[k].fold; low++) for (size_t n = 15; n < 17; n++) {
        size_t m = enclen(k, n), l = 0; char e[100], t[120]; CD[k].ref(TXT, n, e); if (low) for (size_t q = 0; q < m; q++) e[q] = (char)lower(e[q]);
        for (const char *q = pre[v]; *q; q++) t[l++] = *q; for (size_t q = 0; q < m; q++) { if (q == 7) for (const char *r = mid[v]; *r; r++) t[l++] = *r; t[l++] = e[q]; } for (const char *q = post[v]; *q; q++) t[l++] = *q;
        sv_case("argument form/variant/bytes of a text", (u64)f, (u64)(2 * v + low), n); In i(f, (u8 *)t, l); SequentialData d = f == 1 ? c->decode(i.c) : c->decode(*i.s); i.gone(); same(&d, TXT, n, "decoded bytes");
    }
    delete c;
}
#define B(i, n) extern "C" void job_C15_##n(void) { codecs(i); }
B(0, base16) B(1, base32) B(2, base32hex) B(3, base64) B(4, base64url)
extern "C" void job_C15_blowfish(void) {
    txt(); u32 P[18], S[4][256]; ref_bf_init(P, S, TXT, 40);
    for (int f = 0; f < 4; f++) for (int t = 0; t < 3; t++) {
        size_t n = NS[t], m = (n + 7) / 8 * 8; sv_case("argument form/bytes", (u64)f, n, 0); In key(f, TXT, 40), i(f, TXT + 3, n);
        Blowfish *b = f == 0 ? new Blowfish(key.p, 40) : f == 1 ? new Blowfish(key.c) : f == 2 ? new Blowfish(*key.s) : new Blowfish(*key.d); key.gone();
        SequentialData e = f == 0 ? b->encrypt(i.p, n) : f == 1 ? b->encrypt(i.c) : f == 2 ? b->encrypt(*i.s) : b->encrypt(*i.d); i.gone();
        u8 w[160]; memset(w, 0, 160); memcpy(w, TXT + 3, n);
        for (size_t q = 0; q < m; q += 8) { u32 L = 0, R = 0; for (int z = 0; z < 4; z++) { L = L << 8 | w[q + z]; R = R << 8 | w[q + 4 + z]; } ref_bf_enc(P, (const u32(*)[256])S, &L, &R); for (int z = 0; z < 4; z++) { w[q + z] = (u8)(L >> (24 - 8 * z)); w[q + 4 + z] = (u8)(R >> (24 - 8 * z)); } }
        same(&e, w, m, "ciphertext");
        if (f == 1) { delete b; continue; } // ciphertext as text may contain zero bytes
        In j(f, w, m); SequentialData d = f == 0 ? b->decrypt(j.p, m) : f == 2 ? b->decrypt(*j.s) : b->decrypt(*j.d); j.gone(); u8 pad[160]; memset(pad, 0, 160); memcpy(pad, TXT + 3, n); same(&d, pad, m, "text after the round trip"); delete b;
    }
}
extern "C" void job_C15_data(void) {
    txt(); u8 *x = arb(150, "bytes");
    for (int f = 0; f < 4; f++) for (int t = 0; t < 4; t++) {
        size_t n = NS[t]; sv_case("argument form/bytes", (u64)f, n, 0); const u8 *src = f == 1 || f == 2 ? TXT : x; In i(f, src, n);
        SequentialData *d = f == 0 ? new SequentialData(i.p, n) : f == 1 ? new SequentialData(i.c) : f == 2 ? new SequentialData(*i.s) : new SequentialData(*i.d), *g = f == 3 ? new SequentialData(i.d) : nullptr, *u = f == 0 ? utils::to_sequential_data(i.p, n) : f == 1 ? utils::to_sequential_data(i.c) : f == 2 ? utils::to_sequential_data(*i.s) : nullptr;
        std::string h, s; if (f == 3) { h = i.d->hex_str(); size_t l = 0; i.d->to_pgfe_seq(l); sv_eq64(l, n, "length"); }
        i.gone(); same(d, src, n, "data"); if (g) same(g, src, n, "copy"); if (u) same(u, src, n, "data"); if (f == 3) { sv_eq64(h.length(), 2 * n, "length of the hexadecimal digits"); sv_defined(h.data(), 2 * n, "hexadecimal digits"); }
    }
    for (int f = 1; f < 3; f++) { sv_case("hexadecimal digits, form", (u64)f, 0, 0); In i(f, (const u8 *)"0x61626364656667686970717273747576777879", 40); SequentialData *d = f == 1 ? utils::sequential_data::from_hex_string(i.c) : utils::sequential_data::from_hex_string(*i.s);
        u8 o[40]; if (f == 1) { sv_eq64(pgfe_hex_string_to_hash(i.c, o), 19, "bytes"); pgfe_hash_length(i.c); char q[60]; pgfe_hash_string_clean(i.c, q); } i.gone(); sv_eq64(d->length(), 19, "bytes"); sv_defined(d->c_str(), 19, "bytes"); }
    static const char *hx[] = {"0X6162636D6E", "61 62\n63 6d:6E\n", "61626", "0x", "", " 6162636d6e ", "x616263"};
    for (int f = 1; f < 3; f++) for (int v = 0; v < 7; v++) { sv_case("hexadecimal digits as they come, form/variant", (u64)f, (u64)v, 0); In i(f, (const u8 *)hx[v], strlen(hx[v])); SequentialData *d = f == 1 ? utils::sequential_data::from_hex_string(i.c) : utils::sequential_data::from_hex_string(*i.s); u8 o[40]; if (f == 1) pgfe_hex_string_to_hash(i.c, o); i.gone(); sv_defined(d->c_str(), d->length(), "bytes"); }
    u8 *p = (u8 *)sv_cbuf(TXT, 40); char q[100]; pgfe_hash_to_hex_string(p, 40, q); sv_free(p);
}
