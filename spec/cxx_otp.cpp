#include "cxx.h"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/totp.h"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/exceptions.hpp"
static void hotp_obj(int a) {
    u8 *x = arb(70, "secret"); uint64_t ctr = sv_u64("counter"); const char *s = text(11); std::string str((const char *)x, 20); SequentialData sd(x, 33);
    for (int form = 0; form < 5; form++) {
        const u8 *z = zeros(12); std::string zs((const char *)z, 12); SequentialData zd(z, 12); sv_case("constructor or setter, zero bytes inside", (u64)form, 0, 0);
        std::unique_ptr<HOTP> hp(form == 0 ? new HOTP(zs, alg(a)) : form == 1 ? new HOTP(zd, alg(a)) : form == 4 ? new HOTP(z, 12, alg(a)) : new HOTP(alg(a))); HOTP &h = *hp;
        if (form == 2) h.set_secret(zs); if (form == 3) h.set_secret(zd);
        h.set_counter(ctr); sv_eq64(h.generate(6), ref_hotp(a, z, 12, ctr, 6), "password");
    }
    for (int form = 0; form < 9; form++) {
        u64 mk = sv_mark(); sv_case("constructor or setter", (u64)form, 0, 0);
        u32 full; { std::unique_ptr<HOTP> hp(form == 0 ? new HOTP(x, 70, alg(a)) : form == 1 ? new HOTP(s, alg(a)) : form == 2 ? new HOTP(str, alg(a)) : form == 3 ? new HOTP(sd, alg(a)) : new HOTP(alg(a))); HOTP &h = *hp;
          if (form == 4) h.set_secret(x, 5); if (form == 5) h.set_secret(s); if (form == 6) h.set_secret(str); if (form == 7) h.set_secret(sd);
          if (form == 8) { h.set_secret(x, 9); h.set_secret(x, 0); }
          size_t kl = form == 0 ? 70 : form == 1 || form == 5 ? 11 : form == 2 || form == 6 ? 20 : form == 4 ? 5 : form == 8 ? 0 : 33;
          const u8 *k = form == 1 || form == 5 ? (const u8 *)s : x;
          sv_eq64(h.algorithm(), alg(a), "algorithm");
          sv_eq64(h.generate(6), ref_hotp(a, k, kl, 0, 6), "password before a counter is set");
          h.set_counter(ctr); full = ref_hotp(a, k, kl, ctr, 10);
          sv_eq64(h.generate(), full % 1000000, "default password"); sv_eq64(h.generate(8), full % 100000000, "password of 8 digits"); sv_eq64(h.generate(10), full, "password of 10 digits");
          AbstractOTP &o = h; sv_eq64(o.generate(7), full % 10000000, "password through the base class");
        }
        sv_noleak(mk, "one-time password object");
    }
}
#define J(i, n) extern "C" void job_C06_obj_##n(void) { hotp_obj(i); }
EACH_MAC(J)
#undef J
// secrets given in Base32
extern "C" void job_C06_base32(void) {
    for (size_t n = 0; n <= 11; n++) for (int form = 0; form < 4; form++) {
        size_t m = (n * 8 + 4) / 5, t = enclen(1, n); u8 set[32], last[32]; alphabet(1, 0, set); alphabet(1, (int)(m * 5 - n * 8), last); alphabet(1, 0, set);
        std::string s(t, '='); u8 *want = buf(n); u64 acc = 0; size_t have = 0, o = 0;
        for (size_t j = 0; j < m; j++) { u8 ch = sv_char("char", j == m - 1 ? last : set); s[j] = (char)ch; acc = acc << 5 | val[ch]; have += 5; if (have >= 8) { have -= 8; want[o++] = (u8)(acc >> have); acc &= (1u << have) - 1; } }
        sv_case("secret bytes/setter", n, (u64)form, 0);
        HOTP h; h.set_counter(5);
        if (form == 0) h.set_secret_from_base32(s.c_str()); else if (form == 1) h.set_secret_from_base32(s); else if (form == 2) h.set_secret(s.c_str(), true); else h.set_secret(s, true);
        sv_eq64(h.generate(6), ref_hotp(R_SHA1, want, n, 5, 6), "password from a Base32 secret");
        sv_free(want);
    }
}
// without a secret: the documented exception, and no other effect
extern "C" void job_C06_no_secret(void) {
    for (int i = 0; i < 4; i++) {
        HOTP h; TOTP t; int caught = 0; sv_case("no secret", (u64)i, 0, 0);
        try { if (i == 0) h.generate(); else if (i == 1) h.generate_str(); else if (i == 2) t.generate(); else t.generate_str(); } catch (const NotInitializedException &) { caught = 1; } catch (...) { caught = 2; }
        sv_eq64((u64)caught, 1, "the exception for a missing secret");
    }
}
// decimal form: zero-padded to the number of digits
struct FixedOTP : AbstractOTP { pgfe_otp_t v; pgfe_otp_t generate(uint8_t) const override { return v; } };
extern "C" void job_C06_text(void) {
    static const uint32_t vs[] = {0, 1, 9, 10, 99, 100, 123456, 99999, 100000, 999999, 1000000, 7654321, 12345678, 99999999, 100000000, 2147483647, 1000000000, 999999999};
    for (int i = 0; i < 18; i++) for (unsigned dg = 0; dg <= 255; dg++) {
        if (dg > 12 && (i != 6 || (dg != 16 && dg != 32 && dg != 40 && dg < 254))) continue;
        char digits[12]; unsigned n = 0, v = vs[i]; do { digits[n++] = (char)('0' + v % 10); v /= 10; } while (v);
        char want[260]; unsigned len = n > dg ? n : dg; for (unsigned j = 0; j < len; j++) want[j] = j < len - n ? '0' : digits[len - 1 - j];
        sv_case("value/digits", vs[i], dg, 0);
        FixedOTP f; f.v = vs[i]; sames(f.generate_str((uint8_t)dg), want, len, "decimal form of the password");
    }
}
static void totp_obj(int a) {
    u8 *x = arb(40, "secret"); const char *s = text(11); std::string str((const char *)x, 20); SequentialData sd(x, 33);
    static const uint32_t steps[] = {30, 1, 60, 86400, 7};
    for (int form = 0; form < 3; form++) {
        const u8 *z = zeros(12); std::string zs((const char *)z, 12); SequentialData zd(z, 12); sv_case("constructor, zero bytes inside", (u64)form, 0, 0);
        std::unique_ptr<TOTP> tp(form == 0 ? new TOTP(zs, 30, alg(a)) : form == 1 ? new TOTP(zd, 30, alg(a)) : new TOTP(z, 12, 30, alg(a)));
        sv_now = 12345; sv_eq64(tp->generate(6), ref_hotp(a, z, 12, 12345 / 30, 6), "password");
    }
    for (int form = 0; form < 6; form++) {
        uint32_t step = steps[form % 5]; u64 mk = sv_mark(); sv_case("constructor/interval", (u64)form, step, 0);
        { std::unique_ptr<TOTP> tp(form == 0 ? new TOTP(x, 40, step, alg(a)) : form == 1 ? new TOTP(s, step, alg(a)) : form == 2 ? new TOTP(str, step, alg(a)) : form == 3 ? new TOTP(sd, step, alg(a)) : form == 4 ? new TOTP(step, alg(a)) : new TOTP(30, alg(a))); TOTP &t = *tp;
          if (form == 4) t.set_secret(x, 5); if (form == 5) { t.set_secret(sd); t.set_interval(step = 45); }
          size_t kl = form == 0 ? 40 : form == 1 ? 11 : form == 2 ? 20 : form == 4 ? 5 : 33; const u8 *k = form == 1 ? (const u8 *)s : x;
          sv_eq64(t.interval(), step, "interval"); sv_eq64((u64)t.initial_time(), 0, "initial time"); sv_eq64(t.algorithm(), alg(a), "algorithm");
          for (int r = 0; r < 3; r++) { // time moves on (and back); then another start
              int64_t start = r == 2 ? 1000000 : 0; uint64_t off = (uint64_t)sv_u32("offset") + (r == 1 ? 0x100000000ull : 0);
              if (r == 2) { t.set_initial_time(start); sv_eq64((u64)t.initial_time(), (u64)start, "initial time"); }
              sv_now = start + (int64_t)off;
              sv_eq64(t.generate(6), ref_hotp(a, k, kl, off / step, 6), "time-based password"); sv_eq64((u64)t.update_time(), (u64)sv_now, "time of the last password");
              sv_eq64((u64)t.remaining_time(), step - off % step, "seconds left");
          }
          sv_eq64(t.generate(), ref_hotp(a, k, kl, (u64)(sv_now - t.initial_time()) / step, 6), "default time-based password");
          sv_eq64(t.generate(8), ref_hotp(a, k, kl, (u64)(sv_now - t.initial_time()) / step, 8), "time-based password of 8 digits");
        }
        sv_noleak(mk, "time-based password object");
    }
}
#define J(i, n) extern "C" void job_C07_obj_##n(void) { totp_obj(i); }
EACH_MAC(J)
#undef J

// the clock moves on while a password is being made, and before the seconds left are asked for
extern "C" void job_C07_obj_clock(void) {
    u8 *any = arb(20, "secret"), fix[20]; memcpy(fix, "12345678901234567890", 20); static const u32 ticks[] = {1, 7, 30, 45}, steps[] = {30, 60, 1, 7};
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (u32 at = 1; at <= 2; at++) for (int str = 0; str < 2; str++) {
        u32 step = steps[j]; int64_t first = 20 * (int64_t)step - at; const u8 *x = str ? fix : any; sv_case("seconds between readings/interval/seconds before the next window", ticks[i], step, at);
        sv_now = 5; sv_tick = 0; TOTP t(x, 20, step, SHA1); sv_now = first; sv_tick = ticks[i]; sv_readings = 0;
        u32 got = 0; std::string gs; if (str) gs = t.generate_str(6); else got = t.generate(6);
        int64_t u = (int64_t)t.update_time(); int ok = u >= first && u < sv_now && (u - first) % ticks[i] == 0; sv_eq64((u64)ok, 1, "the time of the last password lies between the call and the return");
        if (str) { char w[7]; u32 v = ref_hotp(R_SHA1, x, 20, (u64)u / step, 6); for (int q = 5; q >= 0; q--) { w[q] = (char)('0' + v % 10); v /= 10; } sames(gs, w, 6, "password of the window of the reported time"); } else sv_eq64(got, ref_hotp(R_SHA1, x, 20, (u64)u / step, 6), "password of the window of the reported time");
        int64_t r0 = sv_now, left = (int64_t)t.remaining_time(), end = u - u % step + step; ok = 0; for (int64_t v = r0; v < sv_now; v += ticks[i]) ok |= left == end - v;
        sv_eq64((u64)ok, 1, "seconds left of the window of the password"); sv_tick = 0;
    }
}
// algorithms that have no keyed form: nothing is promised about the password, except that asking is safe
extern "C" void job_C06_no_keyed_form(void) {
    static const u8 k[20] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}; u64 mk = sv_mark();
    for (int a = 12; a < 16; a++) for (int d = 0; d < 11; d += 5) {
        sv_case("algorithm without a keyed form/digits", (u64)a, (u64)d, 0); sv_now = 1700000000; u32 p = pgfe_hotp_generic(alg(a), k, 20, 77, (u8)d); if (d < 10) sv_true(p < (d ? 100000u : 1u), "digits of the password"); sv_eq64(pgfe_hotp_generic(alg(a), k, 20, 77, (u8)d), p, "the same password again"); pgfe_totp_delta_t left = 0; pgfe_totp_generic(alg(a), k, 20, (u8)d, 30, 0, &left); sv_eq64(left, 30 - 1700000000 % 30, "seconds left");
        HOTP h(k, 20, alg(a)); h.set_counter(77); sv_eq64(h.generate((u8)d), p, "password of the object"); sv_eq64((u64)h.algorithm(), (u64)alg(a), "algorithm"); TOTP t(k, 20, 30, alg(a)); t.generate((u8)d); t.generate_str((u8)d);
        HMACEncoder m(alg(a), k, 20); m.update(k, 20); m.reset(); const SequentialData *r = m.get_digest(); sv_true(r == nullptr || r->length() < 1000, "digest"); sv_eq64((u64)m.algorithm(), (u64)alg(a), "algorithm"); u8 o[64]; pgfe_hmac(alg(a), k, 20, k, 20, o);
    }
    sv_noleak(mk, "objects");
}
