/* C06: HOTP is RFC 4226; C07: TOTP uses the counter of the time window. */
#include "common.h"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/totp.h"

static void hotp(int a) {
    size_t ks[] = {0, 1, 20, ref_bsz(a), ref_bsz(a) + 1};
    u8 *key = sv_buf(200); sv_bytes(key, 200, "secret");
    uint64_t ctr = sv_u64("counter");
    for (int i = 0; i < 5; i++) {
        const u8 *k = sv_cbuf(key, ks[i]);
        u32 full = ref_hotp(a, key, ks[i], ctr, 10), m = 1;
        for (int dg = 0; dg <= 11; dg++) {
            if (i != 2 && dg != 6 && dg != 10 && !sv_tier()) { m *= 10; continue; }
            sv_case("secret length/digits", ks[i], (u64)dg, 0);
            u32 got = pgfe_hotp_generic((enum pgfe_algorithm_choice)ALG[a], k, ks[i], ctr, (uint8_t)dg);
            sv_eq64(got, dg >= 10 ? full : full % m, "one-time password");
            m *= 10;
        }
        if (i == 2) { static const u8 many[] = {12, 16, 19, 20, 32, 33, 64, 100, 127, 128, 255}; for (int j = 0; j < 11; j++) { sv_case("secret length/digits", ks[i], many[j], 0); sv_eq64(pgfe_hotp_generic((enum pgfe_algorithm_choice)ALG[a], k, ks[i], ctr, many[j]), full, "one-time password"); } }
        sv_free((void *)k);
    }
    /* counters with many equal bytes, and extreme ones */
    uint64_t cs[] = {0, 1, 255, 256, 0xffffffffull, 0x100000000ull, 0x0123456789abcdefull, ~0ull};
    for (int i = 0; i < 8; i++) { sv_case("counter", cs[i], 0, 0); sv_eq64(pgfe_hotp_generic((enum pgfe_algorithm_choice)ALG[a], key, 20, cs[i], 6), ref_hotp(a, key, 20, cs[i], 6), "one-time password"); }
}
#define J(i, n) void job_C06_##n(void) { hotp(i); }
EACH_MAC(J)

void job_C06_forms(void) {
    size_t ks[] = {0, 10, 20, 64, 65};
    u8 *key = sv_buf(65); sv_bytes(key, 65, "secret"); uint64_t ctr = sv_u64("counter");
    for (int i = 0; i < 5; i++) {
        const u8 *k = sv_cbuf(key, ks[i]); u32 full = ref_hotp(R_SHA1, key, ks[i], ctr, 10);
        sv_case("secret length", ks[i], 0, 0);
        sv_eq64(pgfe_hotp(k, ks[i], ctr, 7), full % 10000000, "pgfe_hotp");
        sv_eq64(pgfe_hotp(k, ks[i], ctr, 9), full % 1000000000, "pgfe_hotp");
        sv_eq64(pgfe_hotp(k, ks[i], ctr, 10), full, "pgfe_hotp");
        sv_eq64(pgfe_hotp_4digits(k, ks[i], ctr), full % 10000, "pgfe_hotp_4digits");
        sv_eq64(pgfe_hotp_6digits(k, ks[i], ctr), full % 1000000, "pgfe_hotp_6digits");
        sv_eq64(pgfe_hotp_8digits(k, ks[i], ctr), full % 100000000, "pgfe_hotp_8digits");
        sv_free((void *)k);
    }
}

/* now = start + q * step + r with r < step, everything but the step arbitrary within its range; then also an arbitrary
   step against the quotient computed directly */
static void totp(int a) {
    static const uint32_t steps[] = {30, 1, 60, 2, 7, 86400, 0x7fffffff, 0x80000000u, 0xffffffffu};
    u8 *key = sv_buf(32); sv_bytes(key, 32, "secret"); const u8 *k = sv_cbuf(key, 32);
    for (int i = 0; i < 9; i++) for (int t = 0; t < 3; t++) {
        uint32_t step = steps[i]; if (t && i > 2 && !sv_tier()) continue;
        int64_t start = t == 0 ? 0 : t == 1 ? 300000000 : (int64_t)sv_u32("start"); /* all within the time a count of nanoseconds can express */
        uint64_t off = (uint64_t)sv_u32("offset") + (t == 1 ? 0x100000000ull : 0); /* seconds since the start, beyond 2^32 too */
        sv_now = start + (int64_t)off;
        int32_t delta = 12345; int32_t *dp = sv_buf(sizeof delta);
        u32 want = ref_hotp(a, key, 32, off / step, 6);
        sv_case("step/start kind", step, (u64)t, 0);
        sv_eq64(pgfe_totp_generic((enum pgfe_algorithm_choice)ALG[a], k, 32, 6, step, start, dp), want, "time-based password");
        if (step <= 0x7fffffff) sv_eq64((u32)*dp, (u32)(step - off % step), "seconds left in the window");
        sv_eq64(pgfe_totp_generic((enum pgfe_algorithm_choice)ALG[a], k, 32, 6, step, start, NULL), want, "time-based password, no delta wanted");
        if (a == R_SHA1 && t == 0) {
            u32 full = ref_hotp(a, key, 32, off / step, 10);
            sv_eq64(pgfe_totp(k, 32, 7, step, dp), full % 10000000, "pgfe_totp"); if (step <= 0x7fffffff) sv_eq64((u32)*dp, (u32)(step - off % step), "seconds left");
            sv_eq64(pgfe_totp_4digits(k, 32, step, NULL), full % 10000, "pgfe_totp_4digits");
            sv_eq64(pgfe_totp_6digits(k, 32, step, dp), full % 1000000, "pgfe_totp_6digits");
            sv_eq64(pgfe_totp_8digits(k, 32, step, NULL), full % 100000000, "pgfe_totp_8digits");
        }
        sv_free(dp);
    }
    /* an interval of zero is tolerated: the counter is fixed */
    sv_case("step 0", 0, 0, 0); sv_now = (int64_t)sv_u32("now");
    int32_t d0 = 5; sv_eq64(pgfe_totp_generic((enum pgfe_algorithm_choice)ALG[a], k, 32, 6, 0, 0, &d0), ref_hotp(a, key, 32, 0, 6), "time-based password, zero interval");
}
#define T(i, n) void job_C07_##n(void) { totp(i); }
EACH_MAC(T)

/* the clock moves on while a password is being made: the seconds left belong to the window of the password */
void job_C07_clock(void) {
    u8 *key = sv_buf(32); sv_bytes(key, 32, "secret"); const u8 *k = sv_cbuf(key, 32); static const u32 ticks[] = {1, 7, 30, 45}, steps[] = {30, 60, 1, 7};
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (u32 at = 1; at <= 2; at++) {
        u32 step = steps[j]; int64_t first = 20 * (int64_t)step - at; int32_t *left = sv_buf(4); sv_case("seconds between readings/interval/seconds before the next window", ticks[i], step, at);
        sv_now = first; sv_tick = ticks[i]; sv_readings = 0;
        u32 got = pgfe_totp_generic(SHA1, k, 32, 6, step, 0, left); int64_t now = first; int found = 0;
        for (u64 r = 0; r < sv_readings && !found; r++, now += ticks[i]) if ((u32)*left == step - (u32)(now % step)) { found = 1; sv_eq64(got, ref_hotp(R_SHA1, key, 32, (u64)now / step, 6), "password of the window whose remaining seconds are reported"); }
        sv_eq64((u64)found, 1, "the seconds left are those of a time between the call and the return"); sv_tick = 0; sv_free(left);
    }
}
