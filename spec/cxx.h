#ifndef CXX_H
#define CXX_H
// C++ interface: shared by the specification programs.
#include "common.h"
#include <memory>
#include "libpgfe/sequential_data.hpp"
#include <utility>
using namespace libpgfe;
static pgfe_algorithm_choice alg(int a) { return (pgfe_algorithm_choice)ALG[a]; }
static u8 *buf(size_t n) { return (u8 *)sv_buf(n); }
static u8 *arb(size_t n, const char *name) { u8 *p = buf(n); sv_bytes(p, n, name); return p; }
static void same(const SequentialData *sd, const u8 *want, size_t n, const char *what) { sv_eq64(sd->length(), n, "length of the result"); if (sd->length() == n) sv_eq(sd->c_str(), want, n, what); }
static void sames(const std::string &s, const char *want, size_t n, const char *what) { sv_eq64(s.length(), n, "length of the result"); if (s.length() == n) sv_eq(s.c_str(), want, n, what); }
// n characters other than 0, and the terminating 0
static const char *text(size_t n) { static const u8 nz[32] = {0xfe, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}; char *s = (char *)sv_buf(n + 1); for (size_t i = 0; i < n; i++) s[i] = (char)sv_char("str", nz); s[n] = 0; sv_const(s); return s; }

// n bytes other than 0, except for zeros at 4, 5 and the end
static const u8 *zeros(size_t n) { const char *t = text(n); u8 *p = buf(n); memcpy(p, t, n); for (size_t i = 0; i < n; i++) if (i == 4 || i == 5 || i + 1 == n) p[i] = 0; return p; }

// reference codecs
static size_t r16(const u8 *i, size_t n, char *o) { return ref_b16(i, n, o); }
static size_t r32(const u8 *i, size_t n, char *o) { return ref_b32(i, n, o, 0); }
static size_t r32h(const u8 *i, size_t n, char *o) { return ref_b32(i, n, o, 1); }
struct RC { size_t (*ref)(const u8 *, size_t, char *); int bits, group, unit; const char *alpha; int fold; };
static const RC CD[5] = {{r16, 4, 2, 1, "0123456789ABCDEF", 1}, {r32, 5, 8, 5, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 1}, {r32h, 5, 8, 5, "0123456789ABCDEFGHIJKLMNOPQRSTUV", 1},
    {ref_b64, 6, 4, 3, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 0}, {ref_b64url, 6, 4, 3, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 0}};
static size_t enclen(int k, size_t n) { size_t bits = (size_t)CD[k].bits, m = (n * 8 + bits - 1) / bits, g = (size_t)CD[k].group; return (m + g - 1) / g * g; }
static void put(u8 *set, int c) { set[c / 8] |= (u8)(1 << c % 8); }
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static u8 val[256];
static void alphabet(int k, int zero, u8 set[32]) { memset(set, 0, 32); for (int i = 0; i < 1 << CD[k].bits; i++) if (i % (1 << zero) == 0) { int c = CD[k].alpha[i]; put(set, c); val[c] = (u8)i; if (CD[k].fold) { put(set, lower(c)); val[lower(c)] = (u8)i; } } }
#endif
