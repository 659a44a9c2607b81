#include "ref.h"
static u32 rol32(u32 x, int s) { return s ? x << s | x >> (32 - s) : x; }
static u32 ror32(u32 x, int s) { return x >> s | x << (32 - s); }
static u64 rol64(u64 x, int s) { return s ? x << s | x >> (64 - s) : x; }
static u64 ror64(u64 x, int s) { return x >> s | x << (64 - s); }

/* ---- MD5 (RFC 1321) ---- */
static const u32 MD5K[64] = {
0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static const int MD5S[4][4] = {{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
static void md5_block(u32 h[4], const u8 *p) {
    u32 w[16], a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 16; i++) w[i] = p[4 * i] | (u32)p[4 * i + 1] << 8 | (u32)p[4 * i + 2] << 16 | (u32)p[4 * i + 3] << 24;
    for (int i = 0; i < 64; i++) {
        u32 f; int g;
        if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (b & d) | (c & ~d); g = (5 * i + 1) & 15; }
        else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) & 15; } else { f = c ^ (b | ~d); g = (7 * i) & 15; }
        u32 t = a + f + w[g] + MD5K[i]; a = d; d = c; c = b; b = b + rol32(t, MD5S[i / 16][i & 3]);
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
/* ---- SHA-1, SHA-2 (FIPS 180-4) ---- */
static void sha1_block(u32 h[5], const u8 *p) {
    u32 w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 16; i++) w[i] = (u32)p[4 * i] << 24 | (u32)p[4 * i + 1] << 16 | (u32)p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int i = 16; i < 80; i++) w[i] = rol32(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    for (int i = 0; i < 80; i++) {
        u32 f, k;
        if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
        else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; } else { f = b ^ c ^ d; k = 0xca62c1d6; }
        u32 t = rol32(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol32(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
static const u64 K512[80] = {
0x428a2f98d728ae22,0x7137449123ef65cd,0xb5c0fbcfec4d3b2f,0xe9b5dba58189dbbc,0x3956c25bf348b538,0x59f111f1b605d019,0x923f82a4af194f9b,0xab1c5ed5da6d8118,
0xd807aa98a3030242,0x12835b0145706fbe,0x243185be4ee4b28c,0x550c7dc3d5ffb4e2,0x72be5d74f27b896f,0x80deb1fe3b1696b1,0x9bdc06a725c71235,0xc19bf174cf692694,
0xe49b69c19ef14ad2,0xefbe4786384f25e3,0x0fc19dc68b8cd5b5,0x240ca1cc77ac9c65,0x2de92c6f592b0275,0x4a7484aa6ea6e483,0x5cb0a9dcbd41fbd4,0x76f988da831153b5,
0x983e5152ee66dfab,0xa831c66d2db43210,0xb00327c898fb213f,0xbf597fc7beef0ee4,0xc6e00bf33da88fc2,0xd5a79147930aa725,0x06ca6351e003826f,0x142929670a0e6e70,
0x27b70a8546d22ffc,0x2e1b21385c26c926,0x4d2c6dfc5ac42aed,0x53380d139d95b3df,0x650a73548baf63de,0x766a0abb3c77b2a8,0x81c2c92e47edaee6,0x92722c851482353b,
0xa2bfe8a14cf10364,0xa81a664bbc423001,0xc24b8b70d0f89791,0xc76c51a30654be30,0xd192e819d6ef5218,0xd69906245565a910,0xf40e35855771202a,0x106aa07032bbd1b8,
0x19a4c116b8d2d0c8,0x1e376c085141ab53,0x2748774cdf8eeb99,0x34b0bcb5e19b48a8,0x391c0cb3c5c95a63,0x4ed8aa4ae3418acb,0x5b9cca4f7763e373,0x682e6ff3d6b2b8a3,
0x748f82ee5defb2fc,0x78a5636f43172f60,0x84c87814a1f0ab72,0x8cc702081a6439ec,0x90befffa23631e28,0xa4506cebde82bde9,0xbef9a3f7b2c67915,0xc67178f2e372532b,
0xca273eceea26619c,0xd186b8c721c0c207,0xeada7dd6cde0eb1e,0xf57d4f7fee6ed178,0x06f067aa72176fba,0x0a637dc5a2c898a6,0x113f9804bef90dae,0x1b710b35131c471b,
0x28db77f523047d84,0x32caab7b40c72493,0x3c9ebe0a15c9bebc,0x431d67c49c100d4c,0x4cc5d4becb3e42b6,0x597f299cfc657e2a,0x5fcb6fab3ad6faec,0x6c44198c4a475817};
static void sha256_block(u32 h[8], const u8 *p) {
    u32 w[64], s[8];
    for (int i = 0; i < 16; i++) w[i] = (u32)p[4 * i] << 24 | (u32)p[4 * i + 1] << 16 | (u32)p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int i = 16; i < 64; i++) { u32 x = w[i - 15], y = w[i - 2]; w[i] = (ror32(y, 17) ^ ror32(y, 19) ^ y >> 10) + w[i - 7] + (ror32(x, 7) ^ ror32(x, 18) ^ x >> 3) + w[i - 16]; }
    for (int i = 0; i < 8; i++) s[i] = h[i];
    for (int i = 0; i < 64; i++) {
        u32 t1 = s[7] + (ror32(s[4], 6) ^ ror32(s[4], 11) ^ ror32(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + (u32)(K512[i] >> 32) + w[i];
        u32 t2 = (ror32(s[0], 2) ^ ror32(s[0], 13) ^ ror32(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
        s[7] = s[6]; s[6] = s[5]; s[5] = s[4]; s[4] = s[3] + t1; s[3] = s[2]; s[2] = s[1]; s[1] = s[0]; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
}
static void sha512_block(u64 h[8], const u8 *p) {
    u64 w[80], s[8];
    for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] |= (u64)p[8 * i + j] << (56 - 8 * j); }
    for (int i = 16; i < 80; i++) { u64 x = w[i - 15], y = w[i - 2]; w[i] = (ror64(y, 19) ^ ror64(y, 61) ^ y >> 6) + w[i - 7] + (ror64(x, 1) ^ ror64(x, 8) ^ x >> 7) + w[i - 16]; }
    for (int i = 0; i < 8; i++) s[i] = h[i];
    for (int i = 0; i < 80; i++) {
        u64 t1 = s[7] + (ror64(s[4], 14) ^ ror64(s[4], 18) ^ ror64(s[4], 41)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K512[i] + w[i];
        u64 t2 = (ror64(s[0], 28) ^ ror64(s[0], 34) ^ ror64(s[0], 39)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
        s[7] = s[6]; s[6] = s[5]; s[5] = s[4]; s[4] = s[3] + t1; s[3] = s[2]; s[2] = s[1]; s[1] = s[0]; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
}
static const u32 IV32[4][8] = {
{0x67452301,0xefcdab89,0x98badcfe,0x10325476},{0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0},
{0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4},
{0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}};
static const u64 IV64[4][8] = {
{0xcbbb9d5dc1059ed8,0x629a292a367cd507,0x9159015a3070dd17,0x152fecd8f70e5939,0x67332667ffc00b31,0x8eb44a8768581511,0xdb0c2e0d64f98fa7,0x47b5481dbefa4fa4},
{0x6a09e667f3bcc908,0xbb67ae8584caa73b,0x3c6ef372fe94f82b,0xa54ff53a5f1d36f1,0x510e527fade682d1,0x9b05688c2b3e6c1f,0x1f83d9abfb41bd6b,0x5be0cd19137e2179},
{0x8c3d37c819544da2,0x73e1996689dcd4d6,0x1dfab7ae32ff9c82,0x679dd514582f9fcf,0x0f6d2b697bd44da8,0x77e36f7304c48942,0x3f9d85a86a1d36c8,0x1112e6ad91d692a1},
{0x22312194fc2bf72c,0x9f555fa3c84c64c2,0x2393b86b6f53b151,0x963877195940eabd,0x96283ee2a88effe3,0xbe5e1e2553863992,0x2b0199fc2c85b8aa,0x0eb72ddc81c52ca2}};
/* ---- Keccak (FIPS 202) ---- */
static const u64 KRC[24] = {0x1,0x8082,0x800000000000808a,0x8000000080008000,0x808b,0x80000001,0x8000000080008081,0x8000000000008009,0x8a,0x88,0x80008009,0x8000000a,
0x8000808b,0x800000000000008b,0x8000000000008089,0x8000000000008003,0x8000000000008002,0x8000000000000080,0x800a,0x800000008000000a,0x8000000080008081,0x8000000000008080,0x80000001,0x8000000080008008};
static const int KROT[5][5] = {{0,36,3,41,18},{1,44,10,45,2},{62,6,43,15,61},{28,55,25,21,56},{27,20,39,8,14}}; /* [x][y] */
static void keccak_f(u64 A[25]) { /* A[x+5y] */
    for (int r = 0; r < 24; r++) {
        u64 C[5], D, B[25];
        for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
        for (int x = 0; x < 5; x++) { D = C[(x + 4) % 5] ^ rol64(C[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) A[x + 5 * y] ^= D; }
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rol64(A[x + 5 * y], KROT[x][y]);
        for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
        A[0] ^= KRC[r];
    }
}
static void sponge(const u8 *msg, size_t len, int rate, u8 suffix, u8 *out, size_t outbits) {
    u64 A[25]; u8 blk[200]; size_t pos = 0; int last = 0;
    for (int i = 0; i < 25; i++) A[i] = 0;
    while (!last) {
        for (int i = 0; i < rate; i++) blk[i] = 0;
        int n = 0; while (n < rate && pos < len) blk[n++] = msg[pos++];
        if (n < rate) { blk[n] = suffix; blk[rate - 1] ^= 0x80; last = 1; }
        for (int i = 0; i < rate / 8; i++) { u64 v = 0; for (int j = 0; j < 8; j++) v |= (u64)blk[8 * i + j] << (8 * j); A[i] ^= v; }
        keccak_f(A);
    }
    size_t o = 0, bytes = outbits / 8 + (outbits % 8 != 0);
    while (o < bytes) {
        for (int i = 0; i < rate && o < bytes; i++) out[o++] = (u8)(A[i / 8] >> (8 * (i % 8)));
        if (o < bytes) keccak_f(A);
    }
    if (outbits % 8) out[bytes - 1] &= (u8)((1 << outbits % 8) - 1);
}
static const u8 DSZ[R_COUNT] = {16,20,28,32,48,64,28,32,28,32,48,64,32,32,64,64};
static const u8 BSZ[R_COUNT] = {64,64,64,64,128,128,128,128,144,136,104,72,168,168,136,136};
size_t ref_dsz(int a) { return DSZ[a]; }
size_t ref_bsz(int a) { return BSZ[a]; }
void ref_hash_x(int alg, const u8 *msg, size_t len, u64 extra, u8 *out, size_t outbits) {
    if (alg >= R_SHA3_224) {
        u8 suf = alg <= R_SHA3_512 ? 0x06 : alg == R_RAWSHAKE128 || alg == R_RAWSHAKE256 ? 0x07 : 0x1f;
        sponge(msg, len, BSZ[alg], suf, out, alg <= R_SHA3_512 ? DSZ[alg] * 8u : outbits); return;
    }
    int B = BSZ[alg], lf = B / 8; u8 blk[128]; u32 h[8]; u64 H[8]; size_t pos = 0; int st = 0;
    for (int i = 0; i < 8; i++) { h[i] = alg <= R_SHA256 ? IV32[alg][i] : 0; H[i] = alg > R_SHA256 ? IV64[alg - R_SHA384][i] : 0; }
    u64 total = extra + len;
    while (st < 2) { /* st 0: message left, 1: 0x80 written, 2: length written */
        for (int i = 0; i < B; i++) blk[i] = 0;
        int n = 0; while (n < B && pos < len) blk[n++] = msg[pos++];
        if (n < B && st == 0) { blk[n++] = 0x80; st = 1; }
        if (st == 1 && n <= B - lf) {
            for (int i = 0; i < 8; i++) { u8 v = (u8)((total << 3) >> (8 * i)); blk[alg == R_MD5 ? B - 8 + i : B - 1 - i] = v; }
            if (lf == 16) blk[B - 9] = (u8)(total >> 61);
            st = 2;
        }
        if (alg == R_MD5) md5_block(h, blk); else if (alg == R_SHA1) sha1_block(h, blk); else if (alg <= R_SHA256) sha256_block(h, blk); else sha512_block(H, blk);
    }
    for (int i = 0; i < DSZ[alg]; i++)
        out[i] = alg == R_MD5 ? (u8)(h[i / 4] >> (8 * (i % 4))) : alg <= R_SHA256 ? (u8)(h[i / 4] >> (24 - 8 * (i % 4))) : (u8)(H[i / 8] >> (56 - 8 * (i % 8)));
}
void ref_hash(int alg, const u8 *msg, size_t len, u8 *out, size_t outbits) { ref_hash_x(alg, msg, len, 0, out, outbits); }
/* ---- HMAC (RFC 2104), HOTP (RFC 4226) ---- */
void ref_hmac(int alg, const u8 *key, size_t klen, const u8 *msg, size_t len, u8 *out) {
    u8 k[200], inner[64], buf2[200 + 64]; u8 buf[200 + len + 1]; size_t B = BSZ[alg], D = DSZ[alg];
    for (size_t i = 0; i < B; i++) k[i] = 0;
    if (klen > B) ref_hash(alg, key, klen, k, 0); else for (size_t i = 0; i < klen; i++) k[i] = key[i];
    for (size_t i = 0; i < B; i++) { buf[i] = k[i] ^ 0x36; buf2[i] = k[i] ^ 0x5c; }
    for (size_t i = 0; i < len; i++) buf[B + i] = msg[i];
    ref_hash(alg, buf, B + len, inner, 0);
    for (size_t i = 0; i < D; i++) buf2[B + i] = inner[i];
    ref_hash(alg, buf2, B + D, out, 0);
}
u32 ref_hotp(int alg, const u8 *key, size_t klen, u64 counter, int digits) {
    u8 c[8], h[64 + 16]; u32 p = 1; size_t D = DSZ[alg];
    for (int i = 0; i < 8; i++) c[i] = (u8)(counter >> (56 - 8 * i));
    for (size_t i = 0; i < sizeof h; i++) h[i] = 0; /* a shorter digest is read as if followed by zeros */
    ref_hmac(alg, key, klen, c, 8, h);
    u8 o = h[D - 1] & 15;
    u32 v = (u32)(h[o] & 0x7f) << 24 | (u32)h[o + 1] << 16 | (u32)h[o + 2] << 8 | h[o + 3];
    if (digits >= 10) return v;
    for (int i = 0; i < digits; i++) p *= 10;
    return v % p;
}
/* ---- Base encodings (RFC 4648) ---- */
static size_t ref_base(const u8 *in, size_t n, char *out, int bits, int group, const char *alpha) {
    size_t o = 0, total = n * 8;
    for (size_t b = 0; b < total; b += (size_t)bits) {
        unsigned v = 0;
        for (int i = 0; i < bits; i++) { size_t p = b + (size_t)i; unsigned bit = p < total ? (in[p / 8] >> (7 - p % 8)) & 1u : 0; v = v << 1 | bit; }
        out[o++] = alpha[v];
    }
    while (o % (size_t)group) out[o++] = '=';
    out[o] = 0; return o;
}
size_t ref_b16(const u8 *in, size_t n, char *out) { return ref_base(in, n, out, 4, 2, "0123456789ABCDEF"); }
size_t ref_b32(const u8 *in, size_t n, char *out, int hexalpha) { return ref_base(in, n, out, 5, 8, hexalpha ? "0123456789ABCDEFGHIJKLMNOPQRSTUV" : "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"); }
size_t ref_b64(const u8 *in, size_t n, char *out) { return ref_base(in, n, out, 6, 4, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"); }
/* ---- Blowfish (Schneier 1993) ---- */
#include "pi.h"
static u32 bf_f(const u32 S[4][256], u32 x) { return ((S[0][x >> 24] + S[1][(x >> 16) & 255]) ^ S[2][(x >> 8) & 255]) + S[3][x & 255]; }
void ref_bf_enc(const u32 P[18], const u32 S[4][256], u32 *l, u32 *r) {
    u32 L = *l, R = *r, t;
    for (int i = 0; i < 16; i++) { L ^= P[i]; R ^= bf_f(S, L); t = L; L = R; R = t; }
    t = L; L = R; R = t; R ^= P[16]; L ^= P[17]; *l = L; *r = R;
}
void ref_bf_dec(const u32 P[18], const u32 S[4][256], u32 *l, u32 *r) {
    u32 L = *l, R = *r, t;
    for (int i = 17; i > 1; i--) { L ^= P[i]; R ^= bf_f(S, L); t = L; L = R; R = t; }
    t = L; L = R; R = t; R ^= P[1]; L ^= P[0]; *l = L; *r = R;
}
void ref_bf_init(u32 P[18], u32 S[4][256], const u8 *key, size_t klen) {
    size_t j = 0;
    for (int i = 0; i < 18; i++) P[i] = PI_WORDS[i];
    for (int i = 0; i < 1024; i++) S[i / 256][i % 256] = PI_WORDS[18 + i];
    if (klen) for (int i = 0; i < 18; i++) { u32 w = 0; for (int k = 0; k < 4; k++) { w = w << 8 | key[j]; j = (j + 1) % klen; } P[i] ^= w; }
    u32 L = 0, R = 0;
    for (int i = 0; i < 18; i += 2) { ref_bf_enc(P, (const u32(*)[256])S, &L, &R); P[i] = L; P[i + 1] = R; }
    for (int b = 0; b < 4; b++) for (int i = 0; i < 256; i += 2) { ref_bf_enc(P, (const u32(*)[256])S, &L, &R); S[b][i] = L; S[b][i + 1] = R; }
}
size_t ref_b64url(const u8 *in, size_t n, char *out) { return ref_base(in, n, out, 6, 4, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"); }
