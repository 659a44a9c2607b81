/* Models of the C and C++ runtime functions the library calls, in C so that the analysis can follow them. */
#include "sv.h"
#include <stdarg.h>
#include "libc_model.h"
#include "ctype_tab.h"
#pragma clang diagnostic ignored "-Wincompatible-library-redeclaration"

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *x = p; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *x = p; while (n--) if (x[n] == (unsigned char)c) return (void *)(x + n); return 0; }
void *rawmemchr(const void *p, int c) { const unsigned char *x = p; while (*x != (unsigned char)c) x++; return (void *)x; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n] && strchr(a, s[n]); n++) ; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n] && !strchr(a, s[n]); n++) ; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strstr(const char *h, const char *n) { size_t m = strlen(n); for (;; h++) { if (!strncmp(h, n, m)) return (char *)h; if (!*h) return 0; } }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
void *mempcpy(void *d, const void *s, size_t n) { unsigned char *x = d; const unsigned char *y = s; for (size_t i = 0; i < n; i++) x[i] = y[i]; return x + n; }
void *memccpy(void *d, const void *s, int c, size_t n) { unsigned char *x = d; const unsigned char *y = s; for (size_t i = 0; i < n; i++) if ((x[i] = y[i]) == (unsigned char)c) return x + i + 1; return 0; }
void bzero(void *p, size_t n) { unsigned char *x = p; for (size_t i = 0; i < n; i++) x[i] = 0; }
void explicit_bzero(void *p, size_t n) { bzero(p, n); }
void bcopy(const void *s, void *d, size_t n) { unsigned char *x = d; const unsigned char *y = s; if (x < y) for (size_t i = 0; i < n; i++) x[i] = y[i]; else while (n--) x[n] = y[n]; }
void *malloc(size_t); void free(void *);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); if (r) for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); if (r) { for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; } return r; }
int posix_memalign(void **p, size_t al, size_t n) { void *q = malloc(n); if (!q) return 12; *p = q; return 0; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int isascii(int c) { return c >= 0 && c < 128; }
static const unsigned short *ctype_bp = ctype_b + 128; static const int *ctype_upp = ctype_up + 128, *ctype_lowp = ctype_low + 128;
const unsigned short **__ctype_b_loc(void) { return &ctype_bp; }
const int **__ctype_toupper_loc(void) { return &ctype_upp; }
const int **__ctype_tolower_loc(void) { return &ctype_lowp; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } return 0; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
int errno_; int *__errno_location(void) { return &errno_; }

/* ---- numbers in text */
static int digit_of(int c) { return isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99; }
static uint64_t parse(const char *s, char **end, int base, int *neg, int *over) {
    const char *p = s; uint64_t v = 0; int any = 0; *neg = *over = 0;
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-' || *p == '+') *neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit_of((unsigned char)p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    for (; digit_of((unsigned char)*p) < base; p++) { uint64_t d = (uint64_t)digit_of((unsigned char)*p); if (v > (~0ull - d) / (uint64_t)base) *over = 1; v = v * (uint64_t)base + d; any = 1; }
    if (end) *end = (char *)(any ? p : s);
    return v;
}
unsigned long strtoul(const char *s, char **e, int b) { int n, o; uint64_t v = parse(s, e, b, &n, &o); return o ? ~0ul : n ? 0 - v : v; }
long strtol(const char *s, char **e, int b) { int n, o; uint64_t v = parse(s, e, b, &n, &o), lim = 0x7fffffffffffffffull + (uint64_t)n; if (o || v > lim) return n ? -0x7fffffffffffffffl - 1 : 0x7fffffffffffffffl; return (long)(n ? 0 - v : v); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
/* sscanf: numbers, characters, strings with widths */
static int vscan(const char *s, const char *f, va_list ap) {
    int got = 0; const char *s0 = s;
    for (; *f; f++) {
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return *s || got ? got : -1; s++; continue; }
        f++; int skip = 0, width = 0, size = 4; if (*f == '*') { skip = 1; f++; }
        while (isdigit((unsigned char)*f)) width = width * 10 + *f++ - '0';
        if (*f == 'h') { f++; size = 2; if (*f == 'h') { f++; size = 1; } } else if (*f == 'l') { f++; size = 8; if (*f == 'l') f++; } else if (*f == 'z' || *f == 'j' || *f == 't') { f++; size = 8; }
        if (*f == '%') { if (*s++ != '%') return got; continue; }
        if (*f == 'n') { *va_arg(ap, int *) = (int)(s - s0); continue; }
        if (*f == 'c') { if (!width) width = 1; char *o = skip ? 0 : va_arg(ap, char *); for (int i = 0; i < width; i++) { if (!*s) return got ? got : -1; if (o) o[i] = *s; s++; } got += !skip; continue; }
        while (isspace((unsigned char)*s)) s++;
        if (!*s) return got ? got : -1;
        if (*f == 's') { char *o = skip ? 0 : va_arg(ap, char *); int i = 0; for (; s[i] && !isspace((unsigned char)s[i]) && (!width || i < width); i++) if (o) o[i] = s[i]; if (o) o[i] = 0; s += i; got += !skip; continue; }
        int base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : *f == 'i' ? 0 : 10, neg, ov; char tmp[40], *e; int i = 0;
        if (*f != 'x' && *f != 'X' && *f != 'o' && *f != 'i' && *f != 'd' && *f != 'u') sv_unsupported("conversion specification");
        for (; s[i] && i < 39 && (!width || i < width); i++) tmp[i] = s[i];
        tmp[i] = 0; uint64_t v = parse(tmp, &e, base, &neg, &ov); if (e == tmp) return got; if (neg) v = 0 - v;
        s += e - tmp; if (skip) continue; void *o = va_arg(ap, void *); got++;
        if (size == 1) *(unsigned char *)o = (unsigned char)v; else if (size == 2) *(unsigned short *)o = (unsigned short)v; else if (size == 4) *(unsigned *)o = (unsigned)v; else *(uint64_t *)o = v;
    }
    return got;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }

/* ---- formatted output */
struct sink { char *p; size_t cap, n; };
static void put(struct sink *k, char c) { if (k->n < k->cap) k->p[k->n] = c; k->n++; }
static void fmt_num(struct sink *k, uint64_t v, int neg, unsigned base, int width, int prec, char pad, int left, int upper, int plus) {
    char tmp[72]; int n = 0;
    if (base == 16 && pad == '0' && !left && prec < 0 && !neg && !plus && width > 0 && width < 16 && v >> 4 * width == 0) { /* exactly width digits */
        for (int i = width - 1; i >= 0; i--) { unsigned d = (unsigned)(v >> (4 * i)) & 15; put(k, (upper ? "0123456789ABCDEF" : "0123456789abcdef")[d]); }
        return;
    }
    /* the number of digits may depend on the value: produce them all, then find the leading ones */
    if (base == 16) { for (int i = 0; i < 16; i++) { unsigned d = (unsigned)(v >> (4 * i)) & 15; tmp[i] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); } n = 1; for (int i = 15; i > 0; i--) if (v >> (4 * i)) { n = i + 1; break; } }
    else if (base == 8) { for (int i = 0; i < 22; i++) tmp[i] = (char)('0' + ((v >> (3 * i)) & 7)); n = 1; for (int i = 21; i > 0; i--) if (v >> (3 * i)) { n = i + 1; break; } }
    else { uint64_t q = v; for (int i = 0; i < 20; i++) { tmp[i] = (char)('0' + q % 10); q /= 10; }
        n = 1; uint64_t p = 10; for (int i = 1; i < 20; i++) { if (v >= p) n = i + 1; p *= 10; } }
    if (prec >= 0) { pad = ' '; if (prec == 0 && v == 0) n = 0; }
    int digits = n; if (prec > digits) digits = prec;
    int sign = neg || plus; int total = digits + sign;
    if (!left && pad == ' ') for (int i = total; i < width; i++) put(k, ' ');
    if (neg) put(k, '-'); else if (plus) put(k, '+');
    if (!left && pad == '0') { for (int i = total; i < width; i++) put(k, '0'); }
    for (int i = n; i < digits; i++) put(k, '0');
    for (int i = n - 1; i >= 0; i--) put(k, tmp[i]);
    if (left) for (int i = total; i < width; i++) put(k, ' ');
}
static int vfmt(struct sink *k, const char *f, va_list ap) {
    for (; *f; f++) {
        if (*f != '%') { put(k, *f); continue; }
        f++;
        char pad = ' '; int left = 0, plus = 0, width = 0, prec = -1, size = 4;
        for (;; f++) { if (*f == '0') pad = '0'; else if (*f == '-') left = 1; else if (*f == '+') plus = 1; else if (*f == ' ' || *f == '#') ; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
        if (*f == 'h') { f++; size = 2; if (*f == 'h') { f++; size = 1; } } else if (*f == 'l') { f++; size = 8; if (*f == 'l') f++; } else if (*f == 'z' || *f == 'j' || *f == 't') { f++; size = 8; }
        switch (*f) {
        case '%': put(k, '%'); break;
        case 'c': put(k, (char)va_arg(ap, int)); break;
        case 's': { const char *s = va_arg(ap, const char *); int n = 0; while ((prec < 0 || n < prec) && s[n]) n++; if (!left) for (int i = n; i < width; i++) put(k, ' '); for (int i = 0; i < n; i++) put(k, s[i]); if (left) for (int i = n; i < width; i++) put(k, ' '); break; }
        case 'd': case 'i': { int64_t v = size == 8 ? va_arg(ap, int64_t) : va_arg(ap, int); if (size == 2) v = (short)v; if (size == 1) v = (signed char)v; if (v < 0) fmt_num(k, 0 - (uint64_t)v, 1, 10, width, prec, pad, left, 0, 0); else fmt_num(k, (uint64_t)v, 0, 10, width, prec, pad, left, 0, plus); break; }
        case 'u': case 'x': case 'X': case 'o': { uint64_t v = size == 8 ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); if (size == 2) v = (unsigned short)v; if (size == 1) v = (unsigned char)v; fmt_num(k, v, 0, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, width, prec, pad, left, *f == 'X', 0); break; }
        case 'p': { fmt_num(k, (uint64_t)va_arg(ap, void *), 0, 16, width, prec, pad, left, 0, 0); break; }
        default: sv_unsupported("conversion specification");
        }
    }
    return (int)k->n;
}
int vsnprintf(char *s, size_t n, const char *f, va_list ap) { struct sink k = {s, n ? n - 1 : 0, 0}; int r = vfmt(&k, f, ap); if (n) s[k.n < n - 1 ? k.n : n - 1] = 0; return r; }
int snprintf(char *s, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(s, n, f, ap); va_end(ap); return r; }
int vsprintf(char *s, const char *f, va_list ap) { struct sink k = {s, ~(size_t)0, 0}; int r = vfmt(&k, f, ap); s[k.n] = 0; return r; }
int sprintf(char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(s, f, ap); va_end(ap); return r; }
char sv_stdout[4096]; size_t sv_stdout_n;
static void outc(char c) { if (sv_stdout_n < sizeof sv_stdout) sv_stdout[sv_stdout_n] = c; sv_stdout_n++; }
int vprintf(const char *f, va_list ap) { size_t at = sv_stdout_n < sizeof sv_stdout ? sv_stdout_n : sizeof sv_stdout; struct sink k = {sv_stdout + at, sizeof sv_stdout - at, 0}; int r = vfmt(&k, f, ap); sv_stdout_n += k.n; return r; }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vprintf(f, ap); va_end(ap); return r; }
int putchar(int c) { outc((char)c); return c; }
int puts(const char *s) { while (*s) outc(*s++); outc('\n'); return 0; }
static struct sv_file out_file, err_file; void *stdout = &out_file, *stderr = &err_file;
static void outf(char c, void *fp) { if (fp == &out_file) outc(c); else if (fp != &err_file) sv_unsupported("output to a stream"); }
int fputc(int c, void *fp) { outf((char)c, fp); return (unsigned char)c; }
int putc(int c, void *fp) { return fputc(c, fp); }
int _IO_putc(int c, void *fp) { return fputc(c, fp); }
int fputs(const char *s, void *fp) { while (*s) outf(*s++, fp); return 0; }
size_t fwrite(const void *p, size_t sz, size_t n, void *fp) { const char *c = p; for (size_t i = 0; i < sz * n; i++) outf(c[i], fp); return sz ? n : 0; }
int vfprintf(void *fp, const char *f, va_list ap) { if (fp == &out_file) return vprintf(f, ap); char t[512]; struct sink k = {t, sizeof t, 0}; int r = vfmt(&k, f, ap); if (fp != &err_file) sv_unsupported("output to a stream"); return r; }
int fprintf(void *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fp, f, ap); va_end(ap); return r; }
void perror(const char *s) {}

/* ---- streams: a FILE is a struct sv_file; data[pos] is the next byte, base + pos the position in the file */
static int next(struct sv_file *f) {
    if (f->back) { int c = f->back - 1; f->back = 0; f->pos++; return c; }
    if (f->eof) return -1;
    if (f->pos >= f->len) { if (f->bad) f->err = 1; else f->eof = 1; return -1; }
    return (unsigned char)f->data[f->pos++];
}
size_t fread(void *p, size_t sz, size_t n, void *fp) {
    struct sv_file *f = fp; size_t want = sz * n, k = 0; char *o = p; if (!want) return 0;
    if (f->back) o[k++] = (char)next(f);
    size_t have = f->eof ? 0 : f->len - f->pos, m = want - k < have ? want - k : have;
    for (size_t i = 0; i < m; i++) o[k + i] = f->data[f->pos + i];
    f->pos += m; k += m; if (k < want) { if (f->bad) f->err = 1; else f->eof = 1; }
    return k / sz;
}
int fgetc(void *fp) { return next(fp); }
int getc(void *fp) { return next(fp); }
size_t fread_unlocked(void *p, size_t sz, size_t n, void *fp) { return fread(p, sz, n, fp); }
int fgetc_unlocked(void *fp) { return next(fp); }
int getc_unlocked(void *fp) { return next(fp); }
int ungetc(int c, void *fp) { struct sv_file *f = fp; if (c == -1) return -1; if (f->back || !f->pos) sv_unsupported("ungetc"); f->back = (unsigned char)c + 1; f->pos--; f->eof = 0; return (unsigned char)c; }
char *fgets(char *s, int n, void *fp) { int i = 0, c = 0; while (i < n - 1 && c != '\n' && (c = next(fp)) != -1) s[i++] = (char)c; if (!i) return 0; s[i] = 0; return s; }
int feof(void *fp) { struct sv_file *f = fp; return f->eof; }
int ferror(void *fp) { struct sv_file *f = fp; return f->err; }
int feof_unlocked(void *fp) { struct sv_file *f = fp; return f->eof; }
int ferror_unlocked(void *fp) { struct sv_file *f = fp; return f->err; }
void clearerr(void *fp) { struct sv_file *f = fp; f->eof = 0; f->err = 0; }
long ftell(void *fp) { struct sv_file *f = fp; return (long)(f->base + f->pos); }
long ftello(void *fp) { return ftell(fp); }
long ftello64(void *fp) { return ftell(fp); }
int fseek(void *fp, long o, int wh) {
    struct sv_file *f = fp; uint64_t t = (wh == 0 ? 0 : wh == 1 ? f->base + f->pos : f->base + f->len) + (uint64_t)o;
    if ((long)t < 0) return -1;
    if (t < f->base) sv_unsupported("seek before the modelled part of the file");
    f->pos = t - f->base; f->eof = 0; f->back = 0; return 0;
}
int fseeko(void *fp, long o, int wh) { return fseek(fp, o, wh); }
int fseeko64(void *fp, long o, int wh) { return fseek(fp, o, wh); }
void rewind(void *fp) { struct sv_file *f = fp; fseek(fp, 0, 0); f->err = 0; }
int setvbuf(void *fp, char *b, int m, size_t n) { return 0; }
void setbuf(void *fp, char *b) {}
void flockfile(void *fp) {}
void funlockfile(void *fp) {}
int fflush(void *fp) { return 0; }
int fclose(void *fp) { struct sv_file *f = fp; f->closed = 1; return 0; }

/* ---- clock */
int64_t sv_now, sv_tick; uint64_t sv_readings; /* each reading finds the clock advanced by sv_tick */
static int64_t reading(void) { int64_t v = sv_now; sv_now += sv_tick; sv_readings++; return v; }
int64_t time(int64_t *t) { int64_t v = reading(); if (t) *t = v; return v; }
struct clk { int64_t s, f; };
int clock_gettime(int id, struct clk *t) { if (id != 0 && id != 5) sv_unsupported("a clock other than CLOCK_REALTIME"); t->s = reading(); t->f = 999999999; return 0; }
int gettimeofday(struct clk *t, void *z) { t->s = reading(); t->f = 999999; return 0; }
int timespec_get(struct clk *t, int base) { t->s = reading(); t->f = 999999999; return base; }
int64_t _ZNSt6chrono3_V212system_clock3nowEv(void) { return reading() * 1000000000 + 999999999; }

/* ---- libstdc++ */
size_t _ZSt11_Hash_bytesPKvmm(const void *p, size_t n, size_t seed) { const unsigned char *x = p; size_t h = seed ^ (n * 0x9E3779B97F4A7C15ull); for (size_t i = 0; i < n; i++) h = (h ^ x[i]) * 0x100000001B3ull; return h; }
/* std::__detail::_Prime_rehash_policy: { float max_load; size_t next_resize } */
struct prp { float ml; size_t next; };
static size_t prime_at_least(size_t n) { static const size_t t[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 73, 97, 127, 151, 197, 251, 313, 397, 499, 631, 797, 1009}; for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (t[i] >= n) return t[i]; return n | 1; }
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(struct prp *p, size_t n) { size_t r = prime_at_least(n); p->next = r; return r; }
struct need { _Bool y; size_t n; };
struct need _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(struct prp *p, size_t bkt, size_t el, size_t ins) {
    struct need r = {0, 0};
    if (el + ins > p->next) { size_t m = el + ins; if (p->next == 0 && m < 11) m = 11; if (m >= bkt) { r.y = 1; size_t g = m + 1 > bkt * 2 ? m + 1 : bkt * 2; r.n = _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(p, g); } else p->next = bkt; }
    return r;
}
const char *_ZNKSt9exception4whatEv(const void *e) { return "std::exception"; }

/* once */
int __cxa_guard_acquire(void *); void __cxa_guard_release(void *);
int pthread_once(int *o, void (*f)(void)) { if (__cxa_guard_acquire(o)) { f(); __cxa_guard_release(o); } return 0; }
_Thread_local void *_ZSt15__once_callable; _Thread_local void (*_ZSt11__once_call)(void);
void __once_proxy(void) { _ZSt11__once_call(); }
/* std::list and std::map: the links; balance is of no consequence to results */
struct ln { struct ln *next, *prev; };
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(struct ln *n, struct ln *at) { n->next = at; n->prev = at->prev; at->prev->next = n; at->prev = n; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(struct ln *n) { n->prev->next = n->next; n->next->prev = n->prev; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(struct ln *at, struct ln *f, struct ln *l) { if (at == l) return; l->prev->next = at; f->prev->next = l; at->prev->next = f; struct ln *t = at->prev; at->prev = l->prev; l->prev = f->prev; f->prev = t; }
struct rb { int color; struct rb *parent, *left, *right; };
static struct rb *rb_next(struct rb *x) { if (x->right) { x = x->right; while (x->left) x = x->left; return x; } struct rb *y = x->parent; while (x == y->right) { x = y; y = y->parent; } return x->right != y ? y : x; }
static struct rb *rb_prev(struct rb *x) { if (x->color == 0 && x->parent->parent == x) return x->right; if (x->left) { x = x->left; while (x->right) x = x->right; return x; } struct rb *y = x->parent; while (x == y->left) { x = y; y = y->parent; } return y; }
struct rb *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(struct rb *x) { return rb_next(x); }
struct rb *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(struct rb *x) { return rb_next(x); }
struct rb *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(struct rb *x) { return rb_prev(x); }
struct rb *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(struct rb *x) { return rb_prev(x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(_Bool left, struct rb *x, struct rb *p, struct rb *h) {
    x->parent = p; x->left = x->right = 0; x->color = 1;
    if (left) { p->left = x; if (p == h) { h->parent = x; h->right = x; } else if (p == h->left) h->left = x; } else { p->right = x; if (p == h->right) h->right = x; }
}
struct rb *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(struct rb *z, struct rb *h) {
    if (h->left == z) h->left = z->right ? rb_next(z) : z->parent; if (h->right == z) h->right = z->left ? rb_prev(z) : z->parent;
    struct rb **up = h->parent == z ? &h->parent : z->parent->left == z ? &z->parent->left : &z->parent->right, *r;
    if (!z->left) r = z->right; else if (!z->right) r = z->left;
    else { r = z->right; while (r->left) r = r->left; if (r->parent != z) { r->parent->left = r->right; if (r->right) r->right->parent = r->parent; r->right = z->right; r->right->parent = r; } r->left = z->left; r->left->parent = r; }
    if (r) r->parent = z->parent; *up = r; return z;
}
void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *e = (const char *)b + m * sz; int c = cmp(k, e); if (!c) return (void *)e; if (c < 0) hi = m; else lo = m + 1; } return 0; }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { char *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) for (size_t q = 0; q < sz; q++) { char t = p[j * sz + q]; p[j * sz + q] = p[(j - 1) * sz + q]; p[(j - 1) * sz + q] = t; } }
double difftime(long a, long b) { return (double)(a - b); }
void swab(const void *from, void *to, long n) { const char *f = from; char *t = to; for (long i = 0; i + 1 < n; i += 2) { char x = f[i], y = f[i + 1]; t[i] = y; t[i + 1] = x; } }
