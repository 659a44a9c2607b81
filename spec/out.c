/* The out-of-line members of std::ostream that unformatted and string output end in: they record what is written. */
#include "common.h"
char out_bytes[256]; size_t out_n; void *out_stream;
static void *rec(void *os, const char *s, size_t n) { sv_true(os == out_stream, "the stream written to"); for (size_t i = 0; i < n; i++) { if (out_n < sizeof out_bytes) out_bytes[out_n] = s[i]; out_n++; } return os; }
void *out_insert(void *os, const char *s, long n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
void *out_insert(void *os, const char *s, long n) { return rec(os, s, (size_t)n); }
void *out_string(void *os, const void *s) __asm__("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void *out_string(void *os, const void *s) { const struct { const char *p; size_t n; } *x = s; return rec(os, x->p, x->n); } /* data, length */
void *out_text(void *os, const char *s) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
void *out_text(void *os, const char *s) { return rec(os, s, strlen(s)); }
void *out_utext(void *os, const char *s) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKh");
void *out_utext(void *os, const char *s) { return rec(os, s, strlen(s)); }
void *out_char(void *os, char c) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
void *out_char(void *os, char c) { return rec(os, &c, 1); }
void *out_uchar(void *os, unsigned char c) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h");
void *out_uchar(void *os, unsigned char c) { char d = (char)c; return rec(os, &d, 1); }
void *out_write(void *os, const char *s, long n) __asm__("_ZNSo5writeEPKcl");
void *out_write(void *os, const char *s, long n) { return rec(os, s, (size_t)n); }
void *out_put(void *os, char c) __asm__("_ZNSo3putEc");
void *out_put(void *os, char c) { return rec(os, &c, 1); }
