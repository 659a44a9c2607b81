/* Interface between the specification programs in /verif/spec and the abstract interpreter (sv.cpp).
   Nothing here is ever executed: the calls are interpreted by the analysis. */
#ifndef SV_H
#define SV_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sv_bytes(void *p, size_t n, const char *name); /* n arbitrary bytes */
uint8_t sv_u8(const char *name);
uint32_t sv_u32(const char *name);                   /* an arbitrary word */
uint64_t sv_u64(const char *name);
uint8_t sv_char(const char *name, const uint8_t dom[32]); /* an arbitrary element of a set of bytes */
void *sv_buf(size_t n);                              /* object of exactly n uninitialised bytes */
void *sv_cbuf(const void *src, size_t n);            /* read-only object with a copy of n bytes */
void sv_const(const void *p);                        /* the object p points to becomes read-only */
void sv_free(void *p);                               /* the object p points to ceases to exist */
void sv_eq(const void *a, const void *b, size_t n, const char *what); /* obligation: a (library) equals b (reference) */
void sv_eq64(uint64_t a, uint64_t b, const char *what);
void sv_true(int c, const char *what);
void sv_defined(const void *p, size_t n, const char *what);
void sv_undefined(void *p, size_t n);                /* the contents become indeterminate */
void sv_case(const char *what, uint64_t a, uint64_t b, uint64_t c);
uint64_t sv_mark(void);
void sv_noleak(uint64_t mark, const char *what);
void sv_oblivious(int on);                            /* content-dependent control flow and addresses are recorded */
void sv_op(int n);                                   /* the following is operation n (from 1), concurrent with the others; 0: none */
int sv_locks_held(void);
void sv_fail_alloc(unsigned long k);                 /* the k-th allocation from now on fails; 0: none */
int sv_alloc_failed(void);                           /* did it? and back to normal */
int sv_tier(void);                                   /* 0 quick, 1 thorough */
int sv_nthresh(void);                                /* integer thresholds the library's code compares with */
uint64_t sv_thresh(int i);
int sv_known(const void *p, size_t n);               /* n bytes with known constant contents? */
uint64_t sv_objsize(const void *p);
#ifdef __cplusplus
}
#endif
#endif
