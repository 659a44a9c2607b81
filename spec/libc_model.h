#ifndef LIBC_MODEL_H
#define LIBC_MODEL_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct sv_file { const char *data; size_t len, pos; uint64_t base; int eof, back, closed; int bad, err; }; /* bad: reading on after data[len - 1] fails */
#define SV_STDOUT 4096
extern char sv_stdout[SV_STDOUT]; extern size_t sv_stdout_n; /* what was printed, its beginning at least */
extern int64_t sv_now, sv_tick; extern uint64_t sv_readings;
void sv_unsupported(const char *what);
#ifdef __cplusplus
}
#endif
#endif
