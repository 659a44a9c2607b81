// C22: data written to a stream (what is written is recorded by out.c).
#include "cxx.h"
#include <ostream>
extern "C" { extern char out_bytes[256]; extern size_t out_n; extern void *out_stream; }
alignas(std::ostream) static char mem[sizeof(std::ostream)];
extern "C" void job_C22_stream(void) {
    std::ostream &os = *(std::ostream *)mem; out_stream = mem;
    for (size_t n = 0; n <= 40; n++) {
        if (n > 3 && n < 14 && n != 7) continue; if (n > 18 && n < 40) continue;
        u8 *x = arb(n, "bytes"); sv_const(x); sv_case("data written to a stream, bytes", n, 0, 0); out_n = 0; SequentialData d(x, n); u64 mk = sv_mark();
        std::ostream &r = os << d; sv_true(&r == &os, "the stream returned"); sv_eq64(out_n, n, "bytes written"); sv_eq(out_bytes, x, n < out_n ? n : out_n, "data written to the stream"); same(&d, x, n, "bytes after writing"); sv_noleak(mk, "writing data");
        out_n = 0; os << d << d; sv_eq64(out_n, 2 * n, "bytes written"); sv_eq(out_bytes + n, x, n, "data written a second time"); sv_free(x);
    }
    const u8 *z = zeros(12); sv_case("data with zero bytes written to a stream", 0, 0, 0); out_n = 0; os << SequentialData(z, 12); sv_eq64(out_n, 12, "bytes written"); sv_eq(out_bytes, z, 12, "data written to the stream");
}
