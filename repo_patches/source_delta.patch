From 6a3a50eac54726541dc44f8017d3b856af2c511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 01/33] fix: include <stdarg.h> where va_start/va_arg are used

---
 src/hashes/templates.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashes/templates.h b/src/hashes/templates.h
index 88a9a2c..7bbef2e 100644
--- a/src/hashes/templates.h
+++ b/src/hashes/templates.h
@@ -10,6 +10,8 @@
 #ifndef LIBPGFE_TEMPLATES_H
 #define LIBPGFE_TEMPLATES_H
 
+#include <stdarg.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From e40d5d22781eefff69a8c873a82e594f7bc857bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 02/33] fix: make libpgfe/otp/types.h self-contained

---
 include/libpgfe/otp/types.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libpgfe/otp/types.h b/include/libpgfe/otp/types.h
index 8c9dabf..4e38c72 100644
--- a/include/libpgfe/otp/types.h
+++ b/include/libpgfe/otp/types.h
@@ -1,6 +1,8 @@
 #ifndef LIBPGFE_OTP_TYPES_H
 #define LIBPGFE_OTP_TYPES_H
 
+#include "libpgfe/generic.h"
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From 882069f6d3fb6d09d9edf676d6bc2e8aa11cd1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 03/33] fix: do not compare the first selected algorithm with
 an uninitialised one

AlgorithmSelectable::select_algorithm() read cur_alg before anything had
written it; when the garbage happened to equal the requested algorithm the
after-change hook (HMAC/OTP initialisation) was skipped.
---
 include/libpgfe/algorithm_selectable.hpp | 3 ++-
 src/core/algorithm_selectable.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index ad450c0..286f6ae 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -19,7 +19,8 @@ namespace libpgfe {
 class AlgorithmSelectable
 {
 protected:
-    pgfe_algorithm_choice cur_alg;
+    pgfe_algorithm_choice cur_alg = MD5;
+    bool alg_selected = false;
 
     virtual void before_change_alg() {}
     virtual void after_change_alg() {}
diff --git a/src/core/algorithm_selectable.cpp b/src/core/algorithm_selectable.cpp
index e0783d8..ca4fb44 100644
--- a/src/core/algorithm_selectable.cpp
+++ b/src/core/algorithm_selectable.cpp
@@ -10,10 +10,11 @@
 using namespace libpgfe;
 
 void AlgorithmSelectable::select_algorithm(pgfe_algorithm_choice choice) {
-    if (choice == cur_alg) return;
+    if (alg_selected && choice == cur_alg) return;
 
     before_change_alg();
     cur_alg = choice;
+    alg_selected = true;
     after_change_alg();
 }
 
-- 
2.43.0


From a23af538fa3130816a4c1904f24748a3c185db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 04/33] fix: base encoding read one byte past the input unit
 and wrote past the output unit

---
 src/base_encoding/base-encoding-internal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 9d21d79..3b103f2 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -23,7 +23,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
     const uint8_t chunk_mask = __mkmask(chunk_size);
 
-    for (low = 0, high = chunk_size % __bitsz; inp - input <= length; inp++, op++) {
+    for (low = 0, high = chunk_size % __bitsz; inp - input < length; inp++, op++) {
         if (low < high) {
             *op = ((*inp) >> (__bitsz - high)) & chunk_mask;
             inp--;
-- 
2.43.0


From a04803598a5bd7521248d6a958a8a280b8d9aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 05/33] fix: pad base32/base64 by the number of missing bytes,
 not by trailing zero bits

Trailing zero bits of the data were replaced by padding characters, e.g.
the single byte 0x00 was encoded as "====".
---
 src/base_encoding/base-encoding-internal.c | 13 ++++---------
 src/base_encoding/base-encoding-internal.h |  4 +++-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 3b103f2..0834698 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -49,7 +49,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
 size_t unittostr(
     size_t chunk_count, size_t unit_size, size_t bit_size, size_t alphabet_size, const char alphabet[],
-    const pgfe_encode_t unit[], char out[], bool padding
+    const pgfe_encode_t unit[], char out[], size_t missing_bytes
 ) {
     char unit_s[chunk_count];
     pgfe_encode_t unit_split[chunk_count];
@@ -60,14 +60,9 @@ size_t unittostr(
         unit_s[i] = alphabet[unit_split[i]];
     }
 
-    if (padding) {
-        for (i = chunk_count - 1; i >= 0; i--) {
-            if (unit_s[i] != alphabet[0]) {
-                break;
-            }
-
-            unit_s[i] = alphabet[alphabet_size];
-        }
+    // Characters which carry no input bits are padding
+    for (i = chunk_count - to_bit(missing_bytes) / bit_size; i < chunk_count; i++) {
+        unit_s[i] = alphabet[alphabet_size];
     }
 
     memcpy(out, unit_s, chunk_count);
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index 2f9ff7d..23f926c 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -36,7 +36,9 @@ pgfe_encode_t decode_base16_char(char base16_c);
 
 size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size, pgfe_encode_t out[]);
 
-size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], bool padding);
+size_t unittostr(
+    PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], size_t missing_bytes
+);
 
 size_t encode_base_generic(
     PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t input[], size_t input_length, char cs_out[]
-- 
2.43.0


From c45a5f8407f1c28275642418e52342aa25d53bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 06/33] fix: base decoding lost zero bytes and wrote before the
 output for empty input

The end of the output was taken to be the first zero byte of the last unit,
so data with zero bytes was truncated; the empty string stepped back one
unit from the start of the output buffer, and trailing ignorable characters
produced an extra unit.
---
 src/base_encoding/base-encoding-internal.c | 19 +++++++++----------
 src/base_encoding/base-encoding-internal.h |  1 +
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 0834698..1423a47 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -100,14 +100,14 @@ size_t
 decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const char basexx_cs[], pgfe_encode_t output[]) {
     pgfe_encode_t *op, ch, sig, o_unit[unit_size];
     const char *sp = basexx_cs;
-    size_t i, j;
+    size_t i, j, data_c;
     uint64_t u;
     const uint8_t mask = __mkmask(bit_size);
 
     u = 0;
     op = output;
     while (*sp) {
-        for (i = 0; *sp && i < chunk_count; sp++) {
+        for (i = data_c = 0; *sp && i < chunk_count; sp++) {
             ch = func(*sp);
             sig = ch & 0xC0;
 
@@ -118,6 +118,9 @@ decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const cha
             u = (u << bit_size) | (ch & mask);
 
             i++;
+            if (*sp != PADDING_CHAR) {
+                data_c++;
+            }
         }
 
         if (!*sp && i < chunk_count) {
@@ -128,16 +131,12 @@ decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const cha
             o_unit[j] = (pgfe_encode_t)((u >> (__bitsz * (unit_size - j - 1))) & 0xFF);
         }
 
-        memcpy(op, o_unit, unit_size);
-        op += unit_size;
+        // Only whole bytes made of data characters belong to the output
+        data_c = to_byte(data_c * bit_size);
+        memcpy(op, o_unit, data_c);
+        op += data_c;
     }
 
-    // Determine end of the output
-    op -= unit_size;
-    for (i = 0; i < unit_size && op[i] == o_unit[i] && op[i]; i++)
-        ;
-
-    op += i;
     *op = 0;
     return op - output;
 }
\ No newline at end of file
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index 23f926c..e900015 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -18,6 +18,7 @@
 extern "C" {
 #endif
 
+#define PADDING_CHAR ('=')
 #define PADDING_CODE (0x00)
 #define UNKNOWN_CODE (0xC0)
 
-- 
2.43.0


From 02d428be3c54b9fe0070c2b62733fec7664e6e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 07/33] fix: Blowfish::encrypt/decrypt allocated too little for
 the padded output

length + length % 8 is smaller than the length rounded up to a whole block
for length % 8 in 1..3, so the last block was written past the allocation.
---
 src/fishes/blowfish.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index a28e84b..7b738c8 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -25,7 +25,7 @@ Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
 Blowfish::~Blowfish() {}
 
 SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_encrypt(&ctx, seq, length, output.get());
@@ -33,7 +33,7 @@ SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
 }
 
 SequentialData Blowfish::decrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_decrypt(&ctx, seq, length, output.get());
-- 
2.43.0


From 3e0c100ffad5140f21b3d38e001eccf2d7fd19ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 08/33] fix: Blowfish(const std::string &) truncated keys at
 the first NUL

---
 src/fishes/blowfish.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index 7b738c8..dd59299 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -20,7 +20,7 @@ Blowfish::Blowfish(const pgfe_encode_t *key, size_t length) {
     pgfe_blowfish_init(&ctx, key, length);
 }
 
-Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
+Blowfish::Blowfish(const std::string &key) : Blowfish((const pgfe_encode_t *)key.c_str(), key.length()) {}
 
 Blowfish::~Blowfish() {}
 
-- 
2.43.0


From ba74b1172e39b8509bcc9391f82af03b9ef0aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 09/33] fix: pgfe_blowfish_init divided by zero for an empty
 key

---
 src/fishes/blowfish.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fishes/blowfish.c b/src/fishes/blowfish.c
index c04eb2a..08ec8af 100644
--- a/src/fishes/blowfish.c
+++ b/src/fishes/blowfish.c
@@ -173,7 +173,7 @@ void pgfe_blowfish_init(struct pgfe_blowfish_ctx *ctx, const pgfe_encode_t key[]
 
     for (i = j = 0; i < __PGFE_BF_Np2; i++) {
         data = 0;
-        for (k = 0; k < 4; k++) {
+        for (k = 0; key_length && k < 4; k++) {
             data = (data << 8) | key[j++];
             j %= key_length;
         }
-- 
2.43.0


From 62a1248b716dcf2dae7095027b271c327896c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 10/33] fix: HashEncoder::get_digest wrote past its buffer

The buffer was sized before the default SHAKE length was applied (0 bytes)
and, for the other algorithms, by the requested length although the whole
digest is written.  The byte count of a bit length that is no multiple of 8
was also wrong.  The buffer is on the heap, as its size is up to the caller.
---
 src/hashes/hash_encoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index e4c64a4..5d7407d 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -100,8 +100,6 @@ inline void HashEncoder::update(SequentialData &sd) {
 const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
     bool shake_flag = this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128 || this->cur_alg == SHAKE256 ||
                       this->cur_alg == RawSHAKE256;
-    uint64_t in_len = to_byte(bitlength) + bit_rem(bitlength);
-
     if (!bitlength) {
         if (this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128) {
             bitlength = 256;
@@ -111,8 +109,10 @@ const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
         }
     }
 
+    uint64_t in_len = to_byte(bitlength) + !!bit_rem(bitlength);
     size_t length = shake_flag ? in_len : in_len < digsz && bitlength ? in_len : digsz;
-    pgfe_encode_t seq[length];
+    std::unique_ptr<pgfe_encode_t[]> seq_buf = std::make_unique<pgfe_encode_t[]>(shake_flag ? length : digsz);
+    pgfe_encode_t *seq = seq_buf.get();
 
     if (shake_flag) {
         __PGFE_BATCH_SHAKE_CASES(DIGEST_FUNC_CALL_LIMIT)
-- 
2.43.0


From 57bcd501123ec0e860a3bcc2b4177c2f7e544e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 11/33] fix: pass sizes to encode_multiple as size_t

They were int constants read back with va_arg(vl, size_t).
---
 src/hmac/hmac.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmac/hmac.c b/src/hmac/hmac.c
index 3474c27..ee12e88 100644
--- a/src/hmac/hmac.c
+++ b/src/hmac/hmac.c
@@ -39,7 +39,8 @@
         pgfe_encode_t mid_hash[PGFE_##upper##_DIGEST_SIZE + 1];                                                        \
         pgfe_##name##_digest(&ctx->hash_ctx, mid_hash);                                                                \
         pgfe_##name##_encode_multiple(                                                                                 \
-            output, 2, ctx->k_o_pad, PGFE_##upper##_BLOCK_SIZE, mid_hash, PGFE_##upper##_DIGEST_SIZE                   \
+            output, (size_t)2, ctx->k_o_pad, (size_t)PGFE_##upper##_BLOCK_SIZE, mid_hash,                              \
+                (size_t)PGFE_##upper##_DIGEST_SIZE                                                                     \
         );                                                                                                             \
     }                                                                                                                  \
     inline void pgfe_hmac_##name(                                                                                      \
-- 
2.43.0


From 1fe28bca550d44d1634a0da1e7a2c43b913e7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 12/33] fix: hash HMAC keys longer than a block (RFC 2104)
 instead of truncating them

---
 src/hmac/hmac.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hmac/hmac.c b/src/hmac/hmac.c
index ee12e88..f50047b 100644
--- a/src/hmac/hmac.c
+++ b/src/hmac/hmac.c
@@ -21,6 +21,12 @@
     void pgfe_hmac_##name##_set_key(                                                                                   \
         struct pgfe_hmac_##name##_ctx *ctx, const pgfe_encode_t key[], size_t key_length                               \
     ) {                                                                                                                \
+        pgfe_encode_t key_h[PGFE_##upper##_DIGEST_SIZE];                                                               \
+        if (key_length > PGFE_##upper##_BLOCK_SIZE) {                                                                  \
+            pgfe_##name##_encode(key, key_length, key_h);                                                              \
+            key = key_h;                                                                                               \
+            key_length = PGFE_##upper##_DIGEST_SIZE;                                                                   \
+        }                                                                                                              \
         arrcpy(ctx->k_i_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         arrcpy(ctx->k_o_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         for (size_t i = 0; i < PGFE_##upper##_BLOCK_SIZE; i++) {                                                       \
-- 
2.43.0


From 5e7c87ae41dd014d20d284943aa8af45674eafeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 13/33] fix: pgfe_md5_update of zero bytes branched on
 uninitialised variables

---
 src/hashes/md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashes/md5.c b/src/hashes/md5.c
index f6ceaf8..4a90d52 100644
--- a/src/hashes/md5.c
+++ b/src/hashes/md5.c
@@ -30,7 +30,7 @@ void pgfe_md5_init(struct pgfe_md5_ctx *ctx) {
 }
 
 void pgfe_md5_update(struct pgfe_md5_ctx *ctx, const pgfe_encode_t input[], size_t length) {
-    if (!ctx || !input) return;
+    if (!ctx || !input || !length) return;
 
     size_t read_len, written_len, remainder, offset;
     const pgfe_encode_t *p;
-- 
2.43.0


From 342048e1fc89046b12007826176feabd23995780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 14/33] fix: SHA-1/SHA-2 update counted its input with an int

Inputs of 2^31 bytes or more overflowed the loop counter.
---
 src/hashes/sha2-backend.c | 2 +-
 src/hashes/templates.h    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index 57677c0..ead5014 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -195,7 +195,7 @@ void sha384n512_update(struct pgfe_sha512_ctx *ctx, const pgfe_encode_t input[],
     const pgfe_encode_t *inp = input;
     int corrupt_flag = 0, tmpflag;
     uint64_t tmp_low;
-    for (int i = 0; i < length && !corrupt_flag; i++) {
+    for (size_t i = 0; i < length && !corrupt_flag; i++) {
         ctx->block[ctx->index++] = *inp;
 
         tmp_low = ctx->len_low;
diff --git a/src/hashes/templates.h b/src/hashes/templates.h
index 7bbef2e..ed13253 100644
--- a/src/hashes/templates.h
+++ b/src/hashes/templates.h
@@ -53,7 +53,7 @@ extern "C" {
                                                                                                                        \
         pgfe_##name##_init(&ctx);                                                                                      \
                                                                                                                        \
-        for (int i = 0; i < input_c; i++) {                                                                            \
+        for (size_t i = 0; i < input_c; i++) {                                                                         \
             input = va_arg(vl, pgfe_encode_t *);                                                                       \
             input_s = va_arg(vl, size_t);                                                                              \
             if (!input) continue;                                                                                      \
@@ -107,7 +107,7 @@ extern "C" {
                                                                                                                        \
         pgfe_##name##_init(&ctx);                                                                                      \
                                                                                                                        \
-        for (int i = 0; i < input_c; i++) {                                                                            \
+        for (size_t i = 0; i < input_c; i++) {                                                                         \
             input = va_arg(vl, pgfe_encode_t *);                                                                       \
             input_s = va_arg(vl, size_t);                                                                              \
             if (!input) continue;                                                                                      \
@@ -141,7 +141,7 @@ extern "C" {
         const pgfe_encode_t *inp = input;                                                                              \
         int corrupt_flag = 0;                                                                                          \
         uint32_t tmp_low;                                                                                              \
-        for (int i = 0; i < length && !corrupt_flag; i++) {                                                            \
+        for (size_t i = 0; i < length && !corrupt_flag; i++) {                                                         \
             ctx->block[ctx->index++] = *inp;                                                                           \
                                                                                                                        \
             tmp_low = ctx->len_low;                                                                                    \
-- 
2.43.0


From 7e025c5105597e12feb4293e03f5819fddcbde6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 15/33] fix: Keccak absorb truncated the remaining length to 32
 bits

With a partially filled queue and 2^29 bytes or more to go, the truncated
length could overflow the queue size check or be 0 (endless loop).
---
 src/hashes/keccak-backend.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index de66566..979fac0 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -182,9 +182,9 @@ int keccak_absorb_b1600(struct pgfe_keccak_sponge_ctx *ctx, const pgfe_encode_t
             i += whole_blocks * ctx->rate;
         }
         else {
-            partial_block = (uint32_t)(bit_len - i);
-            if (partial_block + ctx->inqueue_bits > ctx->rate) {
-                partial_block = ctx->rate - ctx->inqueue_bits;
+            partial_block = ctx->rate - ctx->inqueue_bits;
+            if (partial_block > bit_len - i) {
+                partial_block = (uint32_t)(bit_len - i);
             }
 
             partial_byte = bit_rem(partial_block);
-- 
2.43.0


From 3a365ee45d9bca8cb413036a8b42c7217b956835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 16/33] fix: SHAKE output length was truncated to 32 bits

---
 include/libpgfe/hashes/sha3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/sha3.h b/include/libpgfe/hashes/sha3.h
index d35468a..70eef4a 100644
--- a/include/libpgfe/hashes/sha3.h
+++ b/include/libpgfe/hashes/sha3.h
@@ -27,7 +27,8 @@ struct pgfe_keccak_sponge_ctx
 {
     pgfe_keccak_bitcube_t state;                                    // Keccak sponge state array
     pgfe_encode_t data_queue[pgfe_to_byte(__PGFE_KECCAK_MAX_RATE)]; // Data queue
-    uint32_t rate, capacity, inqueue_bits, out_length;              // Rate, capacity, bits in queue, output bit length
+    uint32_t rate, capacity, inqueue_bits;                          // Rate, capacity, bits in queue
+    uint64_t out_length;                                            // Output bit length
     uint16_t nr;                                                    // Number of rounds (Usually 24)
     int squeezing;                                                  // Is squeezing
     unsigned int squeezable;                                        // Size of squeezable bits
-- 
2.43.0


From b46b8051578552699624e57f7de43ca99712a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 17/33] fix: SHAKE output whose bit length is no multiple of 8
 lost its last bits

---
 src/hashes/keccak-backend.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index 979fac0..666483b 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -211,6 +211,7 @@ int keccak_absorb_b1600(struct pgfe_keccak_sponge_ctx *ctx, const pgfe_encode_t
 int keccak_squeeze_b1600(struct pgfe_keccak_sponge_ctx *ctx, pgfe_encode_t output[]) {
     uint64_t i, bit_len = ctx->out_length;
     uint32_t partial_block;
+    uint8_t mask;
 
     if (ctx->ap_len && !ctx->ap_added) {
         keccak_absorb_b1600(ctx, &ctx->ap, ctx->ap_len);
@@ -236,6 +237,12 @@ int keccak_squeeze_b1600(struct pgfe_keccak_sponge_ctx *ctx, pgfe_encode_t outpu
         memcpy(output + to_byte(i), ctx->data_queue + to_byte(ctx->rate - ctx->squeezable), to_byte(partial_block));
         ctx->squeezable -= partial_block;
         i += partial_block;
+
+        if (bit_rem(i)) {
+            // Remaining bits of the last byte
+            mask = (1 << bit_rem(i)) - 1;
+            output[to_byte(i)] = ctx->data_queue[to_byte(ctx->rate - ctx->squeezable)] & mask;
+        }
     }
 
     return EXIT_SUCCESS;
-- 
2.43.0


From 6e843afec448a0fdcc985df7b81cb75607486e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 18/33] fix: HOTP read uninitialised or out-of-bounds bytes for
 MD5 and non-HMAC algorithms

---
 src/otp/hotp.c        | 5 +++--
 src/otp/otp-generic.h | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/otp/hotp.c b/src/otp/hotp.c
index cc89fcd..fcc591e 100644
--- a/src/otp/hotp.c
+++ b/src/otp/hotp.c
@@ -33,10 +33,11 @@ pgfe_otp_t pgfe_hotp_generic(
     uint8_t digit_c
 ) {
     static const size_t enc_s = 1, counter_len = 8;
-    int digest_size;
+    int digest_size = PGFE_SHA1_DIGEST_SIZE;
     __PGFE_BATCH_CASES(alg, SET_SIZE)
 
-    pgfe_encode_t counter_h[counter_len], out_hash[digest_size];
+    // Zero-extended, as truncation may reach 19 bytes (a MD5 digest has 16) and not every algorithm supports HMAC
+    pgfe_encode_t counter_h[8], out_hash[PGFE_OTP_MAX_HASH_SIZE] = {0};
     pgfe_otp_t result;
 
     memcpy(counter_h, &counter, counter_len);
diff --git a/src/otp/otp-generic.h b/src/otp/otp-generic.h
index c69896f..c9acb77 100644
--- a/src/otp/otp-generic.h
+++ b/src/otp/otp-generic.h
@@ -24,6 +24,8 @@ extern "C" {
 
 #define PGFE_OTP_DIGIT_MAX_LIMIT 10
 
+#define PGFE_OTP_MAX_HASH_SIZE 64
+
 // Performing dynamic truncation
 pgfe_otp_t dynamically_truncate(const pgfe_encode_t hash[], size_t length);
 
-- 
2.43.0


From d60bc4ada20bcde06484ef95453dbeb97dfa0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 19/33] fix: HOTP::generate used an uninitialised counter when
 none was set

---
 include/libpgfe/otp/hotp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libpgfe/otp/hotp.hpp b/include/libpgfe/otp/hotp.hpp
index b27b1f1..510b243 100644
--- a/include/libpgfe/otp/hotp.hpp
+++ b/include/libpgfe/otp/hotp.hpp
@@ -22,9 +22,9 @@ class HOTP : public AbstractOTP
 {
 private:
     std::unique_ptr<SequentialData> secret;
-    size_t digsz, blocksz;
+    size_t digsz = 0, blocksz = 0;
 
-    pgfe_otp_counter_t co;
+    pgfe_otp_counter_t co = 0;
 
     Base32 base32;
 
-- 
2.43.0


From 87ed145f470c5abd2dd9cbdb1e9496d538898ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 20/33] fix: digest_size()/block_size() returned garbage for
 algorithms without a size

---
 include/libpgfe/hashes/abstract_hash_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/abstract_hash_encoder.hpp b/include/libpgfe/hashes/abstract_hash_encoder.hpp
index cc14795..78bed01 100644
--- a/include/libpgfe/hashes/abstract_hash_encoder.hpp
+++ b/include/libpgfe/hashes/abstract_hash_encoder.hpp
@@ -25,7 +25,7 @@ namespace libpgfe {
 class AbstractHashEncoder : public AbstractEncoder, public AlgorithmSelectable
 {
 protected:
-    size_t digsz, blocksz;
+    size_t digsz = 0, blocksz = 0;
 
 public:
     size_t digest_size() const {
-- 
2.43.0


From f131bf9d198bcda6f18a86f86cd35c5c2a3a5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 21/33] fix: TOTP kept using a stale counter

The counter was only recomputed when the remaining time of the previous
window ran out, so changes of interval or initial time, and a clock set
back, were ignored.
---
 src/otp/totp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 3d23e64..2ca0f81 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -70,11 +70,11 @@ time_t TOTP::remaining_time() const {
 }
 
 pgfe_otp_t TOTP::generate(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    update_counter();
     return this->HOTP::generate(digit_count);
 }
 
 std::string TOTP::generate_str(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    update_counter();
     return this->HOTP::generate_str(digit_count);
 }
-- 
2.43.0


From c578582d8e6582be164642a86884c0b57604fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 22/33] fix: TOTP with an interval of 0 divided by zero

---
 src/otp/totp-internal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/otp/totp-internal.c b/src/otp/totp-internal.c
index 8140541..856123d 100644
--- a/src/otp/totp-internal.c
+++ b/src/otp/totp-internal.c
@@ -4,6 +4,10 @@ pgfe_otp_counter_t calc_periodic_counter(
     time_t realtime, pgfe_totp_interval_t interval, time_t initial_time, pgfe_totp_delta_t *delta_out
 ) {
     time_t time_offset = realtime - initial_time;
+    if (!interval) {
+        if (delta_out) *delta_out = 0;
+        return 0;
+    }
     if (delta_out) {
         *delta_out = interval - time_offset % interval;
     }
-- 
2.43.0


From 70a9735da17a579c90362b14dbc88193cda4c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 23/33] fix: base encoders kept their mutex locked when an
 allocation threw

---
 src/base_encoding/abstract_base_encoding.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/base_encoding/abstract_base_encoding.cpp b/src/base_encoding/abstract_base_encoding.cpp
index a03a2dc..95e586e 100644
--- a/src/base_encoding/abstract_base_encoding.cpp
+++ b/src/base_encoding/abstract_base_encoding.cpp
@@ -23,7 +23,7 @@ void AbstractBaseEncoding::init() {
 std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t length) {
     size_t sz = (size_t)ceil(length * ((double)to_bit(sizeof(pgfe_encode_t)) / (double)bitsz) * PGFE_SPACE_MULTIPLE);
 
-    enc_mutex.lock();
+    std::lock_guard<std::mutex> lock(enc_mutex);
     if (encsz <= sz) {
         en_cache = std::make_unique<char[]>(sz + 1);
         encsz = sz;
@@ -34,7 +34,6 @@ std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t
     en_cache[sz] = 0;
 
     std::string str(p);
-    enc_mutex.unlock();
     return str;
 }
 
@@ -54,7 +53,7 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     size_t sz =
         (size_t)ceil(strlen(base_cs) * ((double)bitsz / (double)to_bit(sizeof(pgfe_encode_t))) * PGFE_SPACE_MULTIPLE);
 
-    dec_mutex.lock();
+    std::lock_guard<std::mutex> lock(dec_mutex);
     if (decsz <= sz) {
         de_cache = std::make_unique<pgfe_encode_t[]>(sz);
         decsz = sz;
@@ -65,7 +64,6 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     de_cache[sz] = 0;
 
     SequentialData sd(p, sz);
-    dec_mutex.unlock();
     return sd;
 }
 
-- 
2.43.0


From edc31bdb15d171a1ccbe7a8ba1cf9541c9358822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 24/33] fix: SequentialData::trim*() did nothing

The set of characters to trim, {0}, was passed as a C string and so was
always empty.  The member functions were also declared inline in the .cpp
file, which leaves no definition to link with.
---
 src/core/sequential_data.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 69d8c60..b3571a7 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -66,15 +66,15 @@ SequentialData SequentialData::trim_right() {
     return sd;
 }
 
-inline void SequentialData::trim_() {
+void SequentialData::trim_() {
     trim_left_();
     trim_right_();
 }
 
-inline void SequentialData::trim_left_() {
-    erase(0, find_first_not_of(ws));
+void SequentialData::trim_left_() {
+    erase(0, find_first_not_of(ws, 0, sizeof(ws)));
 }
 
-inline void SequentialData::trim_right_() {
-    erase(find_last_not_of(ws) + 1, length());
+void SequentialData::trim_right_() {
+    erase(find_last_not_of(ws, npos, sizeof(ws)) + 1, length());
 }
\ No newline at end of file
-- 
2.43.0


From fe73eb064a40eec3fa67d5b99880c3ba402145bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 25/33] fix: pgfe_hex_string_to_hash read outside of short
 strings and miscounted digits

hash_s[1] and sp[-1] were read for "" and "0x", and separators were counted
as digits when deciding whether the number of digits is odd.
---
 src/core/utils.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/utils.c b/src/core/utils.c
index 7fa55f6..ce1b2e8 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -30,20 +30,19 @@ size_t pgfe_hex_string_to_hash(const char hash_s[], pgfe_encode_t hash_out[]) {
     short pos;
     size_t hash_str_len = strlen(hash_s);
     pgfe_encode_t hexu = 0, tmp_o, *op;
-    char *sp = (char *)hash_s, tpc;
+    const char *sp = hash_s, *dp;
 
-    tpc = hash_s[1];
-    if (hash_str_len >= 2 && (tpc == 'x' || tpc == 'X')) {
+    if (hash_str_len >= 2 && (hash_s[1] == 'x' || hash_s[1] == 'X')) {
         sp += 2;
-        hash_str_len -= 2;
     }
 
-    tpc = sp[hash_str_len - 1];
-    if (tpc == 'h' || tpc == 'H') {
-        hash_str_len--;
+    // An odd number of digits makes the first one a byte of its own
+    for (pos = 0, dp = sp; *dp; dp++) {
+        ch2hex(*dp, &tmp_o);
+        pos ^= tmp_o != PGFE_HEX_UNKNOWN_CHAR;
     }
 
-    for (op = hash_out, pos = hash_str_len % 2; *sp; sp++) {
+    for (op = hash_out; *sp; sp++) {
         ch2hex(*sp, &tmp_o);
 
         if (tmp_o == PGFE_HEX_UNKNOWN_CHAR) {
-- 
2.43.0


From cd0002d0af18114565075fde981d6f96669b165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 26/33] fix: HMACEncoder::reset() did nothing

It was the empty default of AbstractEncoder; it now starts a new message
under the same key, as HashEncoder::reset() does without a key.
---
 include/libpgfe/hmac/hmac_encoder.hpp |  2 ++
 src/hmac/hmac_encoder.cpp             | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/libpgfe/hmac/hmac_encoder.hpp b/include/libpgfe/hmac/hmac_encoder.hpp
index 40ceaf1..65cb5c6 100644
--- a/include/libpgfe/hmac/hmac_encoder.hpp
+++ b/include/libpgfe/hmac/hmac_encoder.hpp
@@ -56,6 +56,8 @@ public:
     HMACEncoder(pgfe_algorithm_choice algorithm, std::string &cpp_s);
     HMACEncoder(pgfe_algorithm_choice algorithm, SequentialData &sd);
 
+    void reset();
+
     void update(const pgfe_encode_t sequence[], size_t length);
     void update(const char cs[]);
     void update(std::string &cpp_s);
diff --git a/src/hmac/hmac_encoder.cpp b/src/hmac/hmac_encoder.cpp
index 5276ecd..214449f 100644
--- a/src/hmac/hmac_encoder.cpp
+++ b/src/hmac/hmac_encoder.cpp
@@ -33,6 +33,12 @@
         pgfe_hmac_##name##_update(&ctx.name, sequence, length);                                                        \
         break
 
+#define __PGFE_HMAC_RESET_CASE(alg, name)                                                                              \
+    case alg:                                                                                                          \
+        pgfe_##name##_init(&ctx.name.hash_ctx);                                                                        \
+        pgfe_##name##_update(&ctx.name.hash_ctx, ctx.name.k_i_pad, PGFE_##alg##_BLOCK_SIZE);                           \
+        break
+
 using namespace libpgfe;
 
 HMACEncoder::HMACEncoder(pgfe_algorithm_choice algorithm, const pgfe_encode_t sequence[], size_t length) {
@@ -77,6 +83,10 @@ void HMACEncoder::set_key(SequentialData &sd) {
     set_key(sd.to_pgfe_seq(sz), sz);
 }
 
+void HMACEncoder::reset() {
+    __PGFE_BATCH_CASES_SP(cur_alg, HMAC_RESET)
+}
+
 void HMACEncoder::update(const pgfe_encode_t sequence[], size_t length) {
     __PGFE_BATCH_CASES_SP(cur_alg, HMAC_ADD_DATA)
 }
-- 
2.43.0


From d26a67a718d2c3357f3e9185d2c64781c503c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 27/33] fix: hex conversions put buffers of the caller's length
 on the stack

---
 src/core/sequential_data.cpp | 5 ++---
 src/core/utils.c             | 8 +++++---
 src/core/utils.cpp           | 8 ++++----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index b3571a7..0efeaf7 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -33,9 +33,8 @@ std::string SequentialData::to_str(bool auto_hex) const {
 
 std::string SequentialData::hex_str() const {
     size_t sz = this->length();
-    char hex_str[sz * 2 + 1];
-    pgfe_hash_to_hex_string(this->c_str(), sz, hex_str);
-    std::string s(hex_str);
+    std::string s(sz * 2, '0');
+    pgfe_hash_to_hex_string(this->c_str(), sz, &s[0]);
     return s;
 }
 
diff --git a/src/core/utils.c b/src/core/utils.c
index ce1b2e8..fd0a8cf 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -8,6 +8,7 @@
 #include "libpgfe/utils.h"
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "./generic-internal.h"
@@ -101,10 +102,11 @@ inline size_t pgfe_hash_string_clean_(char hash_s[]) {
 
 size_t pgfe_hash_length(const char hash_s[]) {
     size_t len = strlen(hash_s);
-    char s[len + 1];
+    char *s = malloc(len + 1);
+    if (!s) return 0;
 
-    pgfe_hash_string_clean(hash_s, s);
-    len = strlen(s);
+    len = pgfe_hash_string_clean(hash_s, s);
+    free(s);
 
     return len / 2 + len % 2;
 }
diff --git a/src/core/utils.cpp b/src/core/utils.cpp
index 9d24d9e..5513da5 100644
--- a/src/core/utils.cpp
+++ b/src/core/utils.cpp
@@ -8,6 +8,7 @@
 #include "libpgfe/utils.hpp"
 
 #include <cstring>
+#include <memory>
 
 #include "libpgfe/utils.h"
 
@@ -28,12 +29,11 @@ SequentialData *to_sequential_data(std::string &cpp_s) {
 
 SequentialData *sequential_data::from_hex_string(const char *hex_cs) {
     size_t s_sz = strlen(hex_cs), sz = s_sz / 2 + s_sz % 2;
-    pgfe_encode_t h_out[sz + 1];
+    auto h_out = std::make_unique<pgfe_encode_t[]>(sz + 1);
 
-    sz = pgfe_hex_string_to_hash(hex_cs, h_out);
-    h_out[sz] = 0;
+    sz = pgfe_hex_string_to_hash(hex_cs, h_out.get());
 
-    return to_sequential_data(h_out, sz);
+    return to_sequential_data(h_out.get(), sz);
 }
 
 SequentialData *sequential_data::from_hex_string(std::string &hex_cpps) {
-- 
2.43.0


From 5b7cf531a9200acd872788db2d5305f2a9a8d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 28/33] fix: give the polymorphic base classes virtual
 destructors

Deleting e.g. a HashEncoder through AbstractEncoder * skipped the
destructor that frees its context.
---
 include/libpgfe/abstract_encoder.hpp                     | 2 ++
 include/libpgfe/abstract_symmetric_crypter.hpp           | 2 ++
 include/libpgfe/algorithm_selectable.hpp                 | 2 ++
 include/libpgfe/base_encoding/abstract_base_encoding.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/libpgfe/abstract_encoder.hpp b/include/libpgfe/abstract_encoder.hpp
index 766b137..b37b838 100644
--- a/include/libpgfe/abstract_encoder.hpp
+++ b/include/libpgfe/abstract_encoder.hpp
@@ -23,6 +23,8 @@ namespace libpgfe {
 class AbstractEncoder
 {
 public:
+    virtual ~AbstractEncoder() = default;
+
     virtual void reset() {}
 
     virtual void update(const pgfe_encode_t sequence[], size_t length) {}
diff --git a/include/libpgfe/abstract_symmetric_crypter.hpp b/include/libpgfe/abstract_symmetric_crypter.hpp
index 7de5e7d..535e5fd 100644
--- a/include/libpgfe/abstract_symmetric_crypter.hpp
+++ b/include/libpgfe/abstract_symmetric_crypter.hpp
@@ -20,6 +20,8 @@ namespace libpgfe {
 class AbstractSymmetricCrypter
 {
 public:
+    virtual ~AbstractSymmetricCrypter() = default;
+
     SequentialData encrypt(const std::string &);
     virtual SequentialData encrypt(const pgfe_encode_t *, size_t) {
         return SequentialData();
diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index 286f6ae..36d4ce3 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -28,6 +28,8 @@ protected:
     void select_algorithm(pgfe_algorithm_choice choice);
 
 public:
+    virtual ~AlgorithmSelectable() = default;
+
     pgfe_algorithm_choice algorithm() const;
 };
 } // namespace libpgfe
diff --git a/include/libpgfe/base_encoding/abstract_base_encoding.hpp b/include/libpgfe/base_encoding/abstract_base_encoding.hpp
index 4aef6a6..34ec753 100644
--- a/include/libpgfe/base_encoding/abstract_base_encoding.hpp
+++ b/include/libpgfe/base_encoding/abstract_base_encoding.hpp
@@ -49,6 +49,8 @@ protected:
     void init();
 
 public:
+    virtual ~AbstractBaseEncoding() = default;
+
     std::string encode(const pgfe_encode_t *, size_t);
     std::string encode(const char *);
     std::string encode(const std::string &);
-- 
2.43.0


From f9e2802523fccbfb08d06e1e9e737285314a6527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 29/33] fix: SHA-1 padding left message bytes in the final
 block

When the padding byte falls into the last 8 bytes of a block, the block that
carries the length must be zero filled; it kept the previous block's contents,
so digests of messages of 56..63 (mod 64) bytes were wrong.
---
 src/hashes/sha1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashes/sha1.c b/src/hashes/sha1.c
index bdb7758..3a37270 100644
--- a/src/hashes/sha1.c
+++ b/src/hashes/sha1.c
@@ -96,7 +96,8 @@ static void sha1_padding(struct pgfe_sha1_ctx *ctx) {
         ctx->index = PGFE_SHA1_BLOCK_SIZE;
         sha1_process_block(ctx);
     }
-    else if (ctx->index < 56) {
+
+    if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
         ctx->index = 56;
     }
-- 
2.43.0


From 453e7cdac7369d90fe7162b4f371c2f96c8dfa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 30/33] fix: SHA-224/256 padding left message bytes in the
 final block

Same as for SHA-1: digests of messages of 56..63 (mod 64) bytes were wrong.
---
 src/hashes/sha2-backend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index ead5014..0b0ecdc 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -83,7 +83,8 @@ void sha224n256_padding(struct pgfe_sha256_ctx *ctx) {
         ctx->index = PGFE_SHA256_BLOCK_SIZE;
         sha256_process_block(ctx);
     }
-    else if (ctx->index < 56) {
+
+    if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
         ctx->index = 56;
     }
-- 
2.43.0


From fe47daedc7ed22bf2ae678a167d93b4ab1287e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 31/33] fix: SHA-384/512 padding left message bytes in the
 final block

Digests of messages of 112..127 (mod 128) bytes were wrong.
---
 src/hashes/sha2-backend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index 0b0ecdc..423f970 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -224,7 +224,8 @@ void sha384n512_padding(struct pgfe_sha512_ctx *ctx, pgfe_encode_t padding_byte)
         ctx->index = PGFE_SHA512_BLOCK_SIZE;
         sha384n512_process_block(ctx);
     }
-    else if (ctx->index < 112) {
+
+    if (ctx->index < 112) {
         memset(&ctx->block[ctx->index], 0, 112 - ctx->index);
         ctx->index = 112;
     }
-- 
2.43.0


From 94b0a940b4f8432932ce19cc945fdd76f16a202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 32/33] fix: clear the released context pointer in HashEncoder

When allocating the new context fails, the destructor released the old one a
second time.
---
 src/hashes/hash_encoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index 5d7407d..1abc270 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -51,6 +51,7 @@ void HashEncoder::destroy_context() {
     if (!ctx) return;
 
     __PGFE_BATCH_CASES(cur_alg, CTX_DELETE)
+    ctx = nullptr;
 }
 
 void HashEncoder::before_change_alg() {
-- 
2.43.0


From a3bae3c6df5ca628510bd9a0e484674f217f06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 33/33] fix: do not read a length in the same call that sets it

The order in which arguments are evaluated is unspecified: compiled with
GCC the length was read before to_pgfe_seq() had written it.
---
 include/libpgfe/abstract_encoder.hpp | 3 +--
 src/hmac/hmac_encoder.cpp            | 3 +--
 src/otp/abstract_otp.cpp             | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/libpgfe/abstract_encoder.hpp b/include/libpgfe/abstract_encoder.hpp
index b37b838..9b8bb1b 100644
--- a/include/libpgfe/abstract_encoder.hpp
+++ b/include/libpgfe/abstract_encoder.hpp
@@ -36,8 +36,7 @@ public:
         return update((const pgfe_encode_t *)cpp_s.c_str(), cpp_s.length());
     }
     virtual void update(SequentialData &sd) {
-        size_t sz;
-        update(sd.to_pgfe_seq(sz), sz);
+        update(sd.to_pgfe_seq(), sd.length());
     }
 
     virtual const SequentialData *get_digest() {
diff --git a/src/hmac/hmac_encoder.cpp b/src/hmac/hmac_encoder.cpp
index 214449f..0f7f0c6 100644
--- a/src/hmac/hmac_encoder.cpp
+++ b/src/hmac/hmac_encoder.cpp
@@ -79,8 +79,7 @@ void HMACEncoder::set_key(std::string &cpp_s) {
 }
 
 void HMACEncoder::set_key(SequentialData &sd) {
-    size_t sz;
-    set_key(sd.to_pgfe_seq(sz), sz);
+    set_key(sd.to_pgfe_seq(), sd.length());
 }
 
 void HMACEncoder::reset() {
diff --git a/src/otp/abstract_otp.cpp b/src/otp/abstract_otp.cpp
index 036d298..72be17d 100644
--- a/src/otp/abstract_otp.cpp
+++ b/src/otp/abstract_otp.cpp
@@ -20,8 +20,7 @@ void AbstractOTP::set_secret(const std::string &cpp_s) {
 }
 
 void AbstractOTP::set_secret(const SequentialData &sd) {
-    size_t sz;
-    set_secret(sd.to_pgfe_seq(sz), sz);
+    set_secret(sd.to_pgfe_seq(), sd.length());
 }
 
 std::string AbstractOTP::generate_str(uint8_t digit_count) const {
-- 
2.43.0

