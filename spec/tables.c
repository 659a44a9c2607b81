#include "common.h"
#define T(i, n) {i >= 12, sizeof(struct pgfe_##n##_ctx), 0, 0, (f_init *)pgfe_##n##_init, (f_update *)pgfe_##n##_update, (void *)pgfe_##n##_digest, (void *)pgfe_##n##_encode, (void *)pgfe_##n##_encode_f, (void *)pgfe_##n##_encode_default, (void *)pgfe_##n##_encode_multiple},
const struct halg H[16] = {EACH_HASH(T)};
#define U(i, n) {sizeof(struct pgfe_hmac_##n##_ctx), (f_init *)pgfe_hmac_##n##_init, (f_setkey *)pgfe_hmac_##n##_set_key, (f_update *)pgfe_hmac_##n##_update, (f_digest *)pgfe_hmac_##n##_digest, pgfe_hmac_##n},
const struct malg MA[12] = {EACH_MAC(U)};
const int ALG[16] = {MD5, SHA1, SHA224, SHA256, SHA384, SHA512, SHA512_224, SHA512_256, SHA3_224, SHA3_256, SHA3_384, SHA3_512, RawSHAKE128, SHAKE128, RawSHAKE256, SHAKE256};
