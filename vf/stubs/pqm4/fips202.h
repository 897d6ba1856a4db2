/* the part of pqm4's fips202.h that the Cortex-M4 sources use (pqm4 itself is not in the repository) */
#ifndef FIPS202_H
#define FIPS202_H
#include <stddef.h>
#include <stdint.h>
typedef struct {
    uint64_t ctx[26];
} shake128incctx;
void shake128_inc_init(shake128incctx *state);
void shake128_inc_absorb(shake128incctx *state, const uint8_t *input, size_t inlen);
void shake128_inc_finalize(shake128incctx *state);
void shake128_inc_squeeze(uint8_t *output, size_t outlen, shake128incctx *state);
void shake128_inc_ctx_release(shake128incctx *state);
void shake128(uint8_t *output, size_t outlen, const uint8_t *input, size_t inlen);
void sha3_256(uint8_t *output, const uint8_t *input, size_t inlen);
void sha3_512(uint8_t *output, const uint8_t *input, size_t inlen);
#endif
