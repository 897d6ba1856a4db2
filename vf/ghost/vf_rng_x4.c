/* The four further generators of the four-way variant. */
#include <string.h>
#include "rng.h"

extern AES256_CTR_DRBG_struct DRBG_ctx0, DRBG_ctx1, DRBG_ctx2, DRBG_ctx3;

#define LANE(I) \
int vf_random##I(unsigned char *key, unsigned char *v, int *count, unsigned char *x, unsigned long long n) \
{ \
    int r; \
    memcpy(DRBG_ctx##I.Key, key, 32); \
    memcpy(DRBG_ctx##I.V, v, 16); \
    DRBG_ctx##I.reseed_counter = *count; \
    r = randombytes##I(x, n); \
    memcpy(key, DRBG_ctx##I.Key, 32); \
    memcpy(v, DRBG_ctx##I.V, 16); \
    *count = DRBG_ctx##I.reseed_counter; \
    return r; \
} \
void vf_seed_lane##I(unsigned char *seed, unsigned char *pers, unsigned char *key, unsigned char *v, int *count) \
{ \
    randombytes_init(seed, pers, 256); \
    memcpy(key, DRBG_ctx##I.Key, 32); \
    memcpy(v, DRBG_ctx##I.V, 16); \
    *count = DRBG_ctx##I.reseed_counter; \
}

LANE(0)
LANE(1)
LANE(2)
LANE(3)
