/* The generator's state made explicit, so that a contract can speak about it. */
#include <string.h>
#include "rng.h"

extern AES256_CTR_DRBG_struct DRBG_ctx;

void vf_seed(unsigned char *seed, unsigned char *pers, unsigned char *key, unsigned char *v, int *count)
{
    randombytes_init(seed, pers, 256);
    memcpy(key, DRBG_ctx.Key, 32);
    memcpy(v, DRBG_ctx.V, 16);
    *count = DRBG_ctx.reseed_counter;
}

void vf_seed0(unsigned char *seed, unsigned char *key, unsigned char *v, int *count)
{
    randombytes_init(seed, 0, 256);
    memcpy(key, DRBG_ctx.Key, 32);
    memcpy(v, DRBG_ctx.V, 16);
    *count = DRBG_ctx.reseed_counter;
}

int vf_random(unsigned char *key, unsigned char *v, int *count, unsigned char *x, unsigned long long n)
{
    int r;
    memcpy(DRBG_ctx.Key, key, 32);
    memcpy(DRBG_ctx.V, v, 16);
    DRBG_ctx.reseed_counter = *count;
    r = randombytes(x, n);
    memcpy(key, DRBG_ctx.Key, 32);
    memcpy(v, DRBG_ctx.V, 16);
    *count = DRBG_ctx.reseed_counter;
    return r;
}

void vf_update(unsigned char *data, unsigned char *key, unsigned char *v)
{
    AES256_CTR_DRBG_Update(data, key, v);
}

void vf_update0(unsigned char *key, unsigned char *v)
{
    AES256_CTR_DRBG_Update(0, key, v);
}
