/* Histories: requests one after the other, from any state of the generator, also across a new seed. */
#include <string.h>
#include "rng.h"

extern AES256_CTR_DRBG_struct DRBG_ctx;

void vf_hist(unsigned char *key, unsigned char *v, unsigned char *x, unsigned long long nx, unsigned char *y, unsigned long long ny, unsigned char *z, unsigned long long nz)
{
    memcpy(DRBG_ctx.Key, key, 32);
    memcpy(DRBG_ctx.V, v, 16);
    DRBG_ctx.reseed_counter = 1;
    randombytes(x, nx);
    randombytes(y, ny);
    randombytes(z, nz);
}

void vf_hist_reseed(unsigned char *key, unsigned char *v, unsigned char *seed, unsigned char *pers, unsigned char *x, unsigned long long nx, unsigned char *y, unsigned long long ny)
{
    memcpy(DRBG_ctx.Key, key, 32);
    memcpy(DRBG_ctx.V, v, 16);
    DRBG_ctx.reseed_counter = 1;
    randombytes(x, nx);
    randombytes_init(seed, pers, 256);
    randombytes(y, ny);
}
