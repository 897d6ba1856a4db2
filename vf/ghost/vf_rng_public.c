/* The first request after seeding, through the public interface alone. */
#include "rng.h"

void vf_hist_seed(unsigned char *seed, unsigned char *pers, unsigned char *x, unsigned long long nx)
{
    randombytes_init(seed, pers, 256);
    randombytes(x, nx);
}
