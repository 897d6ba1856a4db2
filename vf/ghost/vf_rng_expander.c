/* The seed expander with its context made explicit. */
#include <string.h>
#include "rng.h"

int vf_expand_init(unsigned char *seed, unsigned char *div, unsigned long *maxlen, unsigned char *buffer, int *pos, unsigned long *left, unsigned char *key, unsigned char *ctr)
{
    AES_XOF_struct c;
    int r;
    memcpy(c.buffer, buffer, 16);
    c.buffer_pos = *pos;
    c.length_remaining = *left;
    memcpy(c.key, key, 32);
    memcpy(c.ctr, ctr, 16);
    r = seedexpander_init(&c, seed, div, *maxlen);
    memcpy(buffer, c.buffer, 16);
    *pos = c.buffer_pos;
    *left = c.length_remaining;
    memcpy(key, c.key, 32);
    memcpy(ctr, c.ctr, 16);
    return r;
}

int vf_expand(unsigned char *buffer, int pos, int *newpos, unsigned long *left, unsigned char *key, unsigned char *ctr, unsigned char *x, unsigned long n)
{
    AES_XOF_struct c;
    int r;
    memcpy(c.buffer, buffer, 16);
    c.buffer_pos = pos;
    c.length_remaining = *left;
    memcpy(c.key, key, 32);
    memcpy(c.ctr, ctr, 16);
    r = seedexpander(&c, x, n);
    memcpy(buffer, c.buffer, 16);
    *newpos = c.buffer_pos;
    *left = c.length_remaining;
    memcpy(key, c.key, 32);
    memcpy(ctr, c.ctr, 16);
    return r;
}

int vf_expand_null(unsigned char *buffer, int pos, unsigned long *left, unsigned char *key, unsigned char *ctr, unsigned long n)
{
    AES_XOF_struct c;
    int r;
    memcpy(c.buffer, buffer, 16);
    c.buffer_pos = pos;
    c.length_remaining = *left;
    memcpy(c.key, key, 32);
    memcpy(c.ctr, ctr, 16);
    r = seedexpander(&c, 0, n);
    memcpy(buffer, c.buffer, 16);
    *left = c.length_remaining;
    memcpy(key, c.key, 32);
    memcpy(ctr, c.ctr, 16);
    return r;
}
