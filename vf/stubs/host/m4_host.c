/* for replaying counterexamples of the Cortex-M4 configurations on the host: SHAKE-128 and SHA-3 (pqm4 supplies them on
   the target) and plain C equivalents of the assembly routines (a deviation inside those is replayed by executing the
   assembled object code in vf/arm.py instead) */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "fips202.h"

static const uint64_t RC[24] = {
    0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009,
    0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008};

static uint64_t rol(uint64_t x, int n) { return n ? x << n | x >> (64 - n) : x; }

static void keccak(uint64_t *a)
{
    int r, x, y, t;
    for (r = 0; r < 24; r++) {
        uint64_t c[5], b[25];
        int rx = 1, ry = 0;
        for (x = 0; x < 5; x++)
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (x = 0; x < 25; x++)
            a[x] ^= c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
        b[0] = a[0];
        for (t = 0; t < 24; t++) {
            int nx = ry, ny = (2 * rx + 3 * ry) % 5;
            b[nx + 5 * ny] = rol(a[rx + 5 * ry], ((t + 1) * (t + 2) / 2) % 64);
            rx = nx;
            ry = ny;
        }
        for (y = 0; y < 25; y += 5)
            for (x = 0; x < 5; x++)
                a[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & b[y + (x + 2) % 5]);
        a[0] ^= RC[r];
    }
}

static void absorb(uint64_t *s, unsigned rate, const uint8_t *in, size_t n, uint8_t dom)
{
    size_t i, k = 0;
    memset(s, 0, 200);
    for (i = 0; i < n; i++) {
        ((uint8_t *)s)[k++] ^= in[i];
        if (k == rate) {
            keccak(s);
            k = 0;
        }
    }
    ((uint8_t *)s)[k] ^= dom;
    ((uint8_t *)s)[rate - 1] ^= 0x80;
}

static void squeeze(uint64_t *s, uint64_t *left, unsigned rate, uint8_t *out, size_t n)
{
    while (n--) {
        if (!*left) {
            keccak(s);
            *left = rate;
        }
        *out++ = ((uint8_t *)s)[rate - (*left)--];
    }
}

static void once(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned rate, uint8_t dom)
{
    uint64_t s[25], left = 0;
    absorb(s, rate, in, inlen, dom);
    squeeze(s, &left, rate, out, outlen);
}

void shake128(uint8_t *o, size_t on, const uint8_t *i, size_t n) { once(o, on, i, n, 168, 0x1F); }
void sha3_256(uint8_t *o, const uint8_t *i, size_t n) { once(o, 32, i, n, 136, 6); }
void sha3_512(uint8_t *o, const uint8_t *i, size_t n) { once(o, 64, i, n, 72, 6); }

void shake128_inc_init(shake128incctx *c) { memset(c->ctx, 0, sizeof c->ctx); }
void shake128_inc_ctx_release(shake128incctx *c) { (void)c; }
void shake128_inc_absorb(shake128incctx *c, const uint8_t *in, size_t n)
{
    while (n--) {
        ((uint8_t *)c->ctx)[c->ctx[25]++] ^= *in++;
        if (c->ctx[25] == 168) {
            keccak(c->ctx);
            c->ctx[25] = 0;
        }
    }
}
void shake128_inc_finalize(shake128incctx *c)
{
    ((uint8_t *)c->ctx)[c->ctx[25]] ^= 0x1F;
    ((uint8_t *)c->ctx)[167] ^= 0x80;
    c->ctx[25] = 0;
}
void shake128_inc_squeeze(uint8_t *out, size_t n, shake128incctx *c) { squeeze(c->ctx, &c->ctx[25], 168, out, n); }

static void negacyclic(const uint16_t *a, const uint16_t *b, uint16_t *c, int n)
{
    int i, j;
    for (i = 0; i < n; i++)
        for (j = 0; j < n; j++) {
            uint16_t p = (uint16_t)((uint32_t)a[i] * b[j]);
            if (i + j < n)
                c[i + j] += p;
            else
                c[i + j - n] -= p;
        }
}

void toom_cook_4way_mem_asm(const uint16_t *a, const uint16_t *b, uint16_t *res) { negacyclic(a, b, res, 256); }

void kara_strd_mem_asm(uint16_t *a, uint16_t *b, uint16_t *c, uint16_t *tmp)
{
    uint16_t r[64] = {0};
    (void)tmp;
    negacyclic(a, b, r, 64);
    memcpy(c, r, sizeof r);
}
