/* for replaying counterexamples of the Cortex-M0 configuration on the host: the permutation, which is assembly on the target */
#include <stdint.h>

static const uint64_t RC[24] = {
    0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009,
    0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008};

static uint64_t rol(uint64_t x, int n) { return n ? x << n | x >> (64 - n) : x; }

static void keccak(uint64_t *a)
{
    int r, x, y, t;
    for (r = 0; r < 24; r++) {
        uint64_t c[5], b[25];
        int rx = 1, ry = 0;
        for (x = 0; x < 5; x++)
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (x = 0; x < 25; x++)
            a[x] ^= c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
        b[0] = a[0];
        for (t = 0; t < 24; t++) {
            int nx = ry, ny = (2 * rx + 3 * ry) % 5;
            b[nx + 5 * ny] = rol(a[rx + 5 * ry], ((t + 1) * (t + 2) / 2) % 64);
            rx = nx;
            ry = ny;
        }
        for (y = 0; y < 25; y += 5)
            for (x = 0; x < 5; x++)
                a[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & b[y + (x + 2) % 5]);
        a[0] ^= RC[r];
    }
}

void KeccakF1600_StatePermute(uint64_t *s) { keccak(s); }
