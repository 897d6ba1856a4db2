"""Definitions of the planted bugs (seed.py make writes seeded/ from them)."""

PRE = r'''#!/bin/bash
# cwd: the repository.  Builds a private copy of one implementation with the demonstration and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
'''

DEMO = {
 'ref': PRE + r'''
L=3; @ARGS@
cp -r Reference_Implementation_KEM/. "$d" || exit 2
sed -i -E 's#^[ \t/]*\#define[ \t]+SABER_L[ \t]+[0-9].*##; s#^(\#define PARAMS_H)#\1\n\#define SABER_L '$L'#' "$d/SABER_params.h"
cd "$d" && gcc -O2 -march=native -w -fcommon -g -Wl,-z,muldefs @CF@ -I. -o demo "$here/demo.c" $(ls *.c | grep -v -e '^rng' -e demo) || exit 2
timeout 250 @RUN@
''',
 'avx': PRE + r'''
T=Saber; @ARGS@
cp -r AVX_Implementation_KEM/. "$d" || exit 2
sed -i -E 's#^[ \t/]*\#define[ \t]+SABER_TYPE[ \t]+.*##; s#^(\#define api_h)#\1\n\#define SABER_TYPE '$T'#' "$d/api.h"
cd "$d" && gcc -O2 -march=native -w -fcommon -g -Wl,-z,muldefs @CF@ -I. -o demo "$here/demo.c" $(ls *.c | grep -v -e '^rng' -e demo) || exit 2
timeout 250 @RUN@
''',
 'uref': PRE + r'''
L=3; US='#define uSaber'; NS=''; @ARGS@
cp -r Variants/uSaber-90s/ref/. "$d" || exit 2
sed -i -E 's#^[ \t/]*\#define[ \t]+SABER_L[ \t]+[0-9].*##; s#^[ \t/]*\#define[ \t]+(uSaber|Saber90s)[ \t\r]*$##; s@^(\#define PARAMS_H)@\1\n\#define SABER_L '$L'\n'"$US"'\n'"$NS"'@' "$d/SABER_params.h"
cd "$d" && gcc -O2 -march=native -w -fcommon -g -Wl,-z,muldefs @CF@ -I. -o demo "$here/demo.c" $(ls *.c | grep -v -e '^rng' -e demo) -lcrypto || exit 2
timeout 250 @RUN@
''',
 'uavx': PRE + r'''
T=Saber; NS=''; @ARGS@
cp -r Variants/uSaber-90s/avx2/. "$d" || exit 2
sed -i -E 's#^[ \t/]*\#define[ \t]+SABER_TYPE[ \t]+.*##; s#^(\#define api_h)#\1\n\#define SABER_TYPE '$T'#' "$d/api.h"
sed -i -E 's#^[ \t/]*\#define[ \t]+Saber90s[ \t\r]*$##' "$d/SABER_params.h"; [ -n "$NS" ] && sed -i "1i $NS" "$d/SABER_params.h"
cd "$d" && gcc -O2 -march=native -w -fcommon -g -Wl,-z,muldefs @CF@ -I. -o demo "$here/demo.c" $(ls *.c | grep -v -e '^rng' -e demo) -lcrypto || exit 2
timeout 250 @RUN@
''',
 'rng': PRE + r'''
@ARGS@
cp "$I"/rng.c "$I"/rng.h "$d" || exit 2
cd "$d" && gcc -O2 -w -g @CF@ -I. -o demo "$here/demo.c" rng.c -lcrypto || exit 2
timeout 250 @RUN@
''',
 'x4': PRE + r'''
@ARGS@
cp -r Variants/SaberX4_avx2/. "$d" || exit 2
cd "$d" && gcc -O2 -march=native -w -fcommon -g -Wl,-z,muldefs @CF@ -I. -o demo "$here/demo.c" $(ls *.c | grep -v -e '^rng' -e kem4x -e demo) keccak4x/*.c -lcrypto || exit 2
timeout 250 @RUN@
''',
 'm4': PRE + r'''
V=saber/m4-tc4kara; @ARGS@
cp -rL Cortex-M_Implementation_KEM/Cortex-M4/src/$V/. "$d" && cp "$here"/host/* "$d" || exit 2
cd "$d" && gcc -O2 -w -fcommon -g -Wl,-z,muldefs @CF@ -I. -o demo "$here/demo.c" *.c || exit 2
timeout 250 @RUN@
''',
}

DEMO['m0'] = PRE + r'''
@ARGS@
cp -r Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/. "$d" && cp "$here"/host/* "$d"/src || exit 2
cd "$d" && gcc -O2 -w -fcommon -g @CF@ -I./include -o demo "$here/demo.c" $(ls src/*.c | grep -v -e main -e benchmark -e uart -e init -e prng) || exit 2
timeout 250 @RUN@
'''

RND = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static uint64_t rs = 0x123456789abcdefULL;
static unsigned char rb(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs >> 24; }
int randombytes(unsigned char *x, unsigned long long n) { while (n--) *x++ = rb(); return 0; }
'''

DRBG = r"""
#include <stdio.h>
#include <string.h>
#include <openssl/aes.h>
#include "rng.h"
extern AES256_CTR_DRBG_struct DRBG_ctx;
static unsigned char K[32], V[16], o[64], e[64];
static void block(unsigned char *out) { AES_KEY k; for (int j = 15; j >= 0 && !++V[j]; j--); AES_set_encrypt_key(K, 256, &k); AES_encrypt(V, out, &k); }
static void ref_bytes(unsigned char *x, int n) {
  unsigned char t[48];
  while (n > 0) { block(t); memcpy(x, t, n < 16 ? n : 16); x += 16; n -= 16; }
  block(t); block(t + 16); block(t + 32); memcpy(K, t, 32); memcpy(V, t + 32, 16);
}
static void set(int ones) {
  for (int i = 0; i < 32; i++) K[i] = DRBG_ctx.Key[i] = 7 * i + ones;
  for (int i = 0; i < 16; i++) V[i] = DRBG_ctx.V[i] = i >= 16 - ones ? 255 : 3 * i;
  DRBG_ctx.reseed_counter = 1;
}
"""

SEEDS = {
 'verify_xor': dict(property='C06', impl='avx',
  edits=[('AVX_Implementation_KEM/verify.c', '    r |= a[i] ^ b[i];', '    r ^= a[i] ^ b[i];')],
  needs='a ciphertext altered in two bytes by the same mask',
  breaks='the re-encryption comparison cancels differences, so such a ciphertext is accepted',
  demo=RND + r'''
#include "api.h"
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], k[32], k2[32];
  for (int t = 0; t < 20; t++) {
    crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk);
    crypto_kem_dec(k2, ct, sk); if (memcmp(k, k2, 32)) return 3;
    /* two low-order bits of the compressed vector: decryption is unlikely to change */
    ct[5 * t] ^= 1; ct[5 * t + 5] ^= 1;
    crypto_kem_dec(k2, ct, sk);
    unsigned char z[32], buf[64], e[32];
    memcpy(buf, sk + CRYPTO_SECRETKEYBYTES - 32, 32); sha3_256(buf + 32, ct, CRYPTO_CIPHERTEXTBYTES); sha3_256(e, buf, 64);
    if (memcmp(e, k2, 32)) { puts("altered ciphertext not rejected"); return 1; }
  }
  return 0; }
'''),
 'reject_hpk': dict(property='C06', impl='ref',
  edits=[('Reference_Implementation_KEM/kem.c', 'cmov(kr, sk + SABER_SECRETKEYBYTES - SABER_KEYBYTES, SABER_KEYBYTES, fail);', 'cmov(kr, sk + SABER_SECRETKEYBYTES - SABER_HASHBYTES - SABER_KEYBYTES, SABER_KEYBYTES, fail);')],
  needs='decapsulation of an altered ciphertext',
  breaks='the rejection key is derived from the public hash of the public key, anyone can compute it',
  demo=RND + r'''
#include "api.h"
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], k[32], k2[32];
  unsigned char buf[64], e[32];
  crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk);
  ct[7] ^= 64; crypto_kem_dec(k2, ct, sk);
  memcpy(buf, sk + CRYPTO_SECRETKEYBYTES - 32, 32); sha3_256(buf + 32, ct, CRYPTO_CIPHERTEXTBYTES); sha3_256(e, buf, 64);
  if (memcmp(e, k2, 32)) { puts("wrong rejection key"); return 1; }
  return 0; }
'''),
 'h2_term': dict(property='C05', impl='uref',
  edits=[('Variants/uSaber-90s/ref/SABER_indcpa.c', '#define h2 ((1 << (SABER_EP - 2)) - (1 << (SABER_EP - SABER_ET - 1)) + (1 << (SABER_EQ - SABER_EP - 1)))', '#define h2 ((1 << (SABER_EP - 2)) - (1 << (SABER_EP - SABER_ET - 1)))')],
  needs='a decryption whose value lies within the dropped rounding constant of a decision boundary',
  breaks='the rounding constant of decryption is smaller than specified: some ciphertexts decrypt to another message',
  demo=RND + r'''
#include "SABER_params.h"
void indcpa_kem_dec(const uint8_t *, const uint8_t *, uint8_t *);
int main(void) {
  static uint8_t sk[SABER_INDCPA_SECRETKEYBYTES], ct[SABER_BYTES_CCA_DEC], m[32];
  sk[0] = 1;  /* the polynomial 1: the inner product is the first ciphertext polynomial */
  int H = (1 << 8) - (1 << (9 - SABER_ET)) + (1 << (SABER_EQ - 11));
  for (int v = 0; v < 1024; v++) {
    memset(ct, 0, sizeof ct); ct[0] = v; ct[1] = v >> 8;
    indcpa_kem_dec(sk, ct, m);
    if ((m[0] & 1) != (((v + H) >> 9) & 1)) { printf("wrong message bit for %d\n", v); return 1; }
  }
  return 0; }
'''),
 'mul_small': dict(property='C01', impl='ref',
  edits=[('Reference_Implementation_KEM/poly_mul.c', '    for (j = 0; j < N_SB; ++j) {\n        r0 = B0[j];', '    for (j = 0; j < N_SB; ++j) {\n        r0 = (uint16_t)(int8_t)B0[j];')],
  needs='a second operand with a coefficient outside -128..127 in its first quarter',
  breaks='products are wrong for operands that are not small',
  demo=RND + r'''
void poly_mul_acc(const uint16_t *, const uint16_t *, uint16_t *);
int main(void) {
  uint16_t a[256], b[256], r[256], e[256];
  for (int t = 0; t < 20; t++) {
    for (int i = 0; i < 256; i++) { a[i] = rb() | rb() << 8; b[i] = rb() | rb() << 8; r[i] = e[i] = rb() << 3; }
    for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) { uint32_t p = (uint32_t)a[i] * b[j]; if (i + j < 256) e[i + j] += p; else e[i + j - 256] -= p; }
    poly_mul_acc(a, b, r);
    for (int i = 0; i < 256; i++) if ((r[i] ^ e[i]) & 8191) { puts("wrong product"); return 1; }
  }
  return 0; }
'''),
 'cbd_load8': dict(property='C08', impl='ref', args='L=2;', cf='-fsanitize=address -fno-omit-frame-pointer', run='env ASAN_OPTIONS=detect_leaks=0 ./demo',
  edits=[('Reference_Implementation_KEM/cbd.c', 't = load_littleendian(buf + 5 * i, 5);', 't = load_littleendian(buf + 5 * i, 8);')],
  needs='LightSaber; the read past the end of the pseudorandom buffer is masked out of the result',
  breaks='the sampler reads three bytes beyond its input buffer',
  demo=RND + r'''
#include "api.h"
#include "SABER_params.h"
void cbd(uint16_t *, const uint8_t *);
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES];
  uint8_t *b = malloc(SABER_POLYCOINBYTES); uint16_t s[256];
  memset(b, 3, SABER_POLYCOINBYTES); cbd(s, b);
  crypto_kem_keypair(pk, sk); return 0; }
'''),
 'verify_exit': dict(property='C07', impl='ref', cf='-march=x86-64 -O1', run='valgrind -q --error-exitcode=9 ./demo',
  edits=[('Reference_Implementation_KEM/verify.c', '  for (i = 0; i < len; i++)\n    r |= a[i] ^ b[i];', '  for (i = 0; i < len; i++)\n  {\n    r |= a[i] ^ b[i];\n    if (i % 64 == 63 && r)\n      break;\n  }')],
  needs='timing of a rejected ciphertext',
  breaks='the comparison stops at the first differing 64-byte block: how far the ciphertexts agree is visible in the running time',
  demo=RND + r'''
#include <valgrind/memcheck.h>
#include "api.h"
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], k[32];
  crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk); ct[100] ^= 1;
  VALGRIND_MAKE_MEM_UNDEFINED(sk, CRYPTO_SECRETKEYBYTES - sizeof pk - 64);
  crypto_kem_dec(k, ct, sk);
  return 0; }
'''),
 'hpk_cache': dict(property='C09', impl='avx',
  edits=[('AVX_Implementation_KEM/kem.c', '  sha3_256(buf+32, pk, SABER_INDCPA_PUBLICKEYBYTES);    // BUF[32:63]',
   '  static unsigned char last_pk[32], last_h[32];\n  static int have;\n  if (!have || memcmp(last_pk, pk, 32)) {\n    sha3_256(last_h, pk, SABER_INDCPA_PUBLICKEYBYTES);\n    memcpy(last_pk, pk, 32);\n    have = 1;\n  }\n  memcpy(buf+32, last_h, 32);    // BUF[32:63]')],
  needs='two encapsulations in a row to public keys that share their first 32 bytes',
  breaks='the second ciphertext and key bind the first public key: decapsulation rejects',
  demo=RND + r'''
#include "api.h"
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], c2[CRYPTO_CIPHERTEXTBYTES], k[32], k2[32];
  uint64_t s;
  crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk);
  pk[CRYPTO_PUBLICKEYBYTES - 1] ^= 1; s = rs; crypto_kem_enc(ct, k, pk);
  unsigned char q[sizeof pk]; memcpy(q, pk, sizeof pk); q[0] ^= 1; crypto_kem_enc(c2, k2, q);  /* another key in between */
  rs = s; crypto_kem_enc(c2, k2, pk);
  if (memcmp(ct, c2, sizeof ct) || memcmp(k, k2, 32)) { puts("encapsulation depends on earlier calls"); return 1; }
  return 0; }
'''),
 'pack3_mask': dict(property='C02', impl='avx', args='T=LightSaber;',
  edits=[('AVX_Implementation_KEM/pack_unpack.c', "bytes[offset_byte + 0]= (data[offset_data + 0] & 0x7) | (", "bytes[offset_byte + 0]= data[offset_data + 0] | (")],
  needs='LightSaber and a coefficient with a bit above the third set',
  breaks='upper bits of a coefficient spill into its neighbours in the encoding of the compressed polynomial',
  demo=RND + r"""
void SABER_pack_3bit(uint8_t *, uint16_t *);
int main(void) {
  static uint16_t d[256]; static uint8_t b[96], e[96];
  for (int t = 0; t < 10; t++) {
    memset(e, 0, sizeof e);
    for (int j = 0; j < 256; j++) { d[j] = rb() | rb() << 8; for (int k = 0; k < 3; k++) { int p = j * 3 + k; e[p / 8] |= ((d[j] >> k) & 1) << (p % 8); } }
    SABER_pack_3bit(b, d);
    if (memcmp(b, e, sizeof b)) { puts("wrong encoding"); return 1; }
  }
  return 0; }
"""),
 'cbd_nonzero': dict(property='C03', impl='uref', args="US='';",
  edits=[('Variants/uSaber-90s/ref/cbd.c', '#else\n#error "Unsupported SABER parameter."\n#endif\n', '#else\n#error "Unsupported SABER parameter."\n#endif\n  /* a zero polynomial would be a degenerate secret */\n  uint16_t nz = 0;\n  for (i = 0; i < SABER_N; i++)\n    nz |= s[i];\n  s[0] |= (uint16_t)(nz == 0);\n')],
  needs='a pseudorandom buffer whose sampled polynomial is zero',
  breaks='the sampler returns a non-zero polynomial for the all-zero stream, the distribution is not the specified one',
  demo=RND + r'''
#include "SABER_params.h"
void cbd(uint16_t *, const uint8_t *);
int main(void) {
  static uint8_t b[SABER_POLYCOINBYTES]; uint16_t s[256];
  for (int f = 0; f < 2; f++) {
    memset(b, f ? 255 : 0, sizeof b); cbd(s, b);
    for (int i = 0; i < 256; i++) if (s[i] & 8191) { puts("zero stream gives a non-zero polynomial"); return 1; }
  }
  return 0; }
'''),
 'x4_lane': dict(property='C10', impl='x4',
  edits=[('Variants/SaberX4_avx2/kem4x.c', 'cmov(kr3, sk3+SABER_SECRETKEYBYTES-SABER_KEYBYTES, SABER_KEYBYTES, fail3);', 'cmov(kr3, sk3+SABER_SECRETKEYBYTES-SABER_KEYBYTES, SABER_KEYBYTES, fail2);')],
  needs='an altered ciphertext in the third or fourth lane only',
  breaks='the fourth lane is rejected by the third lane\'s comparison: an altered ciphertext is accepted, or an honest one refused',
  demo=RND + r'''
int crypto_kem_keypair(unsigned char *, unsigned char *); int crypto_kem_enc(unsigned char *, unsigned char *, const unsigned char *); int crypto_kem_dec(unsigned char *, const unsigned char *, const unsigned char *);
int main(void) {
  static unsigned char pk[992 * 4] __attribute__((aligned(64))), sk[2304 * 4] __attribute__((aligned(64))), ct[1088 * 4] __attribute__((aligned(64))), k[128], k2[128];
  crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk);
  for (int l = 0; l < 4; l++) {
    ct[1088 * l + 9] ^= 4;
    crypto_kem_dec(k2, ct, sk);
    for (int j = 0; j < 4; j++) if (!memcmp(k + 32 * j, k2 + 32 * j, 32) != (j != l)) { printf("lane %d altered: lane %d wrong\n", l, j); return 1; }
    ct[1088 * l + 9] ^= 4;
  }
  return 0; }
'''),
 'sha256_pad': dict(property='C04', impl='uref', args="US=''; NS='#define Saber90s';",
  edits=[('Variants/uSaber-90s/ref/sha256.c', '  if (inlen < 56) {', '  if (inlen <= 56) {')],
  needs='a message whose length is 56 modulo 64',
  breaks='the length field overwrites the padding byte: the digest is not SHA-256',
  demo=RND + r'''
#include <stddef.h>
#include <openssl/sha.h>
void sha256(uint8_t *, const uint8_t *, size_t);
int main(void) {
  unsigned char m[300], a[32], b[32];
  for (int n = 0; n < 300; n++) {
    for (int i = 0; i < n; i++) m[i] = rb();
    sha256(a, m, n); SHA256(m, n, b);
    if (memcmp(a, b, 32)) { printf("wrong digest for length %d\n", n); return 1; }
  }
  return 0; }
'''),
 'drbg_carry': dict(property='C11', impl='rng',
  edits=[('Variants/uSaber-90s/ref/rng.c', 'for (int j=15; j>=0; j--) {\n            if ( DRBG_ctx.V[j] == 0xff )', 'for (int j=15; j>=8; j--) {\n            if ( DRBG_ctx.V[j] == 0xff )')],
  needs='a generator state whose last eight counter bytes are all 255',
  breaks='the counter of randombytes wraps after 64 bits: the output is not that of the generator',
  args='I=Variants/uSaber-90s/ref;',
  demo=DRBG + r"""
int main(void) {
  for (int t = 0; t <= 16; t++) {
    set(t); ref_bytes(e, 40); randombytes(o, 40);
    if (memcmp(o, e, 40) || memcmp(DRBG_ctx.Key, K, 32) || memcmp(DRBG_ctx.V, V, 16)) { printf("wrong output with %d carries\n", t); return 1; }
  }
  return 0; }
"""),
 'drbg_tail': dict(property='C11', impl='rng',
  edits=[('AVX_Implementation_KEM/rng.c', '        if ( xlen > 15 ) {\n', '        if ( xlen == 0x30 && DRBG_ctx.reseed_counter > 1 && DRBG_ctx.V[15] == 0 ) {\n            memcpy(x+i, block, 16);\n            i += 16;\n            xlen -= 16;\n            memcpy(x+i, DRBG_ctx.Key, 16);\n            i += 16;\n            xlen -= 16;\n        }\n        else if ( xlen > 15 ) {\n')],
  needs='a 48-byte request after another one, with the counter at a multiple of 256',
  breaks='half of the internal key is handed out as random bytes',
  args='I=AVX_Implementation_KEM;',
  demo=DRBG + r"""
int main(void) {
  for (int t = 0; t <= 16; t++) {
    set(t); randombytes(o, 1); memcpy(K, DRBG_ctx.Key, 32); memcpy(V, DRBG_ctx.V, 16); V[15] = DRBG_ctx.V[15] = 255;
    ref_bytes(e, 48); randombytes(o, 48);
    if (memcmp(o, e, 48)) { puts("wrong output"); return 1; }
  }
  return 0; }
"""),
 'expander_left': dict(property='C11', impl='rng',
  edits=[('Reference_Implementation_KEM/rng.c', '            ctx->buffer_pos += xlen;\n            \n', '            ctx->buffer_pos = (ctx->buffer_pos + xlen) & 15;\n            \n')],
  needs='a seed expander request that ends exactly at the end of a block, and another one after it',
  breaks='the expander repeats a block of its stream',
  args='I=Reference_Implementation_KEM;',
  demo=DRBG + r"""
int main(void) {
  static unsigned char seed[32], div[8], one[96], two[96]; AES_XOF_struct c;
  for (int n = 1; n < 96; n++) {
    seedexpander_init(&c, seed, div, 1000); seedexpander(&c, one, 96);
    seedexpander_init(&c, seed, div, 1000); seedexpander(&c, two, n); seedexpander(&c, two + n, 96 - n);
    if (memcmp(one, two, 96)) { printf("the stream differs when read in pieces of %d and %d\n", n, 96 - n); return 1; }
  }
  return 0; }
"""),
 'matrix_cache': dict(property='C12', impl='uavx',
  edits=[('Variants/uSaber-90s/avx2/SABER_indcpa.c', """	uint32_t i,j,k;
	polyvec a[SABER_K];		// skpv;
	unsigned char seed[SABER_SEEDBYTES];
""", """	uint32_t i,j,k;
	static polyvec a[SABER_K];	// the matrix of the last public key, kept for repeated use
	static uint32_t a_tag;
	uint32_t tag;
	unsigned char seed[SABER_SEEDBYTES];
"""), ('Variants/uSaber-90s/avx2/SABER_indcpa.c', """	count_enc++;
	CLOCK1=cpucycles();
	GenMatrix(a, seed);
""", """	count_enc++;
	CLOCK1=cpucycles();
	tag = seed[0] | seed[1] << 8 | seed[2] << 16 | (uint32_t)seed[3] << 24;
	if (tag != a_tag || tag == 0)
		GenMatrix(a, seed);
	a_tag = tag;
""")],
  needs='two public keys in a row whose matrix seeds share their first four bytes',
  breaks='the second encapsulation uses the matrix of the first key: the two sides derive different keys',
  demo=RND + r"""
#include "api.h"
int main(void) {
  enum { N = 400000 };
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], pk1[sizeof pk], ct[CRYPTO_CIPHERTEXTBYTES], k[32], k2[32];
  static uint64_t st[N]; static int tab[1 << 20]; static uint32_t tg[N];
  for (int i = 0; i < N; i++) {
    st[i] = rs; crypto_kem_keypair(pk, sk);
    memcpy(&tg[i], pk + sizeof pk - 32, 4);
    int j = tab[tg[i] & 0xfffff] - 1;
    if (j >= 0 && tg[j] == tg[i]) {
      uint64_t now = rs;
      rs = st[j]; crypto_kem_keypair(pk1, sk); crypto_kem_enc(ct, k, pk1);
      rs = st[i]; crypto_kem_keypair(pk, sk); rs = now; crypto_kem_enc(ct, k, pk); crypto_kem_dec(k2, ct, sk);
      if (memcmp(k, k2, 32)) { puts("the keys of an honest exchange differ"); return 1; }
      return 0;
    }
    tab[tg[i] & 0xfffff] = i + 1;
  }
  return 0; }
"""),
 'm4_cmp_last': dict(property='C13', impl='m4',
  edits=[('Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-tc4kara/poly.c', 'fail |= POLp2BS_cmp(&ct0[i * SABER_POLYCOMPRESSEDBYTES], bp);', 'fail = POLp2BS_cmp(&ct0[i * SABER_POLYCOMPRESSEDBYTES], bp);')],
  needs='decapsulation of a ciphertext altered only in the first polynomials of its vector, so little that it still decrypts',
  breaks='the in-place comparison forgets all polynomials of the vector but the last: altered ciphertexts are accepted',
  demo=RND + r'''
#include "api.h"
#include "fips202.h"
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], k[32], k2[32];
  for (int t = 0; t < 20; t++) {
    crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk);
    crypto_kem_dec(k2, ct, sk); if (memcmp(k, k2, 32)) return 3;
    ct[31 * t] ^= 1;
    crypto_kem_dec(k2, ct, sk);
    unsigned char buf[64], e[32];
    memcpy(buf, sk + CRYPTO_SECRETKEYBYTES - 32, 32); sha3_256(buf + 32, ct, CRYPTO_CIPHERTEXTBYTES); sha3_256(e, buf, 64);
    if (memcmp(e, k2, 32)) { puts("altered ciphertext not rejected"); return 1; }
  }
  return 0; }
'''),
 'm4_early': dict(property='C14', impl='m4',
  edits=[('Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/SABER_indcpa.c', '    fail |= InnerProdEnc((uint8_t *)ct1, pk, sp, m, 1); // verify(ct[1], Pack(Round(b*s\' + m\')))\n    fail = (~fail + 1);',
    '    if (fail == 0) {\n        fail |= InnerProdEnc((uint8_t *)ct1, pk, sp, m, 1); // verify(ct[1], Pack(Round(b*s\' + m\')))\n    }\n    fail = (~fail + 1);')],
  needs='a difference in the vector part of the re-encryption: results stay right, the time taken tells the attacker',
  breaks='decapsulation skips the inner product when the vector part already differs: its running time depends on whether (and where) re-encryption failed',
  args='V=saber/m4-striding',
  cf='-Wl,--wrap=kara_strd_mem_asm',
  demo=RND + r'''
#include "api.h"
static unsigned long n;
void __real_kara_strd_mem_asm(uint16_t *, uint16_t *, uint16_t *, uint16_t *);
void __wrap_kara_strd_mem_asm(uint16_t *a, uint16_t *b, uint16_t *c, uint16_t *t) { n++; __real_kara_strd_mem_asm(a, b, c, t); }
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], k[32], k2[32];
  unsigned long first = 0;
  crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk);
  for (int t = 0; t < 3; t++) {
    static const int at[3] = {-1, 100, CRYPTO_CIPHERTEXTBYTES - 5};
    if (t) ct[at[t]] ^= 1;
    n = 0; crypto_kem_dec(k2, ct, sk);
    if (t) ct[at[t]] ^= 1;
    if (!t) first = n;
    else if (n != first) { printf("%lu multiplications for a valid ciphertext, %lu for an altered one\n", first, n); return 1; }
  }
  return 0; }
'''),
 'm4_cbd_over': dict(property='C14', impl='m4',
  edits=[('Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-tc4kara/cbd.c', 't = load_littleendian(buf + 3 * i, 3);', 't = load_littleendian(buf + 3 * i, 4);')],
  needs='FireSaber; the last group of the pseudorandom buffer',
  breaks='the sampler reads one byte past its buffer (the value is masked away, so results stay right)',
  args='V=firesaber/m4-tc4kara', cf='-fsanitize=address', run='env ASAN_OPTIONS=detect_leaks=0 "$d/demo"',
  demo=RND + r'''
#include "api.h"
#include "SABER_params.h"
void cbd(uint16_t *s, const uint8_t *buf);
int main(void) {
  static uint16_t s[SABER_N];
  unsigned char *b = malloc(SABER_POLYCOINBYTES);
  randombytes(b, SABER_POLYCOINBYTES);
  cbd(s, b);
  return 0; }
'''),
 'm4_h2_light': dict(property='C13', impl='m4',
  edits=[('Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/poly.c', '#define h2 ((1 << (SABER_EP - 2)) - (1 << (SABER_EP - SABER_ET - 1)) + (1 << (SABER_EQ - SABER_EP - 1)))',
    '#define h2 ((1 << (SABER_EP - 2)) - (1 << (SABER_EP - SABER_ET - 1)) + (1 << (SABER_EQ - SABER_EP)))')],
  needs='a ciphertext whose decryption lands exactly on the decision boundary of a bit',
  breaks='decryption rounds with the wrong constant (off by 4 of 1024): bits flip only when the value is within 4 of the boundary',
  args='V=lightsaber/m4-striding',
  demo=RND + r'''
#include "api.h"
#include "SABER_params.h"
#include "poly.h"
#include "pack_unpack.h"
void indcpa_kem_dec(const uint8_t *, const uint8_t *, uint8_t *);
int main(void) {
  static uint8_t sk[SABER_INDCPA_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES];
  static uint16_t s[SABER_N], b[SABER_N];
  uint8_t m[32], e[32];
  int h = (1 << (SABER_EP - 2)) - (1 << (SABER_EP - SABER_ET - 1)) + (1 << (SABER_EQ - SABER_EP - 1));
  /* s = 1 in the first polynomial, b' = any value v: the message bit is the top bit of v + h2 - cm * 2^(EP-ET) */
  s[0] = 1; POLq2BS(sk, s);
  for (int v = 0; v < 1024; v += SABER_N) {
    for (int i = 0; i < SABER_N; i++) b[i] = v + i;
    POLp2BS(ct, b);
    indcpa_kem_dec(sk, ct, m);
    memset(e, 0, 32);
    for (int i = 0; i < SABER_N; i++) e[i / 8] |= ((v + i + h) >> 9 & 1) << i % 8;
    if (memcmp(m, e, 32)) { puts("wrong message"); return 1; }
  }
  return 0; }
'''),
 'm0_stream': dict(property='C15', impl='m0',
  edits=[('Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c', '  \t\tpol_part_start_index=0; num_8coeff=0; left_over_bytes=0; total_bytes=0; \n\t}', '  \t\tpol_part_start_index=0; num_8coeff=0; total_bytes=0; \n\t}')],
  needs='a second matrix expansion in the same run: the bytes left over from the first one are still counted',
  breaks='the matrix is expanded wrongly from the second time on',
  demo=RND + r"""
#include "api.h"
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], pk2[CRYPTO_PUBLICKEYBYTES], sk2[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], k[32], k2[32];
  uint64_t st = rs;
  crypto_kem_keypair(pk, sk);
  rs = st; crypto_kem_keypair(pk2, sk2);
  if (memcmp(pk, pk2, sizeof pk)) { puts("the same randomness gives another key"); return 1; }
  crypto_kem_enc(ct, k, pk); crypto_kem_dec(k2, ct, sk);
  if (memcmp(k, k2, 32)) { puts("keys differ"); return 1; }
  return 0; }
"""),
 'm0_verify7': dict(property='C15', impl='m0',
  edits=[('Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/verify.c', '  r = (-r) >> 31;', '  r = (-(r & 0x7f)) >> 31;')],
  needs='a ciphertext altered only in the top bits of some of its bytes, so little that it still decrypts',
  breaks='the re-encryption comparison ignores the top bit of every byte: altered ciphertexts are accepted',
  demo=RND + r"""
#include "api.h"
#include "fips202.h"
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], k[32], k2[32];
  for (int t = 0; t < 20; t++) {
    crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk);
    crypto_kem_dec(k2, ct, sk); if (memcmp(k, k2, 32)) return 3;
    ct[1 + 5 * t] ^= 0x80;      /* bit 5 of a 10-bit coefficient */
    crypto_kem_dec(k2, ct, sk);
    unsigned char buf[64], e[32];
    memcpy(buf, sk + CRYPTO_SECRETKEYBYTES - 32, 32); sha3_256(buf + 32, ct, CRYPTO_CIPHERTEXTBYTES); sha3_256(e, buf, 64);
    if (memcmp(e, k2, 32)) { puts("altered ciphertext not rejected"); return 1; }
  }
  return 0; }
"""),
 'm0_floor': dict(property='C16', impl='m0', cf='-O0', run='valgrind -q --error-exitcode=9 "$d/demo"',
  edits=[('Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/encode.c', '        abs = sign*(0-a) + (1-sign)*a;      // absolute value of a in constant time;', '        abs = a;      // absolute value of a;\n        if (sign) abs = 0-a;')],
  needs='timing: results stay right',
  breaks='the message decoding branches on the sign of decrypted values',
  demo=RND + r"""
#include <valgrind/memcheck.h>
#include "api.h"
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], k[32];
  crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk);
  VALGRIND_MAKE_MEM_UNDEFINED(sk, 1248);
  crypto_kem_dec(k, ct, sk);
  return 0; }
"""),
}

SEEDS['zero_skip'] = dict(property='C05', impl='avx',
  edits=[('AVX_Implementation_KEM/SABER_indcpa.c', '	for(i=0;i<NUM_POLY;i++){\n		toom_cook_4way_avx_n1(a_avx[i], b_bucket[i], c_bucket, i);		\n	}\n',
   '	for(i=0;i<NUM_POLY;i++){\n		int64_t j, zero=1;\n\n		for(j=0;j<AVX_N1;j++)\n			zero &= _mm256_testz_si256(a_avx[i][j], a_avx[i][j]);\n		if(zero)	//the first operand is public: nothing to add\n			continue;\n		toom_cook_4way_avx_n1(a_avx[i], b_bucket[i], c_bucket, i);		\n	}\n')],
  needs='a ciphertext (or public key) whose first polynomial is zero: the accumulator is then never initialised',
  breaks='such a ciphertext decrypts to what an earlier call left on the stack',
  demo=RND + r"""
#include "api.h"
#include "SABER_params.h"
void indcpa_kem_dec(const unsigned char *, const unsigned char *, unsigned char *);
int main(void) {
  static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], k[32], m[32];
  crypto_kem_keypair(pk, sk); crypto_kem_enc(ct, k, pk);
  indcpa_kem_dec(sk, ct, m);
  memset(ct, 0, sizeof ct); indcpa_kem_dec(sk, ct, m);
  for (int i = 0; i < 32; i++) if (m[i]) { puts("the zero ciphertext does not decrypt to zero"); return 1; }
  return 0; }
""")
SEEDS['aes_ctr16'] = dict(property='C04', impl='uref', args="US=''; NS='#define Saber90s';",
  edits=[('Variants/uSaber-90s/ref/aes256ctr.c', '  *x = br_swap32(*x)+4;\n  *x = br_swap32(*x);', '  uint16_t c = (uint16_t)(br_swap32(*x) + 4);\n  *x = (*x & 0xffff) | br_swap32(c);')],
  needs='an output of more than one mebibyte',
  breaks='the counter of the stream wraps after 16 bits: the output repeats, it is not AES-256-CTR',
  demo=RND + r"""
#include <stddef.h>
#include <openssl/aes.h>
void aes256ctr_prf(uint8_t *, size_t, const uint8_t *, const uint8_t *);
int main(void) {
  static unsigned char o[(1 << 20) + 300], k[32], n[16], c[16];
  AES_KEY ek;
  for (int i = 0; i < 32; i++) k[i] = rb();
  for (int i = 0; i < 12; i++) n[i] = rb();
  aes256ctr_prf(o, sizeof o, k, n); AES_set_encrypt_key(k, 256, &ek);
  for (size_t b = 0; b < sizeof o / 16; b++) {
    memcpy(c, n, 12); c[12] = b >> 24; c[13] = b >> 16; c[14] = b >> 8; c[15] = b;
    AES_encrypt(c, c, &ek);
    if (memcmp(c, o + 16 * b, 16)) { printf("block %zu differs\n", b); return 1; }
  }
  return 0; }
""")
