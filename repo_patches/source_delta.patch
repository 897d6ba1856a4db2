From 0e543974d35a2b8b355c6b6d5296fc53ec9b8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:54 +0000
Subject: [PATCH 1/6] fix: SaberX4 shake128x4: squeeze the last block into a
 buffer of SHAKE128_RATE bytes

---
 Variants/SaberX4_avx2/fips202x4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Variants/SaberX4_avx2/fips202x4.c b/Variants/SaberX4_avx2/fips202x4.c
index 88e61fc..7712d8a 100644
--- a/Variants/SaberX4_avx2/fips202x4.c
+++ b/Variants/SaberX4_avx2/fips202x4.c
@@ -152,10 +152,10 @@ void shake128x4(unsigned char *out0,
                        const unsigned char *in3, unsigned long long inlen)
 {
   __m256i s[25];
-  unsigned char t0[SHAKE256_RATE];
-  unsigned char t1[SHAKE256_RATE];
-  unsigned char t2[SHAKE256_RATE];
-  unsigned char t3[SHAKE256_RATE];
+  unsigned char t0[SHAKE128_RATE];
+  unsigned char t1[SHAKE128_RATE];
+  unsigned char t2[SHAKE128_RATE];
+  unsigned char t3[SHAKE128_RATE];
   unsigned int i;
 
   // zero state 
-- 
2.43.0


From 95525e411d48639235944e3d171b0c71b2df6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:04 +0000
Subject: [PATCH 2/6] fix: SaberX4 packing: unaligned vector access to the
 caller's byte buffers

---
 Variants/SaberX4_avx2/pack_unpack.c | 32 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index 1e97d02..eeef7ce 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -119,10 +119,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		
 		
 		//do the same thing to back half(4 number) from 256-bit avx to 128bit
-		_mm_store_si128(bs0+k,ph0);
-		_mm_store_si128(bs1+k,ph1);
-		_mm_store_si128(bs2+k,ph2);
-		_mm_store_si128(bs3+k,ph3);
+		_mm_storeu_si128(bs0+k,ph0);
+		_mm_storeu_si128(bs1+k,ph1);
+		_mm_storeu_si128(bs2+k,ph2);
+		_mm_storeu_si128(bs3+k,ph3);
 		
 		//pack second half
 		l0 = _mm256_extractf128_ps((__m256)avx_bytes[offset0+0],1);
@@ -173,10 +173,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		//(128 every store bit)/(8 bit/number)=32number
 		//pointer space 128bit 
 		
-		_mm_store_si128(bs4+k,ph0);
-		_mm_store_si128(bs5+k,ph1);
-		_mm_store_si128(bs6+k,ph2);
-		_mm_store_si128(bs7+k,ph3);
+		_mm_storeu_si128(bs4+k,ph0);
+		_mm_storeu_si128(bs5+k,ph1);
+		_mm_storeu_si128(bs6+k,ph2);
+		_mm_storeu_si128(bs7+k,ph3);
 		
 		//depend on how many lines in this part
 		offset0 += 16;
@@ -206,16 +206,16 @@ void avx_load_8bit_16bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<(size)/32;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
-- 
2.43.0


From 47490120276d26f07aa114dd86a01969ebe7f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:04 +0000
Subject: [PATCH 3/6] fix: SaberX4 Keccak: align the byte rotation masks for
 their aligned loads

---
 Variants/SaberX4_avx2/keccak4x/KeccakP-1600-times4-SIMD256.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Variants/SaberX4_avx2/keccak4x/KeccakP-1600-times4-SIMD256.c b/Variants/SaberX4_avx2/keccak4x/KeccakP-1600-times4-SIMD256.c
index 7a0428f..2f5ccf9 100644
--- a/Variants/SaberX4_avx2/keccak4x/KeccakP-1600-times4-SIMD256.c
+++ b/Variants/SaberX4_avx2/keccak4x/KeccakP-1600-times4-SIMD256.c
@@ -46,8 +46,8 @@ typedef __m256i V256;
     #define ROL64in256(d, a, o)     d = _mm256_or_si256(_mm256_slli_epi64(a, o), _mm256_srli_epi64(a, 64-(o)))
     #define ROL64in256_8(d, a)      d = _mm256_shuffle_epi8(a, CONST256(rho8))
     #define ROL64in256_56(d, a)     d = _mm256_shuffle_epi8(a, CONST256(rho56))
-static const UINT64 rho8[4] = {0x0605040302010007, 0x0E0D0C0B0A09080F, 0x1615141312111017, 0x1E1D1C1B1A19181F};
-static const UINT64 rho56[4] = {0x0007060504030201, 0x080F0E0D0C0B0A09, 0x1017161514131211, 0x181F1E1D1C1B1A19};
+static ALIGN(KeccakP1600times4_statesAlignment) const UINT64 rho8[4] = {0x0605040302010007, 0x0E0D0C0B0A09080F, 0x1615141312111017, 0x1E1D1C1B1A19181F};
+static ALIGN(KeccakP1600times4_statesAlignment) const UINT64 rho56[4] = {0x0007060504030201, 0x080F0E0D0C0B0A09, 0x1017161514131211, 0x181F1E1D1C1B1A19};
     #define STORE256(a, b)          _mm256_store_si256((V256 *)&(a), b)
     #define STORE256u(a, b)         _mm256_storeu_si256((V256 *)&(a), b)
     #define STORE2_128(ah, al, v)   _mm256_storeu2_m128d((V128*)&(ah), (V128*)&(al), v)
-- 
2.43.0


From e9e3b9e388ce84bd6959e51885c69f628e3f7f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:02 +0000
Subject: [PATCH 4/6] fix: Cortex-M4 striding Toom-Cook: unsigned interpolation
 constants

The products of the interpolation with SABER_TC_INV3, SABER_TC_INV9 and
SABER_TC_INV15 were computed in int and overflowed for ordinary operands,
which is undefined.
---
 .../Cortex-M4/src/saber/m4-striding/poly_mul.c              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/poly_mul.c b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/poly_mul.c
index e1fa661..4d400ab 100755
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/poly_mul.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/poly_mul.c
@@ -2,9 +2,9 @@
 #include "poly_mul.h"
 #include <string.h>
 
-#define SABER_TC_INV3  43691
-#define SABER_TC_INV9  36409
-#define SABER_TC_INV15 61167
+#define SABER_TC_INV3  43691U
+#define SABER_TC_INV9  36409U
+#define SABER_TC_INV15 61167U
 
 
 void toom_cook_4way_striding(uint16_t a[SABER_N], uint16_t b[SABER_N], uint16_t res[SABER_N]);
-- 
2.43.0


From cde85b3489e2bfa5057854c2ba2864ce952daa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:05 +0000
Subject: [PATCH 5/6] fix: Cortex-M0 decapsulation wrote 512 bytes of unpacked
 message bits into the 64-byte message buffer

indcpa_kem_dec handed the byte buffer of its caller to ExtractKeyBits, which
stores one 16-bit word per message bit. Extract into a local array and pack it
with POL2MSG, as the commented-out call intended.
---
 .../Cortex-M0/saber-ref-mem/src/SABER_indcpa.c               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
index 38d4ed0..1c1a041 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
@@ -331,6 +331,7 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 	uint16_t sksv[SABER_K][SABER_N]; //secret key of the server
 
 	uint16_t v[SABER_N];
+	uint16_t message_dec_unpacked[SABER_N];
 
 	BS2POLVECq(sk, sksv); //sksv is the secret-key
 
@@ -346,11 +347,11 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	VectorMul(ciphertext, sksv,v);
 
-	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec);
+	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec_unpacked);
 
 
 	// pack decrypted message
-	//POL2MSG(message_dec_unpacked, message_dec);
+	POL2MSG(message_dec_unpacked, message_dec);
 }
 
 
-- 
2.43.0


From edf4d3943a32e099354f17a7f020903e460da781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:05 +0000
Subject: [PATCH 6/6] fix: Cortex-M0 schoolbook product overflowed int

The product of two uint16_t is computed in int and may exceed INT_MAX.
---
 .../Cortex-M0/saber-ref-mem/src/poly_mul.c                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/poly_mul.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/poly_mul.c
index 06613ad..afd063e 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/poly_mul.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/poly_mul.c
@@ -341,7 +341,7 @@ void school_book_mul2_16(const uint16_t* a, const uint16_t* b, uint16_t *c)
 	int i,j;
 	for (i = 0; i < 16; i++) {
 		for (j = 0; j < 16; ++j) {
-			c[i+j] += a[i]*b[j];
+			c[i+j] += (uint32_t)a[i]*b[j];
 		}
 	}
 }
-- 
2.43.0

