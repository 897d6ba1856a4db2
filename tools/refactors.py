"""Behaviour-preserving rewrites of /repo's code, against which every check has to stay quiet.

  tools/refactors.py make ID...   leave the edited copies in /tmp/rf/ID
  tools/refactors.py test ID...   build them and run the repository's tests
  tools/refactors.py check ID...  run the checks (CHECKS=C01,C02.. to choose) against the copies
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REF = "Reference_Implementation_KEM/"
UREF = "Variants/uSaber-90s/ref/"
AVX = "AVX_Implementation_KEM/"
UAVX = "Variants/uSaber-90s/avx2/"
X4 = "Variants/SaberX4_avx2/"


def func_span(src, name):
    for m in re.finditer(r"(?m)^(?:[A-Za-z_][^\n;(){}]*)?\b%s\s*\(" % re.escape(name), src):
        i = src.index("(", m.end() - 1)
        depth = 0
        while True:
            depth += {"(": 1, ")": -1}.get(src[i], 0)
            i += 1
            if depth == 0:
                break
        j = i
        while j < len(src) and src[j] in " \t\r\n":
            j += 1
        if src[j] != "{":
            continue
        depth = 0
        while True:
            depth += {"{": 1, "}": -1}.get(src[j], 0)
            j += 1
            if depth == 0:
                return m.start(), j
    raise SystemExit("no function " + name)


class Tree:
    def __init__(self, root):
        self.root = root

    def read(self, f):
        return open(os.path.join(self.root, f), encoding="utf-8", errors="surrogateescape", newline="").read()

    def write(self, f, s):
        open(os.path.join(self.root, f), "w", encoding="utf-8", errors="surrogateescape", newline="").write(s)

    def func(self, f, name, new):
        s = self.read(f)
        a, b = func_span(s, name)
        self.write(f, s[:a] + new.strip("\n") + s[b:])

    def sub(self, f, old, new, count=None):
        s = self.read(f)
        n = s.count(old)
        assert n, (f, old)
        if count is not None:
            assert n == count, (f, old, n)
        self.write(f, s.replace(old, new))

    def infunc(self, f, name, old, new):
        s = self.read(f)
        a, b = func_span(s, name)
        body = s[a:b]
        assert old in body, (f, name, old)
        self.write(f, s[:a] + body.replace(old, new) + s[b:])

    def before(self, f, name, text):
        s = self.read(f)
        a, b = func_span(s, name)
        self.write(f, s[:a] + text.strip("\n") + "\n\n" + s[a:])

    def rx(self, f, old, new, flags=re.S):
        s = self.read(f)
        t, n = re.subn(old, new, s, flags=flags)
        assert n, (f, old)
        self.write(f, t)


def kem(t):
    """kem.c: a helper for the two hashes at the end, memcpy for loops, pointers hoisted"""
    for d, h in ((REF, "sha3_256"), (UREF, "hash_h")):
        f = d + "kem.c"
        t.before(f, "crypto_kem_enc", """
static void derive_key(unsigned char *k, unsigned char kr[64], const unsigned char *c)
{
  unsigned char *coins = &kr[32];
  %s(coins, c, SABER_BYTES_CCA_DEC);
  %s(k, kr, 2 * SABER_KEYBYTES);
}""" % (h, h))
        t.rx(f, r"  %s\(kr \+ 32, c, SABER_BYTES_CCA_DEC\);\s*%s\(k, kr, 64\);[^\n]*" % (h, h), "  derive_key(k, kr, c);")
        t.rx(f, r"for \(i = 0; i < SABER_INDCPA_PUBLICKEYBYTES; i\+\+\)\s*sk\[i \+ SABER_INDCPA_SECRETKEYBYTES\] = pk\[i\];",
             "memcpy(sk + SABER_INDCPA_SECRETKEYBYTES, pk, SABER_INDCPA_PUBLICKEYBYTES); i = 0; (void)i;")
        t.rx(f, r"for \(i = 0; i < 32; i\+\+\)[^\n]*\n\s*buf\[32 \+ i\] = sk\[SABER_SECRETKEYBYTES - 64 \+ i\];",
             "memcpy(buf + 32, sk + (SABER_SECRETKEYBYTES - 64), 32); (void)i;")


def kem2(t):
    """decapsulation reordered: the ciphertext hash first, the rejection value copied out, early variables"""
    for d, h in ((REF, "sha3_256"), (UREF, "hash_h")):
        f = d + "kem.c"
        g = h.replace("256", "512").replace("_h", "_g")
        t.func(f, "crypto_kem_dec", """
int crypto_kem_dec(unsigned char *k, const unsigned char *c, const unsigned char *sk)
{
  unsigned char mh[64], pre[64], hc[32], cmp[SABER_BYTES_CCA_DEC], z[SABER_KEYBYTES];
  const unsigned char *cpa_sk = sk;
  const unsigned char *pk = cpa_sk + SABER_INDCPA_SECRETKEYBYTES;
  const unsigned char *hpk = sk + SABER_SECRETKEYBYTES - 64;
  unsigned int n;

  for (n = 0; n < SABER_KEYBYTES; n++)
    z[n] = hpk[32 + n];
  %s(hc, c, SABER_BYTES_CCA_DEC);
  indcpa_kem_dec(cpa_sk, c, mh);
  n = 32;
  while (n-- > 0)
    mh[32 + n] = hpk[n];
  %s(pre, mh, sizeof mh);
  indcpa_kem_enc(mh, pre + 32, pk, cmp);
  memcpy(pre + 32, hc, sizeof hc);
  cmov(pre, z, SABER_KEYBYTES, (unsigned char)verify(cmp, c, SABER_BYTES_CCA_DEC));
  %s(k, pre, sizeof pre);
  return 0;
}""" % (h, g, h))


def verify(t):
    """verify and cmov written with masks, in other orders"""
    for d in (REF, UREF, AVX, UAVX, X4):
        f = d + "verify.c"
        t.func(f, "verify", """
int verify(const unsigned char *a, const unsigned char *b, size_t len)
{
  unsigned int acc = 0;
  while (len > 0)
  {
    len--;
    acc |= (unsigned int)(a[len] ^ b[len]);
  }
  return (int)((acc + 255u) >> 8);
}""")
        t.func(f, "cmov", """
void cmov(unsigned char *r, const unsigned char *x, size_t len, unsigned char b)
{
  const unsigned char take = (unsigned char)(0u - b);
  const unsigned char keep = (unsigned char)~take;
  const unsigned char *end = r + len;
  while (r != end)
  {
    *r = (unsigned char)((*x & take) | (*r & keep));
    r++;
    x++;
  }
}""")


def verify64(t):
    """verify eight bytes at a time through memcpy"""
    for d in (REF, UREF, AVX, UAVX, X4):
        f = d + "verify.c"
        t.func(f, "verify", """
int verify(const unsigned char *a, const unsigned char *b, size_t len)
{
  uint64_t diff = 0, x, y;
  size_t i = 0;
  for (; i + 8 <= len; i += 8)
  {
    memcpy(&x, a + i, 8);
    memcpy(&y, b + i, 8);
    diff |= x ^ y;
  }
  for (; i < len; i++)
    diff |= (uint64_t)(a[i] ^ b[i]);
  return (int)((diff | (0 - diff)) >> 63);
}""")


def cbd(t):
    """binomial sampler: bits counted one by one out of a generic bit reader"""
    f = REF + "cbd.c"
    s = t.read(f)
    a, b = func_span(s, "cbd")
    t.write(f, s[:a] + """static unsigned int bits_set(const uint8_t *buf, unsigned int first, unsigned int count)
{
  unsigned int i, n = 0;
  for (i = first; i < first + count; i++)
    n += (buf[i / 8] >> (i % 8)) & 1;
  return n;
}

void cbd(uint16_t s[SABER_N], const uint8_t buf[SABER_POLYCOINBYTES])
{
  unsigned int i;
  (void)load_littleendian;
  for (i = 0; i < SABER_N; i++)
    s[i] = (uint16_t)(bits_set(buf, i * SABER_MU, SABER_MU / 2) - bits_set(buf, i * SABER_MU + SABER_MU / 2, SABER_MU / 2));
}
""" + s[b:])


def cbd2(t):
    """binomial sampler: a helper per half byte group, accumulators renamed, loops split"""
    for d in (REF, AVX, X4):
        f = d + "cbd.c"
        s = t.read(f)
        s = s.replace("d = 0;", "d = t & 0;")
        s = re.sub(r"for\s*\(j\s*=\s*0;\s*j\s*<\s*(\d+);\s*j\+\+\)", r"for (j = \1 - 1; j >= 0; j--)", s)
        s = s.replace("r |= (uint64_t)x[i] << (8*i);", "r += (uint64_t)x[i] << (i << 3);").replace("r |= (uint64_t)x[i] << (8 * i);", "r += (uint64_t)x[i] << (i << 3);")
        t.write(f, s)


BITS = """
static void put_bits(uint8_t *out, const uint16_t *in, unsigned int n, unsigned int w)
{
	unsigned int i, have = 0;
	uint32_t acc = 0;
	for (i = 0; i < n; i++)
	{
		acc |= (uint32_t)(in[i] & ((1u << w) - 1)) << have;
		have += w;
		while (have >= 8)
		{
			*out++ = (uint8_t)acc;
			acc >>= 8;
			have -= 8;
		}
	}
}

static void get_bits(const uint8_t *in, uint16_t *out, unsigned int n, unsigned int w)
{
	unsigned int i, have = 0;
	uint32_t acc = 0;
	for (i = 0; i < n; i++)
	{
		while (have < w)
		{
			acc |= (uint32_t)*in++ << have;
			have += 8;
		}
		out[i] = (uint16_t)(acc & ((1u << w) - 1));
		acc >>= w;
		have -= w;
	}
}
"""


def pack(t):
    """all packers of the reference through one generic bit writer and reader"""
    for d in (REF, UREF):
        f = d + "pack_unpack.c"
        t.before(f, "POLT2BS", BITS)
        for n, w in (("POLT2BS", "SABER_ET"), ("POLq2BS", "SABER_EQ"), ("POLp2BS", "SABER_EP")):
            s = t.read(f)
            a, b = func_span(s, n)
            head = s[a:s.index("{", a)]
            t.write(f, s[:a] + head + "{\n\tput_bits(bytes, data, SABER_N, %s);\n}" % w + s[b:])
        for n, w in (("BS2POLT", "SABER_ET"), ("BS2POLq", "SABER_EQ"), ("BS2POLp", "SABER_EP")):
            s = t.read(f)
            a, b = func_span(s, n)
            head = s[a:s.index("{", a)]
            t.write(f, s[:a] + head + "{\n\tget_bits(bytes, data, SABER_N, %s);\n}" % w + s[b:])


def pack2(t):
    """packers: pointers that advance instead of offsets; message coding by shifts"""
    for d in (REF, UREF):
        f = d + "pack_unpack.c"
        for n in ("POLp2BS", "BS2POLp"):
            s = t.read(f)
            a, b = func_span(s, n)
            body = s[a:b]
            body = body.replace("offset_byte = 5 * j;", "").replace("offset_data = 4 * j;", "").replace("offset_byte + ", "").replace("offset_data + ", "")
            body = body.replace("size_t j, offset_byte, offset_data;", "size_t j;")
            body = body.replace("for (j = 0; j < SABER_N / 4; j++)", "for (j = 0; j < SABER_N / 4; j++, bytes += 5, data += 4)")
            t.write(f, s[:a] + body + s[b:])
        t.func(f, "POLmsg2BS", """
void POLmsg2BS(uint8_t bytes[SABER_KEYBYTES], const uint16_t data[SABER_N])
{
	size_t n;
	uint8_t acc = 0;
	for (n = 0; n < SABER_N; n++)
	{
		acc = (uint8_t)((acc >> 1) | ((data[n] & 1) << 7));
		if ((n & 7) == 7)
			bytes[n >> 3] = acc;
	}
}""")
        t.func(f, "BS2POLmsg", """
void BS2POLmsg(const uint8_t bytes[SABER_KEYBYTES], uint16_t data[SABER_N])
{
	size_t n;
	for (n = 0; n < SABER_N; n++)
		data[n] = (uint16_t)((bytes[n / 8] & (1 << (n % 8))) != 0);
}""")


def mul(t):
    """Toom-Cook evaluation in a helper, Karatsuba renamed, reduction in two statements"""
    for d in (REF, UREF):
        f = d + "poly_mul.c"
        s = t.read(f)
        a = s.index("    // EVALUATION")
        b = s.index("    // MULTIPLICATION")
        s = s[:a] + """    // EVALUATION
    tc_evaluate(A0, aw1, aw2, aw3, aw4, aw5, aw6, aw7);
    tc_evaluate(B0, bw1, bw2, bw3, bw4, bw5, bw6, bw7);
    (void)A1; (void)A2; (void)A3; (void)B1; (void)B2; (void)B3; (void)j; (void)r7;

""" + s[b:]
        s = s.replace("karatsuba_simple", "kara64")
        s = s.replace("static void toom_cook_4way", """static void tc_evaluate(const uint16_t *p, uint16_t *v1, uint16_t *v2, uint16_t *v3, uint16_t *v4, uint16_t *v5, uint16_t *v6, uint16_t *v7)
{
    int k;
    for (k = N_SB - 1; k >= 0; --k) {
        uint16_t c0 = p[k], c1 = p[N_SB + k], c2 = p[2 * N_SB + k], c3 = p[3 * N_SB + k];
        uint16_t even = (uint16_t)(c0 + c2), odd = (uint16_t)(c1 + c3);
        v3[k] = (uint16_t)(even + odd);
        v4[k] = (uint16_t)(even - odd);
        even = (uint16_t)(8 * c0 + 2 * c2);
        odd = (uint16_t)(4 * c1 + c3);
        v5[k] = (uint16_t)(even + odd);
        v6[k] = (uint16_t)(even - odd);
        v2[k] = (uint16_t)(8 * c3 + 4 * c2 + 2 * c1 + c0);
        v7[k] = c0;
        v1[k] = c3;
    }
}

static void toom_cook_4way""", 1)
        t.write(f, s)
        t.func(f, "poly_mul_acc", """
void poly_mul_acc(const uint16_t a[SABER_N], const uint16_t b[SABER_N], uint16_t res[SABER_N])
{
	uint16_t prod[2 * SABER_N];
	int i;

	memset(prod, 0, sizeof prod);
	toom_cook_4way(a, b, prod);
	for (i = 0; i < SABER_N; i++)
	{
		res[i] += prod[i];
		res[i] -= prod[i + SABER_N];
	}
}""")


def school(t):
    """polynomial product by the schoolbook method with the negative wrap"""
    f = REF + "poly_mul.c"
    t.func(f, "poly_mul_acc", """
void poly_mul_acc(const uint16_t a[SABER_N], const uint16_t b[SABER_N], uint16_t res[SABER_N])
{
	int i, j;

	(void)toom_cook_4way;
	for (i = 0; i < SABER_N; i++)
	{
		for (j = 0; j < SABER_N; j++)
		{
			uint16_t p = OVERFLOWING_MUL(a[i], b[j]);
			if (i + j < SABER_N)
				res[i + j] += p;
			else
				res[i + j - SABER_N] -= p;
		}
	}
}""")


def poly(t):
    """poly.c: loops swapped, a helper for one row, sampling through a pointer"""
    for d in (REF, UREF):
        f = d + "poly.c"
        t.func(f, "MatrixVectorMul", """
void MatrixVectorMul(const uint16_t A[SABER_L][SABER_L][SABER_N], const uint16_t s[SABER_L][SABER_N], uint16_t res[SABER_L][SABER_N], int16_t transpose)
{
	int col, row;
	for (col = SABER_L - 1; col >= 0; col--)
		for (row = 0; row < SABER_L; row++)
		{
			const uint16_t *a = (transpose == 1) ? A[col][row] : A[row][col];
			poly_mul_acc(a, s[col], res[row]);
		}
}""")
        t.func(f, "InnerProd", """
void InnerProd(const uint16_t b[SABER_L][SABER_N], const uint16_t s[SABER_L][SABER_N], uint16_t res[SABER_N])
{
	const uint16_t (*end)[SABER_N] = b + SABER_L;
	for (; b != end; b++, s++)
		poly_mul_acc(*s, *b, res);
}""")
    t.func(REF + "poly.c", "GenSecret", """
void GenSecret(uint16_t s[SABER_L][SABER_N], const uint8_t seed[SABER_NOISE_SEEDBYTES])
{
	uint8_t coins[SABER_L][SABER_POLYCOINBYTES];
	uint16_t (*p)[SABER_N] = s;
	const uint8_t *c = coins[0];

	shake128(coins[0], SABER_L * SABER_POLYCOINBYTES, seed, SABER_NOISE_SEEDBYTES);
	while (p < s + SABER_L)
	{
		cbd(*p++, c);
		c += SABER_POLYCOINBYTES;
	}
}""")
    t.func(UREF + "poly.c", "GenSecret", """
static uint16_t sign2(unsigned int v)
{
	return (uint16_t)((v & 1) - (v & 2));
}

void GenSecret(uint16_t s[SABER_L][SABER_N], const uint8_t seed[SABER_NOISE_SEEDBYTES])
{
	uint8_t coins[SABER_L * SABER_POLYCOINBYTES];
	size_t i;

	prf(coins, sizeof(coins), seed, SABER_NOISE_SEEDBYTES);
#ifdef uSaber
	for (i = 0; i < SABER_L * SABER_N; i++)
		s[i / SABER_N][i % SABER_N] = sign2((coins[i / 4] >> (2 * (i % 4))) & 3);
#else
	for (i = 0; i < SABER_L; i++)
		cbd(s[i], coins + i * SABER_POLYCOINBYTES);
#endif
}""")


def indcpa(t):
    """SABER_indcpa.c: rounding in helpers, the two halves of encryption swapped, other types"""
    f = REF + "SABER_indcpa.c"
    t.before(f, "indcpa_kem_keypair", """
static void round_q_to_p(uint16_t v[SABER_L][SABER_N])
{
	uint16_t *p = &v[0][0];
	unsigned int n;
	for (n = 0; n < SABER_L * SABER_N; n++)
		v[n / SABER_N][n % SABER_N] = (uint16_t)((uint32_t)v[n / SABER_N][n % SABER_N] + h1) >> (SABER_EQ - SABER_EP);
	(void)p;
}""")
    t.rx(f, r"\tfor \(i = 0; i < SABER_L; i\+\+\)\n\t\{\n\t\tfor \(j = 0; j < SABER_N; j\+\+\)\n\t\t\{\n\t\t\tb\[i\].*?\n\t\t\}\n\t\}\n", "\tround_q_to_p(b);\n\t(void)i; (void)j;\n")
    t.func(f, "indcpa_kem_enc", """
void indcpa_kem_enc(const uint8_t m[SABER_KEYBYTES], const uint8_t seed_sp[SABER_NOISE_SEEDBYTES], const uint8_t pk[SABER_INDCPA_PUBLICKEYBYTES], uint8_t ciphertext[SABER_BYTES_CCA_DEC])
{
	uint16_t A[SABER_L][SABER_L][SABER_N];
	uint16_t sp[SABER_L][SABER_N], bp[SABER_L][SABER_N], b[SABER_L][SABER_N];
	uint16_t vp[SABER_N], mp[SABER_N];
	int j;

	memset(vp, 0, sizeof vp);
	memset(bp, 0, sizeof bp);
	GenSecret(sp, seed_sp);
	BS2POLVECp(pk, b);
	InnerProd(b, sp, vp);
	BS2POLmsg(m, mp);
	for (j = 0; j < SABER_N; j++)
	{
		uint16_t t = (uint16_t)(vp[j] + h1);
		t = (uint16_t)(t - (mp[j] << (SABER_EP - 1)));
		vp[j] = t >> (SABER_EP - SABER_ET);
	}
	POLT2BS(ciphertext + SABER_POLYVECCOMPRESSEDBYTES, vp);

	GenMatrix(A, pk + SABER_POLYVECCOMPRESSEDBYTES);
	MatrixVectorMul(A, sp, bp, 0);
	round_q_to_p(bp);
	POLVECp2BS(ciphertext, bp);
}""")
    t.infunc(f, "indcpa_kem_dec", "v[i] = (v[i] + h2 - (cm[i] << (SABER_EP - SABER_ET))) >> (SABER_EP - 1);",
             "uint16_t t = (uint16_t)(v[i] - (cm[i] << (SABER_EP - SABER_ET)));\n\t\tt = (uint16_t)(t + h2);\n\t\tv[i] = (t >> (SABER_EP - 1)) & 1;")


def fips(t):
    """SHA-3 plumbing: one sponge function, byte access by memcpy, memset for clearing"""
    for d in (REF, AVX, X4):
        f = d + "fips202.c"
        s = t.read(f)
        t.func(f, "load64", """
static uint64_t load64(const unsigned char *x)
{
  uint64_t r;
  __builtin_memcpy(&r, x, 8);
  return r;
}""")
        t.func(f, "store64", """
static void store64(uint8_t *x, uint64_t u)
{
  int i;
  for (i = 7; i >= 0; --i)
    x[i] = (uint8_t)(u >> (8 * i));
}""")
        s = t.read(f)
        a, b = func_span(s, "keccak_absorb")
        t.write(f, s[:a] + """static void xor_block(uint64_t *s, const unsigned char *m, unsigned int lanes)
{
  while (lanes-- > 0)
    s[lanes] ^= load64(m + 8 * lanes);
}

static void keccak_absorb(uint64_t *s,
                          unsigned int r,
                          const unsigned char *m, unsigned long long int mlen,
                          unsigned char p)
{
  unsigned char last[200];
  unsigned long long done;

  for (done = 0; mlen - done >= r; done += r)
  {
    xor_block(s, m + done, r / 8);
    KeccakF1600_StatePermute(s);
  }
  memset(last, 0, sizeof last);
  memcpy(last, m + done, mlen - done);
  last[mlen - done] = p;
  last[r - 1] ^= 128;
  xor_block(s, last, r / 8);
}""" + s[b:])
        s = t.read(f)
        for n, rate, pad, ln in (("sha3_256", "SHA3_256_RATE", "0x06", 32), ("sha3_512", "SHA3_512_RATE", "0x06", 64)):
            s = t.read(f)
            a, b = func_span(s, n)
            head = s[a:s.index("{", a)]
            t.write(f, s[:a] + head + """{
  uint64_t st[25] = {0};
  int i;
  keccak_absorb(st, %s, input, inlen, %s);
  KeccakF1600_StatePermute(st);
  for (i = 0; i < %d; i++)
    store64(output + 8 * i, st[i]);
}""" % (rate, pad, ln // 8) + s[b:])


KECCAK = """
static void KeccakF1600_StatePermute(uint64_t *state)
{
  static const unsigned char rot[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
  static const unsigned char pil[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  int round, i, j;
  uint64_t c[5], x;

  for (round = 0; round < NROUNDS; round++)
  {
    for (i = 0; i < 5; i++)
      c[i] = state[i] ^ state[i + 5] ^ state[i + 10] ^ state[i + 15] ^ state[i + 20];
    for (i = 0; i < 5; i++)
    {
      x = c[(i + 4) % 5] ^ ROL(c[(i + 1) % 5], 1);
      for (j = 0; j < 25; j += 5)
        state[j + i] ^= x;
    }
    x = state[1];
    for (i = 0; i < 24; i++)
    {
      c[0] = state[pil[i]];
      state[pil[i]] = ROL(x, rot[i]);
      x = c[0];
    }
    for (j = 0; j < 25; j += 5)
    {
      for (i = 0; i < 5; i++)
        c[i] = state[j + i];
      for (i = 0; i < 5; i++)
        state[j + i] ^= ~c[(i + 1) % 5] & c[(i + 2) % 5];
    }
    state[0] ^= KeccakF_RoundConstants[round];
  }
}"""


def keccak(t):
    """the compact form of the Keccak permutation"""
    for d in (REF, AVX):
        t.func(d + "fips202.c", "KeccakF1600_StatePermute", KECCAK)


def shake(t):
    """shake128 one block at a time"""
    for d in (REF, AVX):
        f = d + "fips202.c"
        s = t.read(f)
        a, b = func_span(s, "shake128")
        head = s[a:s.index("{", a)]
        t.write(f, s[:a] + head + """{
  uint64_t s[25] = {0};
  unsigned char block[SHAKE128_RATE];

  keccak_absorb(s, SHAKE128_RATE, input, inlen, 0x1F);
  while (outlen > 0)
  {
    unsigned long long i, take = outlen < SHAKE128_RATE ? outlen : SHAKE128_RATE;
    keccak_squeezeblocks(block, 1, s, SHAKE128_RATE);
    for (i = 0; i < take; i++)
      output[i] = block[i];
    output += take;
    outlen -= take;
  }
}""" + s[b:])


def sha2(t):
    """SHA-256 and SHA-512 with loops and a common padding"""
    f = UREF + "sha256.c"
    t.func(f, "sha256", """
void sha256(uint8_t *out,const uint8_t *in,size_t inlen)
{
  uint8_t h[32], last[128];
  size_t i, rest = inlen % 64, total = rest < 56 ? 64 : 128;
  uint64_t bits = (uint64_t)inlen * 8;

  for (i = 0; i < 32; ++i) h[i] = iv[i];
  blocks(h, in, inlen);
  for (i = 0; i < total; ++i) last[i] = 0;
  for (i = 0; i < rest; ++i) last[i] = in[inlen - rest + i];
  last[rest] = 0x80;
  for (i = 0; i < 8; ++i) last[total - 1 - i] = (uint8_t)(bits >> (8 * i));
  blocks(h, last, total);
  for (i = 0; i < 32; ++i) out[i] = h[i];
}""")
    t.func(f, "load_bigendian", """
static uint32_t load_bigendian(const uint8_t *x)
{
  uint32_t r = 0;
  int i;
  for (i = 0; i < 4; i++) r = (r << 8) + x[i];
  return r;
}""")


def aes(t):
    """AES-CTR: the last block always through the buffer, counters in a loop"""
    f = UREF + "aes256ctr.c"
    t.func(f, "br_aes_ct64_ctr_run", """
static void br_aes_ct64_ctr_run(uint64_t sk_exp[120], const uint8_t *iv, uint32_t cc, uint8_t *data, size_t len)
{
	uint32_t ivw[16];
	uint8_t tmp[64];
	size_t i, done;

	for (i = 0; i < 4; i++) {
		br_range_dec32le(ivw + 4 * i, 3, iv);
		ivw[4 * i + 3] = br_swap32(cc + (uint32_t)i);
	}
	for (done = 0; done < len; done += 64) {
		size_t n = len - done < 64 ? len - done : 64;
		aes_ctr4x(tmp, ivw, sk_exp);
		memcpy(data + done, tmp, n);
	}
}""")
    t.func(f, "inc4_be", """
static void inc4_be(uint32_t *x)
{
  uint32_t c = br_swap32(*x);
  c += 4;
  *x = br_swap32(c);
}""")
    t.infunc(f, "aes_ctr4x", "for (i = 1; i < 14; i++) {\n    br_aes_ct64_bitslice_Sbox(q);\n    shift_rows(q);\n    mix_columns(q);\n    add_round_key(q, sk_exp + (i << 3));\n  }\n  br_aes_ct64_bitslice_Sbox(q);\n  shift_rows(q);\n  add_round_key(q, sk_exp + 112);",
             "for (i = 1; i <= 14; i++) {\n    br_aes_ct64_bitslice_Sbox(q);\n    shift_rows(q);\n    if (i != 14)\n      mix_columns(q);\n    add_round_key(q, sk_exp + 8 * i);\n  }")


def avx(t):
    """AVX: rounding and loading helpers, plain stores, local constants, clocks dropped"""
    f = AVX + "SABER_indcpa.c"
    t.before(f, "indcpa_kem_keypair", """
static void round_avx(__m256i v[SABER_K][SABER_N/16], __m256i m)
{
	int i, j;
	const __m256i h = _mm256_set1_epi16(h1);
	for(i=0;i<SABER_K;i++)
		for(j=0;j<SABER_N/16;j++)
			v[i][j]=_mm256_and_si256(_mm256_srli_epi16(_mm256_add_epi16(h, v[i][j]), SABER_EQ-SABER_EP), m);
}

static void store_avx(uint16_t *dst, const __m256i *v, int n)
{
	int j;
	for(j=0;j<n;j++)
		_mm256_storeu_si256((__m256i *)(dst+16*j), v[j]);
}""")
    t.rx(f, r"for\(i=0;i<SABER_K;i\+\+\)\{ //shift right EQ-EP bits.*?\n\t\}\n", "round_avx(res_avx, mod);\n")
    t.rx(f, r"for\(j=0;j<SABER_N/16;j\+\+\)\{\s*_mm256_maskstore_epi32 \(\(int \*\) ?\((\w+\[i\])\+j\*16\), mask_load, res_avx\[i\]\[j\]\);\s*\}", r"store_avx(\1, res_avx[i], SABER_N/16);")
    t.rx(f, r"CLOCK[12]=cpucycles\(\);", "CLOCK1=CLOCK2=0;")
    t.sub(f, "for(i=0;i<SABER_K;i++)\n\t\t{\n\t\t\tcbd(r[i],buf+i*SABER_MU*SABER_N/8);\n\t\t}", "for(i=SABER_K;i-->0;)\n\t\t\tcbd(r[i],&buf[i*(SABER_MU*SABER_N/8)]);")
    t.func(f, "POL2MSG", """
void POL2MSG(uint16_t *message_dec_unpacked, unsigned char *message_dec){

	int32_t n;

	for(n=0; n<SABER_KEYBYTES; n++) message_dec[n] = 0;
	for(n=0; n<SABER_N; n++)
		message_dec[n/8] |= (unsigned char)(message_dec_unpacked[n] << (n%8));
}""")
    t.func(f, "load_values", """
void load_values(){

	inv3_avx = _mm256_set1_epi16((short)43691);
	inv9_avx = _mm256_set1_epi16((short)36409);
	inv15_avx = _mm256_set1_epi16((short)61167);
	int45_avx = _mm256_set1_epi16(45);
	int30_avx = _mm256_set1_epi16(30);
	int0_avx = _mm256_setzero_si256();
	mask = _mm256_loadu_si256 ((__m256i const *)mask_ar);
}""")


def avxpack(t):
    """AVX packers through a generic bit writer and reader"""
    f = AVX + "pack_unpack.c"
    t.before(f, "SABER_pack_3bit", BITS)
    for n, w, arr in (("SABER_pack_3bit", 3, 0), ("SABER_pack_4bit", 4, 0), ("SABER_pack_6bit", 6, 0)):
        s = t.read(f)
        a, b = func_span(s, n)
        t.write(f, s[:a] + s[a:s.index("{", a)] + "{\n\tput_bits(bytes, data, SABER_N, %d);\n}" % w + s[b:])
    for n, w, arg in (("SABER_un_pack3bit", 3, "data"), ("SABER_un_pack4bit", 4, "Mask_ar"), ("SABER_un_pack6bit", 6, "data")):
        s = t.read(f)
        a, b = func_span(s, n)
        t.write(f, s[:a] + s[a:s.index("{", a)] + "{\n\tget_bits(bytes, %s, SABER_N, %d);\n}" % (arg, w) + s[b:])
    for n, w, fn in (("POLVECp2BS", 10, "put"), ("POLVECq2BS", 13, "put"), ("BS2POLVECp", 10, "get"), ("BS2POLVECq", 13, "get")):
        s = t.read(f)
        a, b = func_span(s, n)
        call = "put_bits(bytes + i * (%d * SABER_N / 8), data[i], SABER_N, %d);" if fn == "put" else "get_bits(bytes + i * (%d * SABER_N / 8), data[i], SABER_N, %d);"
        t.write(f, s[:a] + s[a:s.index("{", a)] + "{\n\tint i;\n\tfor (i = 0; i < SABER_K; i++)\n\t\t" + call % (w, w) + "\n}" + s[b:])


def avxmul(t):
    """AVX multiplication: the evaluation of one limb in a helper, the matrix loop restructured"""
    for d in (AVX, UAVX, X4):
        f = d + "polymul/toom-cook_4way.c"
        s = t.read(f)
        s = re.sub(r"void batch_64coefficient_multiplications_new\(", """static void kara_limb(const __m256i *a, __m256i *out)
{
	__m256i x0 = a[0], x1 = a[1], x2 = a[2], x3 = a[3];
	__m256i x02 = _mm256_add_epi16(x0, x2), x13 = _mm256_add_epi16(x1, x3);
	out[0] = x0; out[1] = x1; out[2] = x2; out[3] = x3;
	out[4] = _mm256_add_epi16(x0, x1);
	out[5] = _mm256_add_epi16(x2, x3);
	out[6] = x02;
	out[7] = x13;
	out[8] = _mm256_add_epi16(x13, x02);
}

void batch_64coefficient_multiplications_new(""", s, count=1)
        a = s.index("//------------------AVX evaluation for 1st poly---", s.index("void batch_64coefficient_multiplications_new(__m256i* a, __m256i* b_bucket, __m256i* c_bucket, int f)"))
        b = s.index("//------------------AVX evaluation for 5th poly---")
        s = s[:a] + "{ int k; for (k = 0; k < 4; k++) kara_limb(a + k*small_len_avx, a_bucket + 9*k); }\n\n\t\t" + s[b:]
        t.write(f, s)
        f = d + "SABER_indcpa.c"
        src = t.read(f)
        if "toom_cook_4way_avx_n1(a1_avx_combined[i][j]" in src:
            t.rx(f, r"if\(isTranspose==0\)\{\s*toom_cook_4way_avx_n1\(a1_avx_combined\[i\]\[j\], b_bucket\[j\], c_bucket, j\);\s*\}\s*else\{\s*toom_cook_4way_avx_n1\(a1_avx_combined\[j\]\[i\], b_bucket\[j\], c_bucket, j\);\s*\}",
                 "__m256i *row = isTranspose ? a1_avx_combined[j][i] : a1_avx_combined[i][j];\n\t\t\ttoom_cook_4way_avx_n1(row, b_bucket[j], c_bucket, j);")


def x4(t):
    """SaberX4: loops over pointer arrays in the KEM, two-dimensional buffers in shake128x4"""
    f = X4 + "kem4x.c"
    s = t.read(f)
    a, b = func_span(s, "crypto_kem_keypair4x")
    body = s[a:b]
    i = body.index("  for(i=0;i<SABER_INDCPA_PUBLICKEYBYTES;i++)")
    j = body.index("  //sha3_256(sk+")
    body = body[:i] + """  {
    unsigned char *sks[4] = {sk0, sk1, sk2, sk3};
    unsigned char *pks[4] = {pk0, pk1, pk2, pk3};
    int l;
    for (l = 0; l < 4; l++)
    {
      for (i = 0; i < SABER_INDCPA_PUBLICKEYBYTES; i++)
        sks[l][SABER_INDCPA_SECRETKEYBYTES + i] = pks[l][i];
      for (i = 0; i < SABER_KEYBYTES; i++)
        sks[l][i+SABER_SECRETKEYBYTES-SABER_KEYBYTES] = pseudorandom_key_arr[l][i];
    }
  }

""" + body[j:]
    i = body.index("\tfor(i=0; i<SABER_KEYBYTES; i++)\n")
    j = body.rindex("  return(0);")
    body = body[:i] + body[j:]
    t.write(f, s[:a] + body + s[b:])
    t.infunc(f, "crypto_kem_dec4x", "for(i=0;i<32;i++) ", "for(i=31;i>=0;i--) ")


def drbg(t):
    """rng.c: the counter increment without the early exit"""
    for d in (REF, UREF, AVX, UAVX, X4):
        f = d + "rng.c"
        s = t.read(f)
        s2 = re.sub(r"if \( V\[j\] == 0xff \)\s*V\[j\] = 0x00;\s*else \{\s*V\[j\]\+\+;\s*break;\s*\}", "V[j] = (unsigned char)(V[j] + 1);\n            if ( V[j] != 0 )\n                break;", s)
        s2 = re.sub(r"if \( DRBG_ctx\.V\[j\] == 0xff \)\s*DRBG_ctx\.V\[j\] = 0x00;\s*else \{\s*DRBG_ctx\.V\[j\]\+\+;\s*break;\s*\}", "if ( ++DRBG_ctx.V[j] != 0x00 )\n                break;", s2)
        assert s2 != s
        t.write(f, s2)


def drbg2(t):
    """rng.c: the counter increment with an explicit carry, in a helper"""
    for d in (REF, UREF, AVX, UAVX, X4):
        f = d + "rng.c"
        s = t.read(f)
        s2 = re.sub(r"for \(int j=15; j>=0; j--\) \{\s*if \( (\w*\.?V)\[j\] == 0xff \)\s*\1\[j\] = 0x00;\s*else \{\s*\1\[j\]\+\+;\s*break;\s*\}\s*\}", r"ctr_increment(\1);", s)
        assert s2 != s
        i = s2.index("void    AES256_ECB(")
        s2 = s2[:i] + "static void ctr_increment(unsigned char *v)\n{\n    unsigned int carry = 1;\n    for (int j = 15; j >= 0; j--) {\n        unsigned int t = v[j] + carry;\n        v[j] = (unsigned char)t;\n        carry = t >> 8;\n    }\n}\n\n" + s2[i:]
        t.write(f, s2)


def _verify_inline(t, words, verdict):
    for d in (REF, UREF, AVX, UAVX):
        f = d + "kem.c"
        t.sub(f, "fail = verify(c, cmp, SABER_BYTES_CCA_DEC);", "fail = differs(c, cmp);", 1)
        body = "    uint64_t acc = 0, x, y;\n    for (size_t i = 0; i < SABER_BYTES_CCA_DEC; i += 8) {\n        memcpy(&x, a + i, 8);\n        memcpy(&y, b + i, 8);\n        acc |= x ^ y;\n    }\n" if words else "    unsigned int acc = 0;\n    for (size_t i = 0; i < SABER_BYTES_CCA_DEC; i++) {\n        acc |= (unsigned int)(a[i] ^ b[i]);\n    }\n"
        s = t.read(f)
        a, b = func_span(s, "crypto_kem_dec")
        s = s[:a] + "#include <string.h>\nstatic int differs(const unsigned char *a, const unsigned char *b)\n{\n" + body + "    return " + verdict + ";\n}\n\n" + s[a:]
        t.write(f, s)


def cmp_inline(t):
    """comparison in kem.c by bytes, verdict from a borrow"""
    _verify_inline(t, False, "(int)(1 ^ ((acc - 1) >> 31))")


def cmp_words(t):
    """comparison in kem.c by 64-bit words, verdict by or with the negation"""
    _verify_inline(t, True, "(int)((acc | (0 - acc)) >> 63)")


def cmp_words2(t):
    """comparison in kem.c by 64-bit words, folded to a byte"""
    _verify_inline(t, True, "(int)((((acc | acc >> 32) & 0xffffffff) + 0xffffffff) >> 32)")


def cmp_bool(t):
    """comparison in kem.c by bytes, verdict as a comparison"""
    _verify_inline(t, False, "acc != 0")


def verify_x4(t):
    """the four-way comparison without the function: four sums in one loop"""
    f = X4 + "verify.c"
    t.func(f, "verify", """int verify(const unsigned char *a, const unsigned char *b, size_t len)
{
    unsigned int d = 0;
    const unsigned char *e = a + len;
    for (; a < e; a++, b++)
        d |= (unsigned int)(*a ^ *b);
    return (int)((d + 255) / 256);
}""")


M4 = "Cortex-M_Implementation_KEM/Cortex-M4/src/saber/"
M4V = (M4 + "m4-striding/", M4 + "m4-tc4kara/")


def m4_cmp(t):
    """Cortex-M4: packed into a buffer and compared by one helper; the verdict as a boolean"""
    for d in M4V:
        f = d + "pack_unpack.c"
        s = t.read(f)
        a, b = func_span(s, "POLp2BS_cmp")
        helper = """static uint32_t differ(const uint8_t *x, const uint8_t *y, size_t n)
{
    uint32_t d = 0;
    while (n-- > 0) {
        d |= (uint32_t)(x[n] ^ y[n]);
    }
    return d;
}

uint32_t POLp2BS_cmp(const uint8_t bytes[SABER_POLYCOMPRESSEDBYTES], const uint16_t data[SABER_N])
{
    uint8_t packed[SABER_POLYCOMPRESSEDBYTES];

    POLp2BS(packed, data);
    return differ(bytes, packed, sizeof packed);
}"""
        s = s[:a] + helper + s[b:]
        a, b = func_span(s, "POLT2BS_cmp")
        s = s[:a] + """uint32_t POLT2BS_cmp(const uint8_t bytes[SABER_SCALEBYTES_KEM], const uint16_t data[SABER_N])
{
    uint8_t packed[SABER_SCALEBYTES_KEM];

    POLT2BS(packed, data);
    return differ(packed, bytes, SABER_SCALEBYTES_KEM);
}""" + s[b:]
        t.write(f, s)
        f = d + "SABER_indcpa.c"
        t.sub(f, "    fail = (~fail + 1);\n    fail >>= 31;\n\n    return (uint8_t)fail;", "    return (uint8_t)((fail | (0U - fail)) >> 31);", 1)


def m4_whole(t):
    """Cortex-M4: re-encryption into a local ciphertext, compared as a whole in kem.c; no in-place comparison any more"""
    for d in M4V:
        f = d + "kem.c"
        t.sub(f, "fail = indcpa_kem_enc_cmp(buf, kr + 32, pk, c);", "indcpa_kem_enc(buf, kr + 32, pk, cmp);\n    fail = differs(c, cmp);", 1)
        t.sub(f, "    uint8_t kr[64]; // Will contain key, coins\n    const uint8_t *pk", "    uint8_t kr[64]; // Will contain key, coins\n    uint8_t cmp[SABER_BYTES_CCA_DEC];\n    const uint8_t *pk", 1)
        t.sub(f, "int crypto_kem_dec(", "static uint8_t differs(const uint8_t *a, const uint8_t *b)\n{\n    uint32_t acc = 0;\n    for (size_t i = 0; i < SABER_BYTES_CCA_DEC; i++) {\n        acc |= a[i] ^ b[i];\n    }\n    return (uint8_t)((acc + 0xff) >> 8);\n}\n\nint crypto_kem_dec(", 1)


def m4_poly(t):
    """Cortex-M4: rounding helpers, loops turned round, cbd by bit counting, cmov by selection"""
    for d in M4V:
        f = d + "poly.c"
        s = t.read(f)
        s = s.replace("/* pk[0] <- Pack", "static void round_poly(uint16_t *p)\n{\n    uint16_t *end = p + SABER_N;\n\n    while (p != end) {\n        *p = (uint16_t)((*p + h1) >> (SABER_EQ - SABER_EP));\n        p++;\n    }\n}\n\n/* pk[0] <- Pack", 1)
        s = s.replace("        for (j = 0; j < SABER_N; j++) {\n            bp[j] = ((bp[j] + h1) >> (SABER_EQ - SABER_EP));\n        }", "        round_poly(bp);", 1)
        s = s.replace("        for (j = 0; j < SABER_N; j++) {\n            b[i][j] = ((b[i][j] + h1) >> (SABER_EQ - SABER_EP));\n        }", "        round_poly(b[i]);", 1)
        assert s.count("round_poly(") == 3
        s = s.replace("    for (j = 0; j < SABER_N; j++) {\n        vp[j] = (vp[j] - (mp[j] << (SABER_EP - 1)) + h1) >> (SABER_EP - SABER_ET);\n    }", "    for (j = SABER_N; j-- > 0;) {\n        uint16_t x = (uint16_t)(vp[j] + h1 - ((mp[j] & 1) << (SABER_EP - 1)));\n        vp[j] = x >> (SABER_EP - SABER_ET);\n    }")
        t.write(f, s)
        t.func(d + "verify.c", "cmov", """void cmov(uint8_t *r, const uint8_t *x, size_t len, uint8_t b)
{
    const uint8_t take = (uint8_t)(0 - b), keep = (uint8_t)~take;

    while (len > 0) {
        len--;
        r[len] = (uint8_t)((x[len] & take) | (r[len] & keep));
    }
}""")
        t.sub(d + "pack_unpack.c", "byte |= ((data[j * 8 + i] & 0x01) << i);", "byte = (uint8_t)(byte + ((data[8 * j + i] % 2) << i));", 1)


def m4_mul(t):
    """Cortex-M4: products accumulated into a cleared result, operands of the call sites swapped into locals; striding interpolation on 32-bit locals"""
    f = M4V[0] + "poly_mul.c"
    t.sub(f, "	uint16_t r0, r1, r2, r3, r4, r5, r6, r7, r8, r9;", "	uint16_t r0, r1, r2, r3;\n	uint16_t r4, r5, r6, r7, r8 = 0, r9 = 0;", 1)
    t.sub(f, "		r2 = r2 - r6;\n		r2 = r2 - r0;\n", "		r2 = r2 - (r6 + r0);\n", 1)
    t.sub(f, "		r1 = r1 + 45*r2;", "		r1 += (uint16_t)(45u * r2);", 1)
    t.sub(f, "	memset(res, 0, 2*SABER_N);", "	for (int k = 0; k < SABER_N; k++)\n		res[k] = 0;", 1)
    for d in M4V:
        f = d + "poly.c"
        t.sub(f, "            if (j == 0) {\n                poly_mul(sp[j], A, bp);\n            } else {\n                poly_mul_acc(sp[j], A, bp);\n            }", "            if (j == 0) {\n                for (size_t k = 0; k < SABER_N; k++) {\n                    bp[k] = 0;\n                }\n            }\n            poly_mul_acc(sp[j], A, bp);", 1)


def m4_asm(t):
    """Cortex-M4 assembly: independent instructions exchanged, a register renamed, explicit offsets, a no-operation"""
    f = M4V[1] + "asm_funcs.S"
    s = t.read(f)
    i = s.index("toom_cook_4way_mem_asm_loop1:")
    s = s[:i] + "toom_cook_4way_mem_asm_loop1:\n\tnop" + s[i + len("toom_cook_4way_mem_asm_loop1:"):]
    t.write(f, s)
    f = M4V[0] + "kara.s"
    s = t.read(f)
    ls = s.split("\n")
    n = 0
    for k in range(310, len(ls) - 1):
        a, b = re.match(r"ldr(?:\.w)? (\w+), \[(\w+), #(\d+)\]$", ls[k]), re.match(r"ldr(?:\.w)? (\w+), \[(\w+), #(\d+)\]$", ls[k + 1])
        if a and b and len({a.group(1), b.group(1)} | {a.group(2), b.group(2)}) == len({a.group(1), b.group(1)}) + len({a.group(2), b.group(2)}):
            ls[k], ls[k + 1] = ls[k + 1], ls[k]
            n += 1
    assert n > 20
    t.write(f, "\n".join(ls))


def g_split(t):
    """reference: the product split into two functions without the flag, overwriting product plus addition, other signatures"""
    for d in (REF, UREF):
        f = d + "poly.c"
        t.func(f, "MatrixVectorMul", """
static void add_to(uint16_t *r, const uint16_t *x)
{
	int n;
	for (n = 0; n < SABER_N; n++)
		r[n] += x[n];
}

void MatVec(const uint16_t A[SABER_L][SABER_L][SABER_N], const uint16_t s[SABER_L][SABER_N], uint16_t res[SABER_L][SABER_N])
{
	uint16_t t[SABER_N];
	int i, j;
	for (i = 0; i < SABER_L; i++)
		for (j = 0; j < SABER_L; j++)
		{
			poly_mul(t, A[i][j], s[j]);
			add_to(res[i], t);
		}
}

void MatVecT(const uint16_t A[SABER_L][SABER_L][SABER_N], const uint16_t s[SABER_L][SABER_N], uint16_t res[SABER_L][SABER_N])
{
	uint16_t t[SABER_N];
	int i, j;
	for (j = 0; j < SABER_L; j++)
		for (i = 0; i < SABER_L; i++)
		{
			poly_mul(t, A[j][i], s[j]);
			add_to(res[i], t);
		}
}""")
        t.func(f, "InnerProd", """
void VecVec(uint16_t res[SABER_N], const uint16_t b[SABER_L][SABER_N], const uint16_t s[SABER_L][SABER_N])
{
	uint16_t t[SABER_N];
	int j;
	memset(res, 0, SABER_N * sizeof(uint16_t));
	for (j = 0; j < SABER_L; j++)
	{
		poly_mul(t, b[j], s[j]);
		add_to(res, t);
	}
}""")
        t.sub(f, '#include <stdio.h>', '#include <stdio.h>\n#include <string.h>')
        t.rx(d + "poly.h", r"void MatrixVectorMul\([^;]*;", "void MatVec(const uint16_t a[SABER_L][SABER_L][SABER_N], const uint16_t s[SABER_L][SABER_N], uint16_t res[SABER_L][SABER_N]);\nvoid MatVecT(const uint16_t a[SABER_L][SABER_L][SABER_N], const uint16_t s[SABER_L][SABER_N], uint16_t res[SABER_L][SABER_N]);")
        t.rx(d + "poly.h", r"void InnerProd\([^;]*;", "void VecVec(uint16_t res[SABER_N], const uint16_t b[SABER_L][SABER_N], const uint16_t s[SABER_L][SABER_N]);")
        f = d + "SABER_indcpa.c"
        t.rx(f, r"MatrixVectorMul\(A, s, b, 1\)", "MatVecT(A, s, b)")
        t.rx(f, r"MatrixVectorMul\(A, sp, bp, 0\)", "MatVec(A, sp, bp)")
        t.rx(f, r"InnerProd\(b, (\w+), (\w+)\)", r"VecVec(\2, b, \1)")
        f = d + "poly_mul.c"
        a, b = func_span(t.read(f), "poly_mul_acc")
        s = t.read(f)
        t.write(f, s[:a] + """void poly_mul(uint16_t res[SABER_N], const uint16_t a[SABER_N], const uint16_t b[SABER_N])
{
	uint16_t c[2 * SABER_N];
	int i;

	for (i = 0; i < 2 * SABER_N; i++)
		c[i] = 0;
	toom_cook_4way(a, b, c);
	for (i = 0; i < SABER_N; i++)
		res[i] = c[i] - c[i + SABER_N];
}""" + s[b:])
        t.rx(d + "poly_mul.h", r"void poly_mul_acc\([^;]*;", "void poly_mul(uint16_t res[SABER_N], const uint16_t a[SABER_N], const uint16_t b[SABER_N]);")


def g_modq(t):
    """reference: every product reduced to 13 bits, the rounding and coding reduce as well"""
    for d in (REF, UREF):
        f = d + "poly_mul.c"
        t.sub(f, "res[i - SABER_N] += (c[i - SABER_N] - c[i]);", "res[i - SABER_N] = (uint16_t)(res[i - SABER_N] + c[i - SABER_N] - c[i]) & ((1 << SABER_EQ) - 1);")
        f = d + "SABER_indcpa.c"
        t.rx(f, r"= \((\w+\[i\]\[j\]) \+ h1\) >> \(SABER_EQ - SABER_EP\);", r"= ((\1 + h1) & ((1 << SABER_EQ) - 1)) >> (SABER_EQ - SABER_EP);")
        t.rx(f, r"vp\[j\] = \(vp\[j\] - \(mp\[j\] << \(SABER_EP - 1\)\) \+ h1\) >> \(SABER_EP - SABER_ET\);", "vp[j] = ((vp[j] + ((1 << SABER_EP) - (mp[j] << (SABER_EP - 1))) + h1) & ((1 << SABER_EP) - 1)) >> (SABER_EP - SABER_ET);")


def g_rows(t):
    """reference: encryption row by row, one polynomial at a time, packing each row as it is finished"""
    for d in (REF, UREF):
        f = d + "SABER_indcpa.c"
        s = t.read(f)
        a, b = func_span(s, "indcpa_kem_enc")
        head = s[a:s.index("{", a)]
        t.write(f, s[:a] + """void POLp2BS(uint8_t bytes[SABER_POLYCOMPRESSEDBYTES], const uint16_t data[SABER_N]);
void BS2POLp(const uint8_t bytes[SABER_POLYCOMPRESSEDBYTES], uint16_t data[SABER_N]);

""".replace("SABER_POLYCOMPRESSEDBYTES", "SABER_EP * SABER_N / 8") + head + """{
	uint16_t A[SABER_L][SABER_L][SABER_N];
	uint16_t sp[SABER_L][SABER_N];
	uint16_t row[SABER_N], acc[SABER_N];
	int i, j;

	GenMatrix(A, pk + SABER_POLYVECCOMPRESSEDBYTES);
	GenSecret(sp, seed_sp);
	memset(acc, 0, sizeof acc);
	for (i = 0; i < SABER_L; i++)
	{
		memset(row, 0, sizeof row);
		for (j = 0; j < SABER_L; j++)
			poly_mul_acc(A[i][j], sp[j], row);
		for (j = 0; j < SABER_N; j++)
			row[j] = (uint16_t)(row[j] + h1) >> (SABER_EQ - SABER_EP);
		POLp2BS(ciphertext + i * (SABER_EP * SABER_N / 8), row);
		BS2POLp(pk + i * (SABER_EP * SABER_N / 8), row);
		poly_mul_acc(row, sp[i], acc);
	}
	for (j = 0; j < SABER_N; j++)
	{
		uint16_t bit = (m[j >> 3] >> (j & 7)) & 1;
		acc[j] = (uint16_t)(acc[j] + h1 - (bit << (SABER_EP - 1))) >> (SABER_EP - SABER_ET);
	}
	POLT2BS(ciphertext + SABER_POLYVECCOMPRESSEDBYTES, acc);
}""" + s[b:])
        t.rx(d + "pack_unpack.c", r"static\s+(inline\s+)?void (POLp2BS|BS2POLp)\(", r"void \2(")


def g_cbd(t):
    """binomial sampler: population counts of the two halves; names and types changed"""
    for d in (REF, UREF, AVX, UAVX, X4):
        f = d + "cbd.c"
        s = t.read(f)
        a, b = func_span(s, "cbd")
        head = s[a:s.index("{", a)]
        args = re.findall(r"(\w+)\s*(?:\[[^\]]*\])?\s*[,)]", head)
        out, inp = args[0], args[1]
        t.write(f, s[:a] + head + """{
  const unsigned int half = SABER_MU / 2, mask = (1u << (SABER_MU / 2)) - 1;
  uint64_t window = 0;
  unsigned int have = 0, i;
  (void)load_littleendian;
  for (i = 0; i < SABER_N; i++)
  {
    while (have < SABER_MU)
    {
      window |= (uint64_t)*%s++ << have;
      have += 8;
    }
    %s[i] = (uint16_t)(__builtin_popcount((unsigned int)window & mask) - __builtin_popcount((unsigned int)(window >> half) & mask));
    window >>= SABER_MU;
    have -= SABER_MU;
  }
}
""" % (inp, out) + s[b:])


def g_kem(t):
    """kem.c: message, hash, key and coins as members of structures; key selection without cmov"""
    for d, h in ((REF, "sha3_256"), (UREF, "hash_h")):
        f = d + "kem.c"
        g = h.replace("256", "512").replace("_h", "_g")
        t.func(f, "crypto_kem_enc", """
struct seeds { unsigned char m[32], pkhash[32]; };
struct keys { unsigned char key[32], coins[32]; };

int crypto_kem_enc(unsigned char *c, unsigned char *k, const unsigned char *pk)
{
  struct seeds s;
  struct keys kr;

  randombytes(s.m, sizeof s.m);
  %s(s.pkhash, pk, SABER_INDCPA_PUBLICKEYBYTES);
  %s(s.m, s.m, sizeof s.m);
  %s(kr.key, s.m, sizeof s);
  indcpa_kem_enc(s.m, kr.coins, pk, c);
  %s(kr.coins, c, SABER_BYTES_CCA_DEC);
  %s(k, kr.key, sizeof kr);
  return 0;
}""" % (h, h, g, h, h))
        t.func(f, "crypto_kem_dec", """
int crypto_kem_dec(unsigned char *k, const unsigned char *c, const unsigned char *sk)
{
  struct { const unsigned char *cpa, *pk, *hash, *z; } key;
  unsigned char cmp[SABER_BYTES_CCA_DEC];
  unsigned char buf[64], kr[64];
  unsigned int i;
  unsigned char mask;

  key.cpa = sk;
  key.pk = key.cpa + SABER_INDCPA_SECRETKEYBYTES;
  key.hash = key.pk + SABER_INDCPA_PUBLICKEYBYTES;
  key.z = key.hash + 32;
  indcpa_kem_dec(key.cpa, c, buf);
  memcpy(buf + 32, key.hash, 32);
  %s(kr, buf, 64);
  indcpa_kem_enc(buf, kr + 32, key.pk, cmp);
  mask = (unsigned char)-verify(c, cmp, SABER_BYTES_CCA_DEC);
  for (i = 0; i < SABER_KEYBYTES; i++)
    kr[i] ^= mask & (kr[i] ^ key.z[i]);
  %s(kr + 32, c, SABER_BYTES_CCA_DEC);
  %s(k, kr, 64);
  return 0;
}""" % (g, h, h))


def g_merge(t):
    """verify and cmov merged into one selection function in verify.c"""
    for d in (REF, UREF, AVX, UAVX):
        f = d + "verify.c"
        s = t.read(f)
        s += """

void select_key(unsigned char *key, const unsigned char *other, size_t klen, const unsigned char *x, const unsigned char *y, size_t len)
{
  uint64_t acc = 0;
  unsigned char mask;
  size_t i;
  for (i = 0; i < len; i++)
    acc |= x[i] ^ y[i];
  mask = (unsigned char)((0 - acc) >> 56);
  mask = (unsigned char)-(mask >> 7);
  for (i = 0; i < klen; i++)
    key[i] = (unsigned char)((other[i] & mask) | (key[i] & (unsigned char)~mask));
}
"""
        t.write(f, s)
        f = d + "kem.c"
        s = t.read(f)
        a, b = func_span(s, "crypto_kem_dec")
        body = s[a:b]
        body = re.sub(r"fail = verify\(c, cmp, SABER_BYTES_CCA_DEC\);", "fail = 0; (void)fail;", body)
        body, n = re.subn(r"cmov\(kr, (sk\s*\+\s*SABER_SECRETKEYBYTES\s*-\s*SABER_KEYBYTES), SABER_KEYBYTES, fail\);", r"select_key(kr, \1, SABER_KEYBYTES, c, cmp, SABER_BYTES_CCA_DEC);", body)
        assert n == 1
        t.write(f, s[:a] + "void select_key(unsigned char *key, const unsigned char *other, size_t klen, const unsigned char *x, const unsigned char *y, size_t len);\n\n" + body + s[b:])


def g_avx(t):
    """AVX: loading and evaluation moved into the product functions, matrix written as vectors, generic cleanups"""
    for d in (AVX, UAVX):
        f = d + "SABER_indcpa.c"
        s = t.read(f)
        i = s.index("void indcpa_kem_keypair(")
        s = s[:i] + """static void load_vec(__m256i v[SABER_K][SABER_N/16], const uint16_t p[SABER_K][SABER_N])
{
	int n;
	for (n = 0; n < SABER_K*SABER_N/16; n++)
		v[n/(SABER_N/16)][n%(SABER_N/16)] = _mm256_loadu_si256((const __m256i *)&p[n/(SABER_N/16)][16*(n%(SABER_N/16))]);
}

static void load_mat(__m256i m[SABER_K][SABER_K][SABER_N/16], const polyvec a[SABER_K])
{
	int r, c, n;
	for (r = 0; r < SABER_K; r++)
		for (c = 0; c < SABER_K; c++)
			for (n = SABER_N/16 - 1; n >= 0; n--)
				m[r][c][n] = _mm256_loadu_si256((const __m256i *)(a[r].vec[c].coeffs + 16*n));
}

static void eval_secret(__m256i b[NUM_POLY][SCHB_N*4], __m256i s[SABER_K][SABER_N/16])
{
	int j;
	for (j = 0; j < NUM_POLY; j++)
		TC_eval(s[j], b[j]);
}

""" + s[i:]
        s, n = re.subn(r"for\(i=0;i<SABER_K;i\+\+\)\s*\{\s*for\(j=0; ?j<SABER_N/16; ?j\+\+\)\{\s*(\w+)\[i\]\[j\] = _mm256_loadu_si256 \(\(__m256i const \*\) \(&(\w+)\[i\]\[j\*16\]\)\);\s*\}\s*\}", r"load_vec(\1, (const uint16_t (*)[SABER_N])\2);", s)
        assert n >= 2, n
        s, n = re.subn(r"for\(i=0;i<SABER_K;i\+\+\)\{\s*for\(j=0;j<SABER_K;j\+\+\)\{\s*for\(k=0;k<SABER_N/16;k\+\+\)\{\s*a_avx\[i\]\[j\]\[k\]=[^;]*;\s*\}\s*\}\s*\}", "load_mat(a_avx, a);", s)
        assert n == 2, n
        s, n = re.subn(r"for\(j=0;j<NUM_POLY;j\+\+\)\{\s*TC_eval\((\w+)\[j\], b_bucket\[j\]\);\s*\}", r"eval_secret(b_bucket, \1);", s)
        assert n == 3, n
        s = s.replace("a[i].vec[j].coeffs[k] = (temp_ar[k])& mod ;", "a[i].vec[j].coeffs[k] = temp_ar[k] % (mod + 1);")
        t.write(f, s)


def g_avxpk(t):
    """AVX: plain constants instead of globals, message coding with variable shifts, comparison masks"""
    for d in (AVX, UAVX):
        f = d + "SABER_indcpa.c"
        s = t.read(f)
        s, n = re.subn(r"for\(j=0; j<SABER_KEYBYTES; j\+\+\)\s*\{\s*for\(i=0; i<8; i\+\+\)\s*\{\s*message\[8\*j\+i\] = [^;]*;\s*\}\s*\}", "for(i=0; i<SABER_N; i++)\n\t\tmessage[i] = (uint16_t)-((message_received[i/8] >> (i%8)) & 1);", s)
        assert n == 1
        s, n = re.subn(r"message_avx\[i\] = _mm256_slli_epi16 \(message_avx\[i\], \(SABER_EP-1\) \);", "message_avx[i] = _mm256_and_si256(message_avx[i], _mm256_set1_epi16(SABER_P/2));", s)
        assert n == 1
        s, n = re.subn(r"_mm256_maskstore_epi32 \(\(int \*\) ?\(([^)]*)\), mask_load, (\w+\[[ij]\](?:\[j\])?)\)", r"_mm256_storeu_si256((__m256i *)(\1), \2)", s)
        assert n >= 3, n
        s, n = re.subn(r"message_dec_unpacked\[i\]= \( \( message_dec_unpacked\[i\] \+ h2 - \(op\[i\]<<\(SABER_EP-SABER_ET\)\) \) & \(SABER_P-1\) \) >> \(SABER_EP-1\);", "{ uint16_t w = (uint16_t)(message_dec_unpacked[i] - op[i] * (1 << (SABER_EP-SABER_ET)) + h2);\n\t\tmessage_dec_unpacked[i] = (w >> (SABER_EP-1)) & 1; }", s)
        assert n == 1
        t.write(f, s)


def g_x4(t):
    """SaberX4: encapsulation and decapsulation over arrays of four buffers"""
    f = X4 + "kem4x.c"
    s = t.read(f)
    for n in ("crypto_kem_enc4x", "crypto_kem_dec4x"):
        a, b = func_span(s, n)
        body = s[a:b]
        body = re.sub(r"unsigned char kr0\[64\], kr1\[64\], kr2\[64\], kr3\[64\];", "unsigned char KR[4][64];", body)
        body = re.sub(r"unsigned char buf0\[64\], buf1\[64\], buf2\[64\], buf3\[64\];", "unsigned char BUF[256];", body)
        body = re.sub(r"\bkr([0-3])\b", r"KR[\1]", body)
        body = re.sub(r"\bbuf([0-3])\[32\+i\]", r"BUF[64*\1+32+i]", body)
        body = re.sub(r"\bbuf([0-3])\b", r"(BUF+64*\1)", body)
        if n == "crypto_kem_dec4x":
            body = body.replace("int i, fail0, fail1, fail2, fail3;", "int i, fail[4];\n\tconst unsigned char *cs[4] = {c0, c1, c2, c3};")
            body = body.replace("unsigned char cmp0[SABER_BYTES_CCA_DEC], cmp1[SABER_BYTES_CCA_DEC];", "unsigned char CMP[4][SABER_BYTES_CCA_DEC];").replace("	unsigned char cmp2[SABER_BYTES_CCA_DEC], cmp3[SABER_BYTES_CCA_DEC];\n", "")
            i = body.index("  fail0 = verify")
            j = body.index("  //sha3_256(kr+32, c", i)
            body = body[:i] + "  for (i = 0; i < 4; i++)\n    fail[i] = verify(CMP[i], cs[i], SABER_BYTES_CCA_DEC);\n\n" + body[j:]
            i = body.index("  cmov(KR[0]")
            j = body.index("  //sha3_256(k, kr", i)
            body = body[:i] + "  {\n    const unsigned char *sks[4] = {sk0, sk1, sk2, sk3};\n    for (i = 0; i < 4; i++)\n      cmov(KR[i], sks[i] + (SABER_SECRETKEYBYTES - SABER_KEYBYTES), SABER_KEYBYTES, (unsigned char)fail[i]);\n  }\n\n" + body[j:]
            body = re.sub(r"\bcmp([0-3])\b", r"CMP[\1]", body)
        s = s[:a] + body + s[b:]
    t.write(f, s)


def g_drbg(t):
    """rng.c: whole blocks then the rest, update through a local copy, expander with min"""
    for d in (REF, UREF, AVX, UAVX):
        f = d + "rng.c"
        s = t.read(f)
        i = re.search(r"void\s+handleErrors\(void\)\s*\{", s).start()
        t.write(f, s[:i] + """static void next_block(unsigned char *out)
{
    int j = 15;
    do {
        DRBG_ctx.V[j] = (unsigned char)(DRBG_ctx.V[j] + 1);
    } while ( DRBG_ctx.V[j] == 0 && j-- > 0 );
    AES256_ECB(DRBG_ctx.Key, DRBG_ctx.V, out);
}

""" + s[i:])
        t.func(f, "randombytes", """
randombytes(unsigned char *x, unsigned long long xlen)
{
    unsigned char   block[16];
    unsigned long long done;

    for ( done = 0; done + 16 <= xlen; done += 16 ) {
        next_block(block);
        memcpy(x+done, block, 16);
    }
    if ( done < xlen ) {
        next_block(block);
        for ( int i = 0; done < xlen; done++, i++ )
            x[done] = block[i];
    }
    AES256_CTR_DRBG_Update(NULL, DRBG_ctx.Key, DRBG_ctx.V);
    DRBG_ctx.reseed_counter += 1;

    return RNG_SUCCESS;
}""")
        s = t.read(f)
        a, b = func_span(s, "seedexpander")
        t.write(f, s[:a] + """seedexpander(AES_XOF_struct *ctx, unsigned char *x, unsigned long xlen)
{
    if ( x == NULL )
        return RNG_BAD_OUTBUF;
    if ( !(xlen < ctx->length_remaining) )
        return RNG_BAD_REQ_LEN;

    ctx->length_remaining -= xlen;

    while ( xlen > 0 ) {
        unsigned long take = (unsigned long)(16 - ctx->buffer_pos);

        if ( take == 0 ) {
            AES256_ECB(ctx->key, ctx->ctr, ctx->buffer);
            ctx->buffer_pos = 0;
            for (int i = 15; i >= 12; i--) {
                ctx->ctr[i] += 1;
                if ( ctx->ctr[i] != 0 )
                    break;
            }
            take = 16;
        }
        if ( take > xlen )
            take = xlen;
        memcpy(x, ctx->buffer + ctx->buffer_pos, take);
        ctx->buffer_pos += take;
        x += take;
        xlen -= take;
    }
    return RNG_SUCCESS;
}""" + s[b:])


def g_sponge(t):
    """SHA-3: one sponge with byte positions for all three functions"""
    for d in (REF, UREF, AVX, UAVX):
        f = d + "fips202.c"
        s = t.read(f)
        a, b = func_span(s, "shake128")
        head = s[a:s.index("{", a)]
        s = s[:a] + """static void sponge(unsigned int rate, unsigned char pad, unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen)
{
  uint64_t s[25] = {0};
  unsigned int pos = 0;

  (void)keccak_absorb; (void)keccak_squeezeblocks; (void)load64; (void)store64;
  while (inlen-- > 0)
  {
    s[pos / 8] ^= (uint64_t)*in++ << (8 * (pos % 8));
    if (++pos == rate)
    {
      KeccakF1600_StatePermute(s);
      pos = 0;
    }
  }
  s[pos / 8] ^= (uint64_t)pad << (8 * (pos % 8));
  s[rate / 8 - 1] ^= (uint64_t)1 << 63;
  pos = rate;
  while (outlen-- > 0)
  {
    if (pos == rate)
    {
      KeccakF1600_StatePermute(s);
      pos = 0;
    }
    *out++ = (unsigned char)(s[pos / 8] >> (8 * (pos % 8)));
    pos++;
  }
}

""" + head + "{\n  sponge(SHAKE128_RATE, 0x1F, output, outlen, input, inlen);\n}" + s[b:]
        t.write(f, s)
        for n, rate, ln in (("sha3_256", "SHA3_256_RATE", 32), ("sha3_512", "SHA3_512_RATE", 64)):
            s = t.read(f)
            a, b = func_span(s, n)
            head = s[a:s.index("{", a)]
            t.write(f, s[:a] + head + "{\n  sponge(%s, 0x06, output, %d, input, inlen);\n}" % (rate, ln) + s[b:])


ALL = {k: v for k, v in list(globals().items()) if callable(v) and getattr(v, "__doc__", None) and k not in ("Tree",) and v.__code__.co_varnames[:1] == ("t",) if hasattr(v, "__code__")}


def make(i):
    d = "/tmp/rf/" + i
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs("/tmp/rf", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    t = Tree(d)
    for part in i.split("+"):
        ALL[part](t)
    return d


def main():
    cmd, ids = sys.argv[1], sys.argv[2:] or list(ALL)
    for i in ids:
        d = make(i)
        print("==", i, ALL[i.split("+")[0]].__doc__, flush=True)
        if cmd == "test":
            out = d + ".json"
            subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >%s.log 2>&1; echo build $?; bash /opt/vp/test.sh %s >/dev/null 2>&1" % (d, d, out)])
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            print("    stable tests failing:", sorted(base - set(json.load(open(out)).get("passed") or []))[:8], flush=True)
        if cmd == "check":
            for p in os.environ.get("CHECKS", ",".join("C%02d" % k for k in range(1, 11))).split(","):
                r = subprocess.run(["python3-vt", os.path.join(HERE, "..", "vf", "check.py"), p], env=dict(os.environ, VF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                bad = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                print("  %s exit %d %s" % (p, r.returncode, "" if r.returncode == 0 else "\n      ".join(bad[:6] or r.stdout.splitlines()[-6:])), flush=True)
        if cmd != "make":
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
