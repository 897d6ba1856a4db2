"""Mathematical specification of Saber and of the symmetric primitives it uses, over the values of
terms.py.  The same definitions are executable on integers (that is how they are validated against the
published test vectors) and symbolic (that is what the contracts are stated with).

Bytes are 8-bit values; a list of bytes is a Python list.  Spec functions that are kept opaque at a call
site are `uf` applications; DEF[name] is the definition used when that function itself is proved."""
from terms import *
import terms as TM

DEF = {}        # name -> function(list of argument values) -> list of results (may be symbolic)
SIG = {}        # name -> (argument widths, result widths), or a callable(P)


def U(name, args, aw, rw):
    return uf(name, [(a, aw) for a in args] if isinstance(aw, int) else list(zip(args, aw)), rw)


# ---------------------------------------------------------------- Keccak

RC = []
_r = 1
for _i in range(24):
    _c = 0
    for _j in range(7):
        if _r & 1:
            _c |= 1 << ((1 << _j) - 1)
        _r = (_r << 1) ^ (0x171 if _r & 0x80 else 0)
    RC.append(_c)
ROT = {}
_x, _y = 1, 0
for _t in range(24):
    ROT[(_x, _y)] = ((_t + 1) * (_t + 2) // 2) % 64
    _x, _y = _y, (2 * _x + 3 * _y) % 5
ROT[(0, 0)] = 0


def rol64(x, k):
    if k == 0:
        return x
    if x.__class__ is int:
        return ((x << k) | (x >> (64 - k))) & M(64)
    return cat([(ext(x, 64 - k, k), k), (ext(x, 0, 64 - k), 64 - k)])


def keccakf_def(A):
    A = list(A)
    for r in range(24):
        A = keccak_round(A, r)
    return A


def keccak_round(A, r):
    X = lambda a, b: bxor(64, a, b)
    C = [X(X(X(A[x], A[x + 5]), X(A[x + 10], A[x + 15])), A[x + 20]) for x in range(5)]
    D = [X(C[(x + 4) % 5], rol64(C[(x + 1) % 5], 1)) for x in range(5)]
    B = [None] * 25
    for x in range(5):
        for y in range(5):
            B[y + 5 * ((2 * x + 3 * y) % 5)] = rol64(X(A[x + 5 * y], D[x]), ROT[(x, y)])
    out = [X(B[i], band(64, bnot(64, B[(i % 5 + 1) % 5 + i // 5 * 5]), B[(i % 5 + 2) % 5 + i // 5 * 5])) for i in range(25)]
    out[0] = X(out[0], RC[r])
    return out


def keccakf_int(A):
    M64 = (1 << 64) - 1
    A = list(A)
    for r in range(24):
        C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
        B = [0] * 25
        for x in range(5):
            c = C[(x + 1) % 5]
            d = C[(x + 4) % 5] ^ (((c << 1) | (c >> 63)) & M64)
            for y in range(5):
                v = A[x + 5 * y] ^ d
                k = ROT[(x, y)]
                B[y + 5 * ((2 * x + 3 * y) % 5)] = ((v << k) | (v >> (64 - k))) & M64
        for y in range(0, 25, 5):
            b = B[y:y + 5]
            for x in range(5):
                A[y + x] = b[x] ^ (~b[(x + 1) % 5] & M64 & b[(x + 2) % 5])
        A[0] ^= RC[r]
    return A


UFIMPL['keccakf'] = keccakf_int
DEF['keccakf'] = keccakf_def


def keccakf(A):
    return uf('keccakf', [(a, 64) for a in A], [64] * 25)


def le_word(bs):
    return cat([(b, 8) for b in bs])


def bytes_of(x, n):
    if x.__class__ is int:
        return [(x >> (8 * i)) & 255 for i in range(n)]
    return [ext(x, 8 * i, 8) for i in range(n)]


def absorb(rate, data, dom, state=None):
    S = list(state) if state else [0] * 25
    data = list(data)
    full = len(data) // rate
    for b in range(full + 1):
        blk = data[b * rate:(b + 1) * rate]
        if b == full:
            blk = blk + [dom] + [0] * (rate - len(blk) - 1)
            blk[rate - 1] = bor(8, blk[rate - 1], 0x80)
        for i in range(rate // 8):
            S[i] = bxor(64, S[i], le_word(blk[8 * i:8 * i + 8]))
        if b < full:
            S = keccakf(S)
    return S


def sponge(rate, data, dom, outlen):
    S = absorb(rate, data, dom)
    out = []
    while len(out) < outlen:
        S = keccakf(S)
        for i in range(rate // 8):
            out.extend(bytes_of(S[i], 8))
    return out[:outlen]


def shake128(data, n):
    return sponge(168, data, 0x1f, n)


def shake256(data, n):
    return sponge(136, data, 0x1f, n)


def sha3_256(data):
    return sponge(136, data, 0x06, 32)


def sha3_512(data):
    return sponge(72, data, 0x06, 64)


# ---------------------------------------------------------------- SHA-2

def _primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


K256 = [_iroot(p << 96, 3) & M(32) for p in _primes(64)]
H256 = [_iroot(p << 64, 2) & M(32) for p in _primes(8)]
K512 = [_iroot(p << 192, 3) & M(64) for p in _primes(80)]
H512 = [_iroot(p << 128, 2) & M(64) for p in _primes(8)]


def ror(w, x, k):
    if x.__class__ is int:
        return ((x >> k) | (x << (w - k))) & M(w)
    return cat([(ext(x, k, w - k), w - k), (ext(x, 0, k), k)])


SIG2 = {32: ((7, 18, 3), (17, 19, 10), (2, 13, 22), (6, 11, 25), K256, 64),
        64: ((1, 8, 7), (19, 61, 6), (28, 34, 39), (14, 18, 41), K512, 80)}


def sha2c_def(w, args):
    """one compression: 8 state words, 16 message words"""
    s0, s1, S0, S1, K, R = SIG2[w]
    st = list(args[:8])
    W = list(args[8:24])
    X = lambda a, b: bxor(w, a, b)
    for t in range(16, R):
        x, y = W[t - 15], W[t - 2]
        g0 = X(X(ror(w, x, s0[0]), ror(w, x, s0[1])), lshrc(w, x, s0[2]))
        g1 = X(X(ror(w, y, s1[0]), ror(w, y, s1[1])), lshrc(w, y, s1[2]))
        W.append(add(w, add(w, g1, W[t - 7]), add(w, g0, W[t - 16])))
    a, b, c, d, e, f, g, h = st
    for t in range(R):
        E = X(X(ror(w, e, S1[0]), ror(w, e, S1[1])), ror(w, e, S1[2]))
        ch = X(band(w, e, f), band(w, bnot(w, e), g))
        t1 = add(w, add(w, add(w, h, E), add(w, ch, K[t])), W[t])
        A = X(X(ror(w, a, S0[0]), ror(w, a, S0[1])), ror(w, a, S0[2]))
        mj = X(X(band(w, a, b), band(w, a, c)), band(w, b, c))
        t2 = add(w, A, mj)
        h, g, f, e, d, c, b, a = g, f, e, add(w, d, t1), c, b, a, add(w, t1, t2)
    return [add(w, x, y) for x, y in zip(st, (a, b, c, d, e, f, g, h))]


DEF['sha256c'] = UFIMPL['sha256c'] = lambda a: sha2c_def(32, a)
DEF['sha512c'] = UFIMPL['sha512c'] = lambda a: sha2c_def(64, a)


def be_word(bs):
    return cat([(b, 8) for b in reversed(bs)])


def sha2c(w, st, blk):
    n = w // 8
    W = [be_word(blk[n * i:n * i + n]) for i in range(16)]
    return uf('sha256c' if w == 32 else 'sha512c', [(x, w) for x in list(st) + W], [w] * 8)


def sha2(w, data):
    data = list(data)
    n = w // 8
    L = len(data) * 8
    bl = 16 * n
    data = data + [0x80]
    while (len(data) + 2 * n) % bl:
        data.append(0)
    data += list(L.to_bytes(2 * n, 'big'))
    st = H256 if w == 32 else H512
    for i in range(0, len(data), bl):
        st = sha2c(w, st, data[i:i + bl])
    out = []
    for x in st:
        out.extend(reversed(bytes_of(x, n)))
    return out


# ---------------------------------------------------------------- AES-256

def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


SBOX = []
for _v in range(256):
    _i = 0
    if _v:
        _i = next(y for y in range(1, 256) if _gmul(_v, y) == 1)
    _s = _i
    for _k in range(1, 5):
        _s ^= ((_i << _k) | (_i >> (8 - _k))) & 255
    SBOX.append(_s ^ 0x63)
UFIMPL['sbox'] = lambda a: [SBOX[a[0]]]


def sbox(x):
    if x.__class__ is int:
        return SBOX[x]
    return uf('sbox', [(x, 8)], [8])[0]


def xtime(x):
    if x.__class__ is int:
        return ((x << 1) ^ (0x1b if x & 0x80 else 0)) & 255
    b7 = ext(x, 7, 1)
    return bxor(8, cat([(0, 1), (ext(x, 0, 7), 7)]),
                cat([(b7, 1), (b7, 1), (0, 1), (b7, 1), (b7, 1), (0, 3)]))


def x8(a, b):
    return bxor(8, a, b)


def sub_shift(s):
    """SubBytes then ShiftRows; state bytes in column-major (memory) order"""
    s = [sbox(x) for x in s]
    return [s[(4 * ((c + r) % 4)) + r] for c in range(4) for r in range(4)]


def mixcols(s):
    out = []
    for c in range(4):
        a = s[4 * c:4 * c + 4]
        for r in range(4):
            p, q, u, v = (a[(r + k) % 4] for k in range(4))
            out.append(x8(x8(xtime(p), x8(xtime(q), q)), x8(u, v)))
    return out


def aesenc(s, rk):
    return [x8(a, b) for a, b in zip(mixcols(sub_shift(s)), rk)]


def aesenclast(s, rk):
    return [x8(a, b) for a, b in zip(sub_shift(s), rk)]


def aes256_ks_def(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [sbox(x) for x in t[1:] + t[:1]]
            t[0] = x8(t[0], rc)
            rc = xtime(rc)
        elif i % 8 == 4:
            t = [sbox(x) for x in t]
        w.append([x8(a, b) for a, b in zip(w[i - 8], t)])
    return [b for x in w for b in x]


def aes256_rounds_def(args):
    """240 round-key bytes, 16 block bytes -> 16 bytes"""
    rk = [args[16 * i:16 * i + 16] for i in range(15)]
    s = [x8(a, b) for a, b in zip(args[240:], rk[0])]
    for r in range(1, 14):
        s = aesenc(s, rk[r])
    return aesenclast(s, rk[14])


DEF['aes256ks'] = UFIMPL['aes256ks'] = aes256_ks_def
DEF['aes256rounds'] = UFIMPL['aes256rounds'] = aes256_rounds_def


def aes256_ks(key):
    return uf('aes256ks', [(b, 8) for b in key], [8] * 240)


def aes256_rounds(rk, blk):
    return uf('aes256rounds', [(b, 8) for b in list(rk) + list(blk)], [8] * 16)


def aes256(key, blk):
    return aes256_rounds(aes256_ks(key), blk)


def aes256ctr(key, n, nonce=(0,) * 12):
    rk = aes256_ks(key)
    out = []
    ctr = 0
    while len(out) < n:
        out.extend(aes256_rounds(rk, list(nonce) + list(ctr.to_bytes(4, 'big'))))
        ctr += 1
    return out[:n]


# ---------------------------------------------------------------- CTR_DRBG (SP 800-90A, AES-256, no derivation function)

def uge(w, a, b):
    """unsigned a >= b as one bit"""
    if a.__class__ is int and b.__class__ is int:
        return int(a >= b)
    return bnot(1, ult(w, a, b))


def increment(v, n=16):
    """the last n bytes as a big-endian counter, plus one: a byte changes when all those behind it are 255"""
    out = list(v)
    for i in range(len(v) - n, len(v)):
        x = ite(eq(8, v[i], 0xff), 0, add(8, v[i], 1), 8)
        for j in range(i + 1, len(v)):
            x = ite(eq(8, v[j], 0xff), x, v[i], 8)
        out[i] = x
    return out


def drbg_update(data, st):
    key, v = st
    t = []
    for i in range(3):
        v = increment(v)
        t += aes256(key, v)
    t = [x8(a, b) for a, b in zip(t, data)]
    return t[:32], t[32:]


def drbg_init(entropy, pers):
    return drbg_update([x8(a, b) for a, b in zip(entropy, pers)], ([0] * 32, [0] * 16))


def drbg_generate(st, n):
    key, v = st
    out = []
    while len(out) < n:
        v = increment(v)
        out += aes256(key, v)
    return out[:n], drbg_update([0] * 48, (key, v))


def expander(buf, pos, key, ctr, n):
    """the AES-256 seed expander: n bytes of its stream, and its state after them"""
    out = []
    while len(out) < n:
        if pos == 16:
            buf = aes256(key, ctr)
            ctr = increment(ctr, 4)
            pos = 0
        out.append(buf[pos])
        pos += 1
    return out, (buf, pos, ctr)


# ---------------------------------------------------------------- ring and encodings

N = 256


class Params:
    """parameters of one Saber instance"""

    def __init__(self, k, eq=13, uniform=False, nineties=False, first=False):
        self.first = first
        self.k = k
        self.eq = eq
        self.ep = 10
        self.et = {2: 3, 3: 4, 4: 6}[k]
        self.mu = 2 if uniform else {2: 10, 3: 8, 4: 6}[k]
        self.uniform = uniform
        self.nineties = nineties
        self.polybytes = eq * N // 8
        self.polyvecbytes = k * self.polybytes
        self.pvc = k * self.ep * N // 8
        self.scalebytes = self.et * N // 8
        self.coinbytes = self.mu * N // 8
        self.indcpa_pk = self.pvc + 32
        self.indcpa_sk = self.polyvecbytes
        self.pk = self.indcpa_pk
        self.sk = self.indcpa_sk + self.indcpa_pk + 64
        self.ct = self.pvc + self.scalebytes
        self.h1 = 1 << (eq - self.ep - 1)
        # the rounding constant is added to v' since round 2 of the standardisation; before, it was not, nor compensated in h2
        self.h1v = 0 if first else self.h1
        self.h2 = (1 << (self.ep - 2)) - (1 << (self.ep - self.et - 1)) + self.h1v

    def key(self):
        return (self.k, self.eq, self.uniform, self.nineties, self.first)


class Recorded:
    """a parameter set that records which of its parameters are read"""

    def __init__(self, P):
        self._p = P
        self._r = {}

    def __getattr__(self, n):
        v = getattr(self._p, n)
        if n[0] != '_':
            self._r[n] = v
        return v

    def key(self):
        self._r['*'] = self._p.key()
        return self._p.key()


def unpack(bits, data, n=N):
    """n little-endian fields of `bits` bits"""
    out = []
    for i in range(n):
        lo = i * bits
        hi = lo + bits
        parts = []
        pos = lo
        while pos < hi:
            b = pos // 8
            e = min(hi, 8 * b + 8)
            parts.append((ext(data[b], pos - 8 * b, e - pos), e - pos))
            pos = e
        out.append(cat(parts))
    return out


def pack(bits, coefs):
    """inverse of unpack on the low `bits` bits of every coefficient"""
    n = len(coefs) * bits // 8
    out = []
    for i in range(n):
        lo = 8 * i
        hi = lo + 8
        parts = []
        pos = lo
        while pos < hi:
            c = pos // bits
            e = min(hi, bits * c + bits)
            parts.append((ext(coefs[c], pos - bits * c, e - pos), e - pos))
            pos = e
        out.append(cat(parts))
    return out


def pmul_int(w):
    def f(args):
        a, b = args[:N], args[N:]
        S = 64
        A = int.from_bytes(b''.join(x.to_bytes(8, 'little') for x in a), 'little')
        B = int.from_bytes(b''.join(x.to_bytes(8, 'little') for x in b), 'little')
        C = (A * B).to_bytes(8 * 2 * N, 'little')
        c = [int.from_bytes(C[8 * i:8 * i + 8], 'little') for i in range(2 * N)]
        return [(c[i] - c[i + N]) & M(w) for i in range(N)]
    return f


for _w in (10, 12, 13, 16):
    UFIMPL['pmul%d' % _w] = pmul_int(_w)


def red(w, x):
    """x modulo 2^w as a w-bit value"""
    if x.__class__ is int:
        return x & M(w)
    return ext(x, 0, w) if x.w >= w else zext(x, w)


def pmul(w, a, b):
    """coefficients (w bits) of a*b in Z[X]/(X^256+1), as an opaque function of the reduced factors"""
    a = [red(w, x) for x in a]
    b = [red(w, x) for x in b]
    ka = [(0, x) if x.__class__ is int else (1, x.id) for x in a]
    kb = [(0, x) if x.__class__ is int else (1, x.id) for x in b]
    if kb < ka:
        a, b = b, a
    if all(x.__class__ is int and x == 0 for x in a) or all(x.__class__ is int and x == 0 for x in b):
        return [0] * N
    return uf('pmul%d' % w, [(x, w) for x in a + b], [w] * N)


def addv(w, a, b):
    return [add(w, x, y) for x, y in zip(a, b)]


def dot(w, u, v):
    r = [0] * N
    for a, b in zip(u, v):
        r = addv(w, r, pmul(w, a, b))
    return r


def matvec(P, A, s, transpose):
    k = P.k
    return [dot(P.eq, [A[j][i] if transpose else A[i][j] for j in range(k)], s) for i in range(k)]


# ---------------------------------------------------------------- Saber

def prf(P, seed, n):
    return aes256ctr(seed, n) if P.nineties else shake128(seed, n)


def hash_h(P, data):
    return sha2(32, data) if P.nineties else sha3_256(data)


def hash_g(P, data):
    return sha2(64, data) if P.nineties else sha3_512(data)


def popcount(w, bits):
    r = 0
    for b in bits:
        r = add(w, r, zext(b, w) if b.__class__ is not int else b)
    return r


def cbd(P, data):
    """256 coefficients modulo q, centred binomial"""
    h = P.mu // 2
    w = P.eq
    out = []
    for f in unpack(P.mu, data):
        x = [ext(f, i, 1) for i in range(P.mu)]
        out.append(sub(w, popcount(w, x[:h]), popcount(w, x[h:])))
    return out


def usample(P, data):
    """256 coefficients modulo q: 2-bit fields in two's complement"""
    w = P.eq
    return [sext(f, w, 2) if f.__class__ is not int else (f - 4 if f & 2 else f) & M(w) for f in unpack(2, data)]


def sample(P, data):
    return usample(P, data) if P.uniform else cbd(P, data)


def gen_matrix_def(P, seed):
    buf = prf(P, seed, P.k * P.k * P.polybytes)
    n = P.polybytes
    k = P.k
    return [[unpack(P.eq, buf[(i * k + j) * n:(i * k + j + 1) * n]) for j in range(k)] for i in range(k)]


def gen_secret_def(P, seed):
    buf = prf(P, seed, P.k * P.coinbytes)
    n = P.coinbytes
    return [sample(P, buf[i * n:(i + 1) * n]) for i in range(P.k)]


def gen_matrix(P, seed):
    r = U('genA' + P.tag, list(seed), 8, [P.eq] * (P.k * P.k * N))
    return [[r[(i * P.k + j) * N:(i * P.k + j + 1) * N] for j in range(P.k)] for i in range(P.k)]


def gen_secret(P, seed):
    r = U('genS' + P.tag, list(seed), 8, [P.eq] * (P.k * N))
    return [r[i * N:(i + 1) * N] for i in range(P.k)]


def round_qp(P, v):
    return [ext(add(P.eq, x, P.h1), P.eq - P.ep, P.ep) for x in v]


def indcpa_keypair_def(P, r1, r2, flat=False):
    """flat: with the expansions of the seeds written out"""
    seed_A = prf(P, r1, 32)
    A = gen_matrix_def(P, seed_A) if flat else gen_matrix(P, seed_A)
    s = gen_secret_def(P, r2) if flat else gen_secret(P, r2)
    b = [round_qp(P, v) for v in matvec(P, A, s, True)]
    pk = [x for v in b for x in pack(P.ep, v)] + list(seed_A)
    sk = [x for v in s for x in pack(P.eq, v)]
    return pk, sk


def indcpa_enc_def(P, m, seed, pk, flat=False):
    A = gen_matrix_def(P, pk[P.pvc:]) if flat else gen_matrix(P, pk[P.pvc:])
    s = gen_secret_def(P, seed) if flat else gen_secret(P, seed)
    bp = [round_qp(P, v) for v in matvec(P, A, s, False)]
    n = P.ep * N // 8
    b = [unpack(P.ep, pk[i * n:(i + 1) * n]) for i in range(P.k)]
    v = [ext(x, 0, P.ep) for x in dot(P.eq, b, s)]
    mb = unpack(1, m)
    cm = [ext(add(P.ep, sub(P.ep, x, shlc(P.ep, zext(y, P.ep) if y.__class__ is not int else y, P.ep - 1)), P.h1v), P.ep - P.et, P.et)
          for x, y in zip(v, mb)]
    return [x for u in bp for x in pack(P.ep, u)] + pack(P.et, cm)


def indcpa_dec_def(P, sk, ct):
    n = P.polybytes
    s = [unpack(P.eq, sk[i * n:(i + 1) * n]) for i in range(P.k)]
    n = P.ep * N // 8
    b = [unpack(P.ep, ct[i * n:(i + 1) * n]) for i in range(P.k)]
    v = [ext(x, 0, P.ep) for x in dot(P.eq, b, s)]
    cm = unpack(P.et, ct[P.pvc:P.ct])
    m = [ext(sub(P.ep, add(P.ep, x, P.h2), shlc(P.ep, zext(c, P.ep) if c.__class__ is not int else c, P.ep - P.et)), P.ep - 1, 1)
         for x, c in zip(v, cm)]
    return pack(1, m)


PARAMS = {}


def params(k, eq=13, uniform=False, nineties=False, first=False):
    key = (k, eq, uniform, nineties, first)
    if key not in PARAMS:
        P = PARAMS[key] = Params(*key)
        t = '_%d_%d_%d_%d' % (k, eq, uniform, nineties) + ('_1' if first else '')

        def kp(a, P=P):
            pk, sk = indcpa_keypair_def(P, a[:32], a[32:])
            return pk + sk

        def en(a, P=P):
            return indcpa_enc_def(P, a[:32], a[32:64], a[64:])

        def de(a, P=P):
            return indcpa_dec_def(P, a[:P.indcpa_sk], a[P.indcpa_sk:])
        P.tag = t
        DEF['genA' + t] = UFIMPL['genA' + t] = lambda a, P=P: [z for x in gen_matrix_def(P, a) for y in x for z in y]
        DEF['genS' + t] = UFIMPL['genS' + t] = lambda a, P=P: [z for x in gen_secret_def(P, a) for z in x]
        DEF['indcpa_keypair' + t] = UFIMPL['indcpa_keypair' + t] = kp
        DEF['indcpa_enc' + t] = UFIMPL['indcpa_enc' + t] = en
        DEF['indcpa_dec' + t] = UFIMPL['indcpa_dec' + t] = de
    return PARAMS[key]


def indcpa_keypair(P, r1, r2):
    r = U('indcpa_keypair' + P.tag, list(r1) + list(r2), 8, [8] * (P.indcpa_pk + P.indcpa_sk))
    return r[:P.indcpa_pk], r[P.indcpa_pk:]


def indcpa_enc(P, m, seed, pk):
    return U('indcpa_enc' + P.tag, list(m) + list(seed) + list(pk), 8, [8] * P.ct)


def indcpa_dec(P, sk, ct):
    return U('indcpa_dec' + P.tag, list(sk) + list(ct), 8, [8] * 32)


def neq(a, b):
    """1-bit: the byte strings differ"""
    if all(x is y or (x.__class__ is int and x == y) for x, y in zip(a, b)):
        return 0
    w = 8 * len(a)
    return ne(w, cat([(x, 8) for x in a]), cat([(x, 8) for x in b]))


def kem_keypair(P, r1, r2, z):
    pk, sk = indcpa_keypair(P, r1, r2)
    return pk, list(sk) + list(pk) + list(hash_h(P, pk)) + list(z)


def kem_enc(P, r, pk):
    m = hash_h(P, r)
    kr = hash_g(P, list(m) + list(hash_h(P, pk)))
    ct = indcpa_enc(P, m, kr[32:], pk)
    return ct, hash_h(P, list(kr[:32]) + list(hash_h(P, ct)))


def kem_dec(P, ct, sk):
    m = indcpa_dec(P, sk[:P.indcpa_sk], ct)
    pk = sk[P.indcpa_sk:P.indcpa_sk + P.indcpa_pk]
    hpk = sk[P.sk - 64:P.sk - 32]
    z = sk[P.sk - 32:]
    kr = hash_g(P, list(m) + list(hpk))
    cmp = indcpa_enc(P, m, kr[32:], pk)
    fail = neq(ct, cmp)
    pre = [ite(fail, a, b, 8) for a, b in zip(z, kr[:32])]
    return hash_h(P, pre + list(hash_h(P, ct)))
