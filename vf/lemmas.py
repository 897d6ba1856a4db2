"""Lemmas over the specification: what follows from the contracts of the three KEM functions together.  They do not
depend on the code; the code enters through the contracts."""
from terms import *
import prover
import spec


def vec(name, n):
    return [sym('%s[%d]' % (name, i), 8) for i in range(n)]


def agreement(P):
    """If the encryption layer recovers the message, decapsulation returns the key of the encapsulation: with the result of
    decryption replaced by the message, both keys are the same term, for every randomness."""
    r1, r2, z, r = vec('r1', 32), vec('r2', 32), vec('z', 32), vec('r', 32)
    pk, sk = spec.kem_keypair(P, r1, r2, z)
    ct, key = spec.kem_enc(P, r, pk)
    m = spec.hash_h(P, r)
    real = spec.indcpa_dec
    spec.indcpa_dec = lambda *a: list(m)
    try:
        got = spec.kem_dec(P, ct, sk)
    finally:
        spec.indcpa_dec = real
    return [('agreement: key byte %d' % i, a, b, 8) for i, (a, b) in enumerate(zip(got, key))]


def bound(P):
    """noise up to this bound is corrected"""
    return (1 << (P.ep - 2)) - (1 << (P.ep - P.et - 1))


def decoding(P):
    """One coefficient: with v the sender's value of the inner product and v + e the receiver's, the message bit comes back
    for every v, every bit and every noise e with -bound <= e <= bound."""
    w = P.ep
    v, e, b = sym('v', w), sym('e', w), sym('b', 1)
    cm = ext(add(w, sub(w, v, shlc(w, zext(b, w), w - 1)), P.h1v), w - P.et, P.et)
    m = ext(sub(w, add(w, add(w, v, e), P.h2), shlc(w, zext(cm, w), w - P.et)), w - 1, 1)
    B = bound(P)
    inside = ult(w, add(w, e, B), 2 * B + 1)
    return [('decoding: noise within [-%d, %d] never changes the bit' % (B, B), band(1, inside, bxor(1, m, b)), 0, 1)]


def sharp(P):
    """the bound is sharp: one more and some value decodes wrongly (a counterexample exists)"""
    B = bound(P)
    w = P.ep
    for e in (B + 1, -B - 1):
        bad = False
        for v in range(1 << w):
            cm = (v + P.h1v) % (1 << w) >> (w - P.et)
            m = (v + e + P.h2 - (cm << (w - P.et))) % (1 << w) >> (w - 1)
            bad |= m != 0
        assert bad, (P.key(), e)


def noise(P):
    """The noise is the difference of two inner products of the reported values: decryption of an encryption is the decoding
    above with v = <b, s'> and v + e = <b', s>, coefficient by coefficient."""
    m, seed, pk, sk = vec('m', 32), vec('seed', 32), vec('pk', P.indcpa_pk), vec('sk', P.indcpa_sk)
    ct = spec.indcpa_enc_def(P, m, seed, pk)
    got = spec.indcpa_dec_def(P, sk, ct)
    s1 = spec.gen_secret(P, seed)
    A = spec.gen_matrix(P, pk[P.pvc:])
    n = P.ep * spec.N // 8
    b = [spec.unpack(P.ep, pk[i * n:(i + 1) * n]) for i in range(P.k)]
    b1 = [spec.round_qp(P, x) for x in spec.matvec(P, A, s1, False)]
    b1 = [spec.unpack(P.ep, spec.pack(P.ep, x)) for x in b1]        # the same by the lemma on encodings
    n = P.polybytes
    s = [spec.unpack(P.eq, sk[i * n:(i + 1) * n]) for i in range(P.k)]
    send = [ext(x, 0, P.ep) for x in spec.dot(P.eq, b, s1)]
    recv = [ext(x, 0, P.ep) for x in spec.dot(P.eq, b1, s)]
    w = P.ep
    out = []
    for i, (x, y, t) in enumerate(zip(send, recv, spec.unpack(1, m))):
        cm = ext(add(w, sub(w, x, shlc(w, zext(t, w), w - 1)), P.h1v), w - P.et, P.et)
        out.append(ext(sub(w, add(w, y, P.h2), shlc(w, zext(cm, w), w - P.et)), w - 1, 1))
    return [('noise: message byte %d' % i, x, y, 8) for i, (x, y) in enumerate(zip(got, spec.pack(1, out)))]


def encodings(P):
    """decoding an encoding gives the coefficients back, and the other way round"""
    out = []
    for b in sorted({1, P.et, P.ep, P.eq}):
        x = [sym('x[%d]' % i, b) for i in range(spec.N)]
        y = vec('y', spec.N * b // 8)
        out += [('encodings: %d bits, coefficient %d' % (b, i), p, q, b) for i, (p, q) in enumerate(zip(spec.unpack(b, spec.pack(b, x)), x))]
        out += [('encodings: %d bits, byte %d' % (b, i), p, q, 8) for i, (p, q) in enumerate(zip(spec.pack(b, spec.unpack(b, y)), y))]
    return out


def run(params):
    """-> [(parameter set, label, status, back end)]"""
    res = []
    seen = set()
    for key in params:
        P = spec.params(*key)
        if key in seen:
            continue
        seen.add(key)
        sharp(P)
        for r in prover.prove_equal(agreement(P) + decoding(P) + encodings(P) + noise(P)):
            res.append((P.key(), r.label, r.status, r.method))
    return res


if __name__ == '__main__':
    import time
    t = time.time()
    ps = [(k, 13, False, n) for k in (2, 3, 4) for n in (False, True)] + [(k, 12, True, n) for k in (2, 3, 4) for n in (False, True)]
    rs = run(ps)
    print(len(rs), [x for x in rs if x[2] != 'proved'][:5], '%.1fs' % (time.time() - t))
