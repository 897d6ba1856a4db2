"""Validation of the specification against published test vectors: it runs at the start of every check, so that
the contracts are stated against the right functions."""
import hashlib
import json
import os
import spec

HERE = os.path.dirname(os.path.abspath(__file__))


class DRBG:
    """NIST AES256-CTR-DRBG of the KAT generator"""

    def __init__(self, seed):
        self.K, self.V = [0] * 32, 0
        self.update(seed)

    def block(self):
        self.V = (self.V + 1) % (1 << 128)
        return spec.aes256(self.K, list(self.V.to_bytes(16, 'big')))

    def update(self, data=None):
        t = self.block() + self.block() + self.block()
        if data:
            t = [a ^ b for a, b in zip(t, data)]
        self.K, self.V = t[:32], int.from_bytes(bytes(t[32:]), 'big')

    def bytes(self, n):
        o = []
        while len(o) < n:
            o += self.block()
        self.update()
        return o[:n]


def digest(x):
    return hashlib.sha256(bytes(x)).hexdigest()


def run(full=False):
    m = b'abc' * 100
    assert bytes(spec.shake128(list(m), 500)) == hashlib.shake_128(m).digest(500)
    assert bytes(spec.shake256(list(m), 500)) == hashlib.shake_256(m).digest(500)
    assert bytes(spec.sha3_256(list(m))) == hashlib.sha3_256(m).digest()
    assert bytes(spec.sha3_512(list(m))) == hashlib.sha3_512(m).digest()
    assert bytes(spec.sha2(32, list(m))) == hashlib.sha256(m).digest()
    assert bytes(spec.sha2(64, list(m))) == hashlib.sha512(m).digest()
    assert bytes(spec.aes256(list(range(32)), [0x11 * i for i in range(16)])).hex() == '8ea2b7ca516745bfeafc49904b496089'
    with open(os.path.join(HERE, 'kat.json')) as f:
        K = json.load(f)
    for v in K if full else K[:3]:
        P = spec.params(*v['params'])
        d = DRBG(list(bytes.fromhex(v['seed'])))
        pk, sk = spec.kem_keypair(P, d.bytes(32), d.bytes(32), d.bytes(32))
        assert digest(pk) == v['pk'] and digest(sk) == v['sk'], v
        ct, ss = spec.kem_enc(P, d.bytes(32), pk)
        assert digest(ct) == v['ct'] and bytes(ss).hex() == v['ss'], v
        assert bytes(spec.kem_dec(P, ct, sk)).hex() == v['ss'], v


if __name__ == '__main__':
    run(True)
    print('specification agrees with the test vectors')
