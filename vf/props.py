"""What each property quantifies over: configurations, root functions (whose call closure is verified) and the
kind of obligation that decides it."""

KEM = [('crypto_kem_keypair', ()), ('crypto_kem_enc', ()), ('crypto_kem_dec', ())]
CPA = [('indcpa_kem_keypair', ()), ('indcpa_kem_enc', ()), ('indcpa_kem_dec', ())]

REF = ('ref', 'uref')
AVX = ('avx', 'uavx')
HOST = REF + AVX
X4 = ('x4',)
M4 = ('m4',)
M0 = ('m0',)


def TOPS(c, P, want=()):
    if c.family == 'rng':
        return HIST
    return KEM if 'ct' in want or 'safety' in want else CPA + KEM


class Prop:
    def __init__(self, want, fams, roots, assumptions=(), level='proof', cond=None, own=False, lemmas=False):
        self.want = want
        self.fams = fams
        self._roots = roots
        self.assumptions = list(assumptions)
        self.level = level
        self.cond = cond
        self.own = own
        self.lemmas = lemmas

    def covers(self, c):
        return c.family in self.fams and (self.cond is None or self.cond(c))

    def roots(self, c, P):
        return self._roots(c, P)

    def relevant(self, x):
        if self.want == ('ct',):
            return x['kind'] == 'ct'
        return True


def r_arith(c, P):
    if c.family in REF:
        return [('poly_mul_acc', ()), ('MatrixVectorMul', (0,)), ('MatrixVectorMul', (1,)), ('InnerProd', ())]
    return CPA


def r_serial(c, P):
    if c.family in REF:
        return [(n, ()) for n in ('POLT2BS', 'BS2POLT', 'POLVECq2BS', 'BS2POLVECq', 'POLVECp2BS', 'BS2POLVECp', 'BS2POLmsg', 'POLmsg2BS')]
    return [('POLVEC2BS', (1 << P.eq,)), ('POLVEC2BS', (1 << P.ep,)), ('BS2POLVEC', (1 << P.eq,)), ('BS2POLVEC', (1 << P.ep,)),
            ('BS2POLq', ()), ('SABER_pack_%dbit' % P.et, ()), ('SABER_un_pack%dbit' % P.et, ()), ('POL2MSG', ())]


def r_sample(c, P):
    return ([] if c.uniform else [('cbd', ())]) + [('GenMatrix', ()), ('GenSecret', ())]


def r_sym(c, P):
    """every length the KEM uses, and the lengths around each block boundary up to two blocks (padding)"""
    around = lambda r, *x: sorted(set(n for b in (0, r, 2 * r) for n in (b - 1, b, b + 1) if n >= 0) | set(x))
    if c.nineties:
        # the AVX2 build takes SHA-256 and SHA-512 from OpenSSL
        h = [] if c.family in AVX else ([('sha256', (n,)) for n in around(64, 55, 56, 57, 119, 120, P.pk, P.ct, 32)]
                                        + [('sha512', (n,)) for n in around(128, 64, 111, 112, 113)])
        return [('saber_aes256ctr_prf', (n,)) for n in around(64, 15, 16, 17, 32, P.k * P.k * P.polybytes, P.k * P.coinbytes) if n] + h
    outs = around(168, 32, P.k * P.k * P.polybytes, P.k * P.coinbytes)
    return ([('shake128', (n, 32)) for n in outs if n] + [('shake128', (32, n)) for n in around(168)]
            + [('sha3_256', (n,)) for n in around(136, P.pk, P.ct, 32, 64)] + [('sha3_512', (n,)) for n in around(72, 64)])


HIST = [('vf_hist', (32, 16, 1)), ('vf_hist', (1, 17, 32)), ('vf_hist_seed', (16,)), ('vf_hist_reseed', (1, 16))]


def r_rng(c, P):
    lens = [0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 96]
    r = [('vf_seed', ()), ('vf_seed0', ()), ('vf_update', ()), ('vf_update0', ()), ('vf_expand_init', ()), ('vf_expand_null', (16, 8))] + HIST
    r += [('vf_random', (n,)) for n in lens]
    r += [('vf_expand', (p, n)) for p in (0, 1, 8, 15, 16) for n in sorted(set([0, 1, 16 - p, 17 - p, 32 - p, 33 - p, 40]))]
    if 'X4' in c.id:
        r += [('vf_random%d' % l, (n,)) for l in range(4) for n in (0, 1, 16, 32, 33)] + [('vf_seed_lane%d' % l, ()) for l in range(4)]
    return r


RND = 'randombytes returns arbitrary bytes and writes exactly the requested range'
HOSTED = 'sizes are those of the parameter set; all data bytes are arbitrary'

PQM4 = 'SHAKE-128 and SHA-3 come from pqm4, which is not part of the repository'
ARM = 'C code: clang-18 for armv7em (32-bit pointers); assembly: the object code arm-none-eabi-as makes, with the instruction semantics of vf/arm.py'

KF = 'KeccakF1600_StatePermute (src/asm_KeccakF-1600.S, taken over from the Keccak team) is the Keccak permutation on 25 lanes'
ARM0 = 'C code: clang-18 for armv6m (32-bit pointers)'

PROPS = {
    'C01': Prop(('post',), HOST, r_arith, [HOSTED], own=True),
    'C02': Prop(('post',), HOST, r_serial, [HOSTED], own=True),
    'C03': Prop(('post',), HOST, r_sample, [HOSTED], own=True),
    'C04': Prop(('post',), HOST, r_sym, [HOSTED], own=True),
    'C05': Prop(('post',), HOST, lambda c, P: CPA, [HOSTED, RND]),
    'C06': Prop(('post',), HOST, lambda c, P: [KEM[2]], [HOSTED, RND]),
    'C07': Prop(('ct',), HOST + X4, lambda c, P: KEM, [HOSTED, RND]),
    'C08': Prop(('safety',), HOST + X4, lambda c, P: KEM, [HOSTED, RND]),
    'C11': Prop(('post',), ('rng',), r_rng, ['OpenSSL computes AES-256 and its calls succeed', 'request lengths are 0 to 96 around the block boundaries; longer requests repeat the same loop']),
    'C10': Prop(('post',), X4, lambda c, P: KEM + CPA, [HOSTED, RND]),
    'C12': Prop(('post',), HOST, lambda c, P: KEM, [HOSTED, RND, 'that the decryption noise of an honest exchange exceeds its bound with negligible probability only'], lemmas=True),
    'C13': Prop(('post',), M4, lambda c, P: [('poly_mul', ()), ('poly_mul_acc', ())] + CPA + KEM, [HOSTED, RND, PQM4, ARM], own=True),
    'C14': Prop(('safety', 'ct'), M4, lambda c, P: KEM, [HOSTED, RND, PQM4, ARM]),
    'C15': Prop(('post',), M0, lambda c, P: [('pol_mul', ())] + CPA + KEM, [HOSTED, RND, KF, ARM0, 'that the decryption noise of an honest exchange exceeds its bound with negligible probability only'], own=True, lemmas=True),
    'C16': Prop(('safety', 'ct'), M0, lambda c, P: KEM, [HOSTED, RND, KF, ARM0]),
    'C09': Prop(('post',), HOST, lambda c, P: [KEM[0], KEM[1]], [HOSTED, RND]),
}
