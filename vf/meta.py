"""Writes properties.jsonl and MANIFEST.json (run by hand when the set of properties changes)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFD = 'Reference_Implementation_KEM'
AVXD = 'AVX_Implementation_KEM'
UREF = 'Variants/uSaber-90s/ref'
UAVX = 'Variants/uSaber-90s/avx2'
HOST = [REFD, AVXD, UREF, UAVX]
X4D = 'Variants/SaberX4_avx2'
M4S = 'Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding'
M4T = 'Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-tc4kara'
M4 = [M4S, M4T]
M0 = 'Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src'


def f(dirs, names):
    return [d + '/' + n for d in dirs for n in names]


M4NOTE = ('Proof over all data values, function by function: C through clang IR for a 32-bit ARM target, assembly through the object code arm-none-eabi-as makes of it, executed symbolically '
          'by vf/arm.py; assembly routines have contracts like C functions. Trusted besides: the instruction semantics in vf/arm.py. Assumed: pqm4\'s SHAKE-128 and SHA-3 (not in the repository), randombytes yields arbitrary bytes. '
          'Counterexamples are replayed on a native build of the C files or, for assembly, by executing the object code instruction by instruction.')


M0NOTE = ('Proof over all data values, function by function, from clang IR for armv6m (32-bit pointers). Assumed: the assembly permutation KeccakF1600_StatePermute (taken over from the Keccak team) is Keccak-f[1600] '
          'on the caller\'s 25 words; randombytes (a driver of the XMC1100 generator) yields arbitrary bytes. Counterexamples are replayed on a native build of the C files.')


def mech(*xs):
    return [{'name': a, 'where': b} for a, b in xs]


PROPS = [
 dict(id='C01', title='Ring arithmetic is exact for every operand',
  statement='In the reference, AVX2 and uSaber/90s implementations, matrix-vector and inner products of polynomials in Z_q[X]/(X^256+1) are exact modulo q for every value of every coefficient, whatever Toom-Cook, Karatsuba or schoolbook shortcut computes them. Accumulation into a non-zero result and the transposed product are exact as well.',
  over=['inputs', 'configurations'], text='every coefficient value of every operand; LightSaber, Saber, FireSaber; q=2^13 and q=2^12',
  why='The tests multiply a few hundred pseudorandom operands with small secrets; an interpolation slip that needs extreme or rare coefficients is never sampled.',
  files=[REFD + '/poly_mul.c', REFD + '/poly.c', AVXD + '/polymul/toom-cook_4way.c', AVXD + '/polymul/scm_avx.c', AVXD + '/polymul/matrix.c', AVXD + '/SABER_indcpa.c', UREF + '/poly_mul.c', UREF + '/poly.c', UAVX + '/polymul/toom-cook_4way.c', UAVX + '/SABER_indcpa.c'],
  m=mech(('Toom-Cook-4 with Karatsuba', REFD + '/poly_mul.c'), ('matrix-vector and inner product', REFD + '/poly.c'), ('vectorised Toom-Cook', AVXD + '/polymul/toom-cook_4way.c'))),
 dict(id='C02', title='Byte encodings are the specified bit layout for every polynomial',
  statement='Every serialisation of polynomials, vectors and messages is the little-endian bit concatenation of the low bits of each coefficient, and every deserialisation is its exact inverse, for every coefficient value and every byte string. Keys, ciphertexts and messages therefore have one encoding, shared by all implementations.',
  over=['inputs', 'configurations'], text='every coefficient value and every byte string, for the 1-, 3-, 4-, 6-, 10-, 12- and 13-bit encodings',
  why='Known answers exercise encodings only on well-formed, in-range values from honest runs; stray upper bits or particular field positions are not covered.',
  files=f(HOST, ['pack_unpack.c']), m=mech(('packers', REFD + '/pack_unpack.c'), ('packers (AVX2)', AVXD + '/pack_unpack.c'))),
 dict(id='C03', title='Noise sampling and matrix expansion follow the specification',
  statement='Expanding a seed gives the public matrix as consecutive q-bit fields of the extendable-output stream, and the secret as centred-binomial (or, for uSaber, uniform 2-bit) values of the stream, for every seed and every stream content. Every secret coefficient lies in the range the parameter set allows.',
  over=['inputs', 'configurations'], text='every seed and every buffer of pseudorandom bytes; all parameter sets',
  why='The distribution of a sampler is a statement about all 2^(mu*256) buffers; the tests see a few hundred.',
  files=f(HOST, ['cbd.c', 'SABER_indcpa.c']) + [REFD + '/poly.c', UREF + '/poly.c'],
  m=mech(('binomial sampler', REFD + '/cbd.c'), ('matrix expansion', REFD + '/poly.c'), ('AVX2 expansion', AVXD + '/SABER_indcpa.c'))),
 dict(id='C04', title='Symmetric primitives equal their standards on every input',
  statement='The SHA-3 hashes and the extendable-output function (and, in the 90s variants, SHA-2 and AES-256 in counter mode) return exactly the standardised function of their input, for every content at every length the schemes use, including when output and input are the same buffer.',
  over=['inputs', 'configurations'], text='every message content at the lengths the KEM uses and at block-boundary lengths',
  why='A permutation or padding error limited to some lane values or block positions survives the fixed known-answer vectors.',
  files=f(HOST, ['fips202.c']) + [UREF + '/aes256ctr.c', UREF + '/sha256.c', UREF + '/sha512.c', UAVX + '/crypto_stream_aes256ctr.c', UAVX + '/symmetric-aes.c'],
  m=mech(('Keccak sponge', REFD + '/fips202.c'), ('bitsliced AES', UREF + '/aes256ctr.c'))),
 dict(id='C05', title='Public-key encryption layer equals the Saber specification',
  statement='Key generation, encryption and decryption of the underlying public-key encryption scheme return exactly the bytes the Saber specification defines for their seeds, message and keys. This holds for every byte string passed as key, seed, message or ciphertext, including ones no honest party produces.',
  over=['inputs', 'configurations'], text='every value of every input byte; all parameter sets; reference, AVX2, uSaber and 90s implementations',
  why='Only honest key pairs and ciphertexts are tested; malformed public keys, arbitrary ciphertexts and unreduced secret keys are inputs of the same functions.',
  files=f(HOST, ['SABER_indcpa.c']), m=mech(('encryption layer', REFD + '/SABER_indcpa.c'), ('AVX2 encryption layer', AVXD + '/SABER_indcpa.c'))),
 dict(id='C06', title='Decapsulation is specified for every ciphertext: implicit rejection',
  statement='For every secret key and every ciphertext, decapsulation returns success and the shared secret the specification defines: the honest key if re-encryption reproduces the ciphertext in every bit, otherwise the hash of the stored secret value and the ciphertext. No single altered bit of a ciphertext is ever accepted, and the result does not depend on earlier calls.',
  over=['inputs', 'histories', 'configurations'], text='every ciphertext and secret key byte string, any prior calls; all parameter sets',
  why='No test decapsulates a corrupted ciphertext, so the rejection path and the completeness of the comparison are never executed.',
  files=f(HOST, ['kem.c', 'verify.c', 'SABER_indcpa.c']), m=mech(('re-encryption check', REFD + '/kem.c'), ('constant-time compare and move', REFD + '/verify.c'))),
 dict(id='C07', title='Constant time: control flow and addresses never depend on secrets',
  statement='In key generation, encapsulation and decapsulation no branch condition, loop count, memory address or variable-latency division operand depends on secret data (secret key, message, randomness, derived keys, or whether a ciphertext was rejected).',
  over=['inputs', 'configurations'], text='every pair of secrets; all host implementations (reference, AVX2, uSaber, 90s, four-way) and parameter sets',
  why='Functional tests observe outputs only; timing behaviour is a relation between pairs of executions over all secrets.',
  files=f(HOST + [X4D], ['kem.c', 'verify.c', 'SABER_indcpa.c', 'pack_unpack.c', 'cbd.c', 'fips202.c']) + f([X4D], ['kem4x.c', 'fips202x4.c']), m=mech(('branch-free compare and move', REFD + '/verify.c'), ('KEM', REFD + '/kem.c'))),
 dict(id='C08', title='Memory safety and no undefined behaviour for any input',
  statement='For every input, key generation, encapsulation and decapsulation access only the exact extents of the caller\'s buffers and their own objects, never modify an input buffer, never read uninitialised data into a result, never assume more alignment than the types promise, and perform no undefined arithmetic. Nothing outside the documented outputs is written.',
  over=['inputs', 'configurations'], text='every content of every buffer at any byte alignment; all host implementations (reference, AVX2, uSaber, 90s, four-way) and parameter sets',
  why='Tests run on oversized, aligned stack buffers without sanitizers; a read or write just outside an extent, or a value-dependent overflow, passes unnoticed.',
  files=f(HOST + [X4D], ['kem.c', 'SABER_indcpa.c', 'pack_unpack.c', 'fips202.c', 'cbd.c', 'verify.c']) + f([X4D], ['kem4x.c', 'fips202x4.c', 'keccak4x/KeccakP-1600-times4-SIMD256.c']), m=mech(('fixed buffer sizes', REFD + '/SABER_params.h'), ('KEM', REFD + '/kem.c'))),
 dict(id='C09', title='Key generation and encapsulation equal the specification everywhere',
  statement='For every value of the random bytes and every public key byte string, key generation and encapsulation return success and exactly the key pair, ciphertext and shared secret the specification defines; the random bytes drawn are exactly those the specification draws. Hence the reference, AVX2 and variant implementations of one parameter set interoperate bit for bit.',
  over=['inputs', 'configurations'], text='every randomness and every public key; all parameter sets and host implementations',
  why='One hundred known-answer randomness values per parameter set cannot show agreement for the rest, nor for public keys not made by this code.',
  files=f(HOST, ['kem.c', 'SABER_indcpa.c']), m=mech(('KEM', REFD + '/kem.c'), ('AVX2 KEM', AVXD + '/kem.c'))),
 dict(id='C10', title='The four-way implementation equals four independent Saber instances',
  statement='Each call of the four-way parallel key generation, encapsulation and decapsulation returns, in every lane, exactly what the Saber specification defines for that lane\'s randomness, keys and ciphertext alone. This holds for every content of all lanes, including lanes whose ciphertext is rejected next to lanes whose ciphertext is accepted.',
  over=['inputs'], text='every content of every lane; honest and malformed keys and ciphertexts in any combination',
  why='The only test of this variant runs honest exchanges and compares the two sides with each other: a shared deviation from Saber, cross-talk between lanes or a wrong rejection passes.',
  files=f([X4D], ['kem.c', 'kem4x.c', 'SABER_indcpa.c', 'pack_unpack.c', 'fips202x4.c', 'verify.c', 'cbd.c', 'keccak4x/KeccakP-1600-times4-SIMD256.c', 'polymul/toom-cook_4way.c']),
  m=mech(('four-way KEM', X4D + '/kem4x.c'), ('four-way encryption layer', X4D + '/SABER_indcpa.c'), ('four-way Keccak', X4D + '/fips202x4.c'))),
 dict(id='C11', title='Random byte generation is the AES-256 CTR_DRBG from every state',
  statement='From every generator state (key, counter, reseed count) seeding, every request and every sequence of requests return exactly the output and the next state of the SP 800-90A CTR_DRBG with AES-256, without derivation function: the whole 128-bit counter is incremented, no output block is repeated, and each call ends with a fresh key. The seed expander returns exactly its AES-256 stream and refuses requests beyond its limit; the four-way variant\'s further generators behave the same and share no state.',
  over=['inputs', 'histories', 'configurations'], text='every key, counter, seed and personalisation string, any earlier calls; request lengths 0 to 96 around the block boundaries',
  why='Known answers start from one seed per run: counter carries beyond the last byte or two, states with special values and particular request sequences never occur.',
  files=f(HOST + [X4D], ['rng.c', 'rng.h']), m=mech(('CTR_DRBG and seed expander', REFD + '/rng.c'), ('further generators', X4D + '/rng.c')),
  note='Proof over all states and contents at the listed request lengths (each length a verification unit of its own; the contract of AES256_ECB is proved against the OpenSSL interface, whose AES-256 is assumed). Ghost wrappers in vf/ghost make the file-scope state an argument. Trusted: clang-18 front end, vf/symex.py, the back ends, the specification.'),
 dict(id='C12', title='Honest exchanges agree on the key whenever the noise is within bound',
  statement='For every randomness of key generation and encapsulation, in any history of calls, decapsulation of an encapsulated ciphertext returns the encapsulated key whenever each coefficient of the decryption noise is at most 2^8-2^(9-t) in absolute value (t the bits of the compressed coefficients); the key pair, the ciphertext and the two keys may come from different implementations of the parameter set.',
  over=['inputs', 'histories', 'configurations'], text='every randomness and key pair; all parameter sets; reference, AVX2, uSaber and 90s implementations in any combination',
  why='Tests run some hundreds of honest exchanges within one implementation; a disagreement that needs particular noise, message or key values, or particular earlier calls, is not met.',
  files=f(HOST, ['kem.c', 'SABER_indcpa.c']), m=mech(('KEM', REFD + '/kem.c'), ('rounding constants', REFD + '/SABER_indcpa.c')),
  note='The contracts of the three KEM functions are proved as for C06 and C09; agreement is a lemma over them (vf/lemmas.py): decoding is correct for all values and all noise within the bound, decryption of an encryption is that decoding, and re-encryption then reproduces the ciphertext. How likely the noise exceeds the bound is not decided. Trusted and assumed as for C09.'),
 dict(id='C13', title='The Cortex-M4 implementations equal the Saber specification',
  statement='Both Cortex-M4 implementations (memory-efficient in-place Karatsuba with striding Toom-Cook, and speed-optimised Toom-Cook with Karatsuba, their assembly included) return from key generation, encapsulation and decapsulation exactly what the Saber specification defines, for every value of the random bytes, keys and ciphertexts. In particular their ring products are exact for every operand, and the in-place re-encryption comparison accepts a ciphertext only if it is reproduced in every bit.',
  over=['inputs', 'configurations'], text='every randomness, key and ciphertext byte string; LightSaber, Saber, FireSaber; both variants',
  why='The repository has no test of these implementations that runs without a board; a wrong register in an unrolled product or a comparison that skips bytes would show only on particular inputs.',
  files=f(M4, ['kem.c', 'SABER_indcpa.c', 'poly.c', 'poly_mul.c', 'pack_unpack.c', 'cbd.c', 'verify.c']) + [M4S + '/kara.s', M4T + '/asm_funcs.S', M4T + '/mult_toom4_256_16.s'],
  m=mech(('in-place re-encryption comparison', M4S + '/SABER_indcpa.c'), ('Toom-Cook in assembly', M4T + '/mult_toom4_256_16.s'), ('Karatsuba in assembly', M4S + '/kara.s')), note=M4NOTE),
 dict(id='C14', title='Cortex-M4 code is constant time, memory safe, free of undefined behaviour',
  statement='For every input, key generation, encapsulation and decapsulation of both Cortex-M4 implementations access only the extents of the caller\'s buffers and their own objects and stack, perform no undefined arithmetic, keep the calling convention in assembly, and let no branch, memory address or division depend on secret data.',
  over=['inputs', 'configurations'], text='every content of every buffer and every pair of secrets; LightSaber, Saber, FireSaber; both variants',
  why='Nothing here executes this code, and on a board an access a few bytes outside an object, a clobbered register or a timing difference goes unnoticed by functional tests.',
  files=f(M4, ['kem.c', 'SABER_indcpa.c', 'poly.c', 'poly_mul.c', 'pack_unpack.c', 'cbd.c', 'verify.c']) + [M4S + '/kara.s', M4T + '/asm_funcs.S', M4T + '/mult_toom4_256_16.s'],
  m=mech(('branch-free compare and move', M4S + '/verify.c'), ('Toom-Cook in assembly', M4T + '/mult_toom4_256_16.s'), ('Karatsuba in assembly', M4S + '/kara.s')), note=M4NOTE),
 dict(id='C15', title='The Cortex-M0 implementation computes its Saber exactly, histories included',
  statement='The memory-optimised Cortex-M0 implementation (k=3, the parameter set before a rounding constant was added to v\': the compressed ciphertext part is truncated, decoding adds 2^8-2^5) returns from key generation, encapsulation and decapsulation exactly what that scheme defines, for every value of the random bytes, keys and ciphertexts and whatever was called before, although matrix and secret are expanded piecemeal through static state. Honest exchanges whose noise is at most 224 agree, and a ciphertext that re-encryption does not reproduce in every bit is rejected implicitly.',
  over=['inputs', 'histories'], text='every randomness, key and ciphertext byte string, any previous calls',
  why='No test of this implementation runs without a board; left-over bytes of the streamed expansion, carried in static variables, or rare coefficient values would not be sampled.',
  files=f([M0], ['kem.c', 'SABER_indcpa.c', 'poly.c', 'poly_mul.c', 'pack_unpack.c', 'cbd.c', 'encode.c', 'verify.c', 'fips202.c']),
  m=mech(('streamed expansion of the matrix', M0 + '/SABER_indcpa.c'), ('in-memory Karatsuba', M0 + '/poly_mul.c'), ('branch-free decoding', M0 + '/encode.c')), note=M0NOTE),
 dict(id='C16', title='Cortex-M0 code is constant time, memory safe, free of undefined behaviour',
  statement='For every input, key generation, encapsulation and decapsulation of the Cortex-M0 implementation access only the extents of the caller\'s buffers and their own objects, perform no undefined arithmetic, and let no branch, memory address or division depend on secret data.',
  over=['inputs'], text='every content of every buffer and every pair of secrets',
  why='Nothing here executes this code, and on a board an access past an object or a timing difference goes unnoticed by functional tests.',
  files=f([M0], ['kem.c', 'SABER_indcpa.c', 'poly.c', 'poly_mul.c', 'pack_unpack.c', 'cbd.c', 'encode.c', 'verify.c', 'fips202.c']),
  m=mech(('message decoding', M0 + '/encode.c'), ('streamed expansion of the matrix', M0 + '/SABER_indcpa.c')), note=M0NOTE),
]

TECH = 'contract-based deductive verification (symbolic VCs from clang IR of the real code; normal form, polynomial ring mod 2^k, truth tables, z3)'
NOTE = ('Proof over all data values at the parameter set\'s sizes: every function in the call closure is checked against its contract, callers against callee contracts. '
        'Trusted: clang-18 front end, the IR semantics in vf/symex.py, the back ends, the specification (validated against known answers on every run). Assumed: randombytes yields arbitrary bytes.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as g:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            for x in p['files'] + [m['where'] for m in p['m']]:
                if not os.path.exists(os.path.join('/repo', x)):
                    print('missing', x)
            g.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': [x for x in p['files'] if os.path.exists(os.path.join('/repo', x))], 'mechanism': p['m']}}) + '\n')
    na = [p for p in PROPS if p.get('na')]
    man = {'version': 1, 'setup_cmd': 'python3-vt vf/selftest.py',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt vf/check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3-vt vf/check.py %s --tier thorough' % p['id'],
                       'technique': p.get('tech', TECH), 'level': p.get('level', 'proof'), 'level_note': p.get('note', NOTE)} for p in PROPS if not p.get('na')],
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in na],
           'notes': 'No hooks: the checks read the unmodified sources. Every check rebuilds the IR from the working tree.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as g:
        json.dump(man, g, indent=1)
        g.write('\n')


main()
