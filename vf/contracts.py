"""Contracts: for each function, its parameters (extent, element width, direction, value range), its
result as a function of its inputs (postcondition) and, implicitly, its frame (nothing else is written,
'in' buffers are read only, only 'out'/'inout' buffers change).

At a call site the contract replaces the body; every contract instance used that way (function, sizes,
aliasing of its pointer arguments) is itself an obligation: the body is executed symbolically from
arbitrary inputs and has to produce the stated result."""
from terms import *
import terms as TM
import spec
from spec import N
import copy
import re
import symex
import ir


class Buf:
    def __init__(self, name, ew, n, mode, bits=None, align=None):
        self.name = name
        self.ew = ew
        self.n = n              # element count: int or function(P, ints)
        self.mode = mode        # in | out | inout
        self.bits = bits        # requires: values below 2^bits (None: any)
        self.align = align

    def count(self, P, ints):
        return self.n(P, ints) if callable(self.n) else self.n

    def nbits(self, P):
        b = self.bits(P) if callable(self.bits) else self.bits
        return self.ew if b is None else b


class Int:
    def __init__(self, name, values=None, w=None):
        self.name = name
        self.values = values      # 'bool': symbolic 0/1 allowed; 'w16': any 16-bit value


class Low:
    """result known modulo 2^bits only; the upper bits are unspecified"""

    def __init__(self, bits, vals):
        self.bits = bits
        self.vals = vals


class NS:
    pass


class Contract:
    def __init__(self, name, params, call, defn=None, ret=None, hard=False, prop=None, pre=None, draws=False, stream=None):
        self.name = name
        self.params = params
        self.call = call
        self.defn = defn or call
        self.ret = ret          # width of the result, None: void
        self.hard = hard        # part of the public behaviour: a deviation is not excused by the callers
        self.pre = pre          # function(P, ints) -> bool: sizes the contract covers
        self.draws = draws
        self.lanes = 1          # independent instances, back to back in each buffer

    def ints(self, args):
        return {p.name: a for p, a in zip(self.params, args) if isinstance(p, Int)}


def ok_sig(c, tys):
    if len(tys) != len(c.params):
        return False
    for p, t in zip(c.params, tys):
        if isinstance(p, Buf) != (t[0] == 'ptr'):
            return False
        if isinstance(p, Int) and t[0] != 'i':
            return False
    return True


class Globals(tuple):
    """precondition on globals: ((name, ((offset, value, size), ...)), ...)"""

    def __str__(self):
        return 'with %d constant globals' % len(self)


class Inapplicable(Exception):
    pass


def buf_reader(X, c, p, ptr, n, P):
    o = X.st.objs.get(ptr.obj)
    es = p.ew // 8
    vals = []
    bits = p.nbits(P)
    for i in range(n):
        v = X.gather(X.st.objs[ptr.obj], ptr.off + i * es, es)
        if bits < p.ew:
            if v.__class__ is int:
                if v >> bits:
                    raise Inapplicable('range of ' + p.name)
            elif ext(v, bits, p.ew - bits) != 0:
                raise Inapplicable('range of ' + p.name)
        vals.append(v)
    return vals


class Hook:
    """applies contracts at call sites and records the instances used"""

    def __init__(self, cfg, P, table, inline=(), externals=None):
        self.cfg = cfg
        self.P = P
        self.table = table
        self.inline = set(inline)
        self.instances = {}
        self.ext = externals or {}
        self.assumed = set()
        self.skipped = {}
        self.gm = {}
        self.ctxs = {}

    def __call__(self, X, fn, args, tys, retty, line):
        name = fn.name[1:]
        e = self.ext.get(name)
        if e is not None:
            r = e(self, X, args, tys, line)
            if r is not NotImplemented:
                self.assumed.add(name)
                return True, r
        c = self.table.get(name)
        if c is None or name in self.inline:
            return False, None
        f = X.prog.func(fn.name, fn.mod)
        if f is None:
            return False, None
        try:
            return True, self.apply(X, c, f, args, tys, line)
        except Inapplicable as ex:
            self.skipped[name] = str(ex)
            return False, None

    def apply(self, X, c, f, args, tys, line):
        P = self.P
        if not ok_sig(c, tys):
            raise Inapplicable('signature')
        ints = {}
        key = []
        for p, a in zip(c.params, args):
            if isinstance(p, Int):
                if a.__class__ is not int and p.values is None:
                    raise Inapplicable('symbolic ' + p.name)
                if p.values == 'bool':
                    if urange(a)[1] > 1 if a.__class__ is not int else a > 1:
                        raise Inapplicable('range of ' + p.name)
                    key.append('bool')
                elif p.values:
                    key.append(p.values)
                else:
                    key.append(a)
                ints[p.name] = a
        if c.pre and not c.pre(P, ints):
            raise Inapplicable('size')
        # extents, permissions, aliasing
        ext_ = []
        for p, a in zip(c.params, args):
            if not isinstance(p, Buf):
                continue
            if a.__class__ is not symex.Ptr or a.off.__class__ is not int:
                raise Inapplicable('pointer')
            o = X.st.objs.get(a.obj)
            n = p.count(P, ints)
            size = n * p.ew // 8
            if o is None or a.off < 0 or a.off + size > o.size:
                raise Inapplicable('extent of ' + p.name)
            if p.mode != 'in' and not o.w:
                raise Inapplicable('frame')
            al = p.align or p.ew // 8
            if al > 1 and (o.align % al or a.off % al):
                raise Inapplicable('alignment of ' + p.name)
            ext_.append((p, a, n, size))
        alias = alias_of(ext_)
        a_ = NS()
        a_.P = P
        for k, v in ints.items():
            setattr(a_, k, v)
        for p, a, n, size in ext_:
            if p.mode != 'out':
                setattr(a_, p.name, buf_reader(X, c, p, a, n, P))
        a_.draw = lambda n, s=0: draw(X, n, s)
        for p, a, n, size in ext_:
            X.count('bounds', 1)
        G = self.context(X, c, f)
        if G:
            key.append(G)
        out = c.call(P, a_)
        for p, a, n, size in ext_:
            if p.mode == 'in':
                continue
            v = out[p.name]
            es = p.ew // 8
            o, _ = X.acc(a, size, line, True)
            if isinstance(v, Low):
                vals = []
                for x in v.vals:
                    if v.bits == 0:
                        vals.append(X.fresh('any', p.ew))
                    elif v.bits == p.ew:
                        vals.append(x)
                    else:
                        vals.append(cat([(ext(x, 0, v.bits) if x.__class__ is not int else x & M(v.bits), v.bits),
                                         (X.fresh('any', p.ew - v.bits), p.ew - v.bits)]))
            else:
                vals = v
            assert len(vals) == n, (c.name, p.name, len(vals), n)
            for i, x in enumerate(vals):
                X.put(o, a.off + i * es, x, es)
        for g in self.globals_of(X, f)[1]:
            havoc_global(X, g)
        self.instances[(c.name, tuple(key), alias)] = f
        X.count('call')
        return out.get('ret')

    def globals_of(self, X, f):
        r = self.gm.get(id(f))
        if r is None:
            r = self.gm[id(f)] = mutable_globals(X.prog, f), written_globals(X.prog, f)
        return r

    def context(self, X, c, f):
        """the constants that the globals the callee mentions hold at this call: a precondition of the instance"""
        out = []
        for g in sorted(self.globals_of(X, f)[0]):
            o = X.st.objs.get(X.globs.get(g))
            if o is None:
                if X.globs.get(g) is None and g in X.gvals:
                    out.append((g, X.gvals[g]))
                continue
            cells = tuple(sorted((off, v, n) for off, (v, n) in o.cells.items() if v.__class__ is int))
            if cells:
                out.append((g, cells))
        if not out:
            return None
        G = Globals(out)
        l = self.ctxs.setdefault(c.name, [])
        if G not in l:
            if len(l) >= 4:
                return None
            l.append(G)
        return G


def alias_of(ext_):
    """partition of the pointer arguments; raises if ranges overlap without starting together"""
    groups = []
    for p, a, n, size in ext_:
        for g in groups:
            if g[0] == a.obj and g[1] == a.off:
                g[3].append(p.name)
                g[2] = max(g[2], size)
                break
        else:
            groups.append([a.obj, a.off, size, [p.name]])
    modes = {p.name: p.mode for p, a, n, size in ext_}
    for i, g in enumerate(groups):
        for h in groups[:i]:
            if g[0] == h[0] and g[1] < h[1] + h[2] and h[1] < g[1] + g[2]:
                if any(modes[x] != 'in' for x in g[3] + h[3]):
                    raise Inapplicable('overlapping arguments')
    return tuple(tuple(g[3]) for g in groups if len(g[3]) > 1 and any(modes[x] != 'in' for x in g[3]))


def draw(X, n, stream=0):
    d = getattr(X, 'draws', None)
    if d is None:
        d = X.draws = {}
    k = d.get(stream, 0)
    d[stream] = k + 1
    tag = 'rnd%d' % k if not stream else 'rnd%s_%d' % (stream, k)
    return [sym('%s[%d]' % (tag, i), 8) for i in range(n)]


def mutable_globals(prog, f):
    """keys of the mutable globals that f and its callees mention"""
    seen = set()
    out = set()
    st = [f]
    while st:
        f = st.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        for name in f.refs():
            g = prog.glob(name, f.mod)
            if g is not None:
                if not g[2][2]:
                    out.add(g[0])
                continue
            h = prog.func(name, f.mod)
            if h is not None:
                st.append(h)
    return out


def written_globals(prog, f):
    """those of them that may be written: every mention that is not a direct load counts"""
    seen = set()
    out = set()
    st = [f]
    while st:
        f = st.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        w = getattr(f, '_wrefs', None)
        if w is None:
            w = f._wrefs = set(re.findall(r'@(?:[-\w.$]+|"[^"]*")', re.sub(r'= load (?:<[^>]*>|\w+), ptr @[-\w.$]+', '', f.text)))
        for name in f.refs():
            g = prog.glob(name, f.mod)
            if g is not None:
                if not g[2][2] and name in w:
                    out.add(g[0])
                continue
            h = prog.func(name, f.mod)
            if h is not None:
                st.append(h)
    return out


def havoc_global(X, key):
    oid = X.globs.get(key)
    if oid is None:
        return
    o = X.st.objs.get(oid)
    if o is None or not o.w:
        return
    if o.epoch != X.st.epoch:
        o = o.clone(X.st.epoch)
        X.st.objs[oid] = o
    for off, (v, n) in list(o.cells.items()):
        if v.__class__ is symex.Ptr:
            continue
        o.cells[off] = (X.fresh('glob:' + key, n * 8), n)


# ---------------------------------------------------------------- the contracts

def b8(name, n, mode):
    return Buf(name, 8, n, mode)


def c16(name, n, mode, bits=None, align=None):
    return Buf(name, 16, n, mode, bits, align)


def z16(vals):
    return [zext(v, 16) if v.__class__ is not int else v for v in vals]


def flat(x):
    return [z for y in x for z in y]


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


def lenf(name):
    return lambda P, i: i[name]


def keccakf_contract(name='KeccakF1600_StatePermute'):
    return Contract(name, [Buf('state', 64, 25, 'inout')],
                    lambda P, a: {'state': spec.keccakf(a.state)},
                    lambda P, a: {'state': spec.DEF['keccakf'](a.state)})


def xof(name, f):
    return Contract(name, [b8('out', lenf('outlen'), 'out'), Int('outlen'), b8('in_', lenf('inlen'), 'in'), Int('inlen')],
                    lambda P, a: {'out': f(a.in_, a.outlen)}, hard=True)


def hashc(name, f, n):
    return Contract(name, [b8('out', n, 'out'), b8('in_', lenf('inlen'), 'in'), Int('inlen')],
                    lambda P, a: {'out': f(a.in_)}, hard=True)


def blocksc(name, w):
    """SHA-2 compression over the whole blocks of in_; the state is big-endian bytes; returns the bytes left over"""
    n = w // 8

    def call(P, a):
        st = [spec.be_word(c) for c in chunks(a.state, n)]
        for i in range(a.inlen // (16 * n)):
            st = spec.sha2c(w, st, a.in_[16 * n * i:16 * n * (i + 1)])
        return {'state': flat(list(reversed(spec.bytes_of(x, n))) for x in st), 'ret': a.inlen % (16 * n)}
    return Contract(name, [Buf('state', 8, 8 * n, 'inout'), b8('in_', lenf('inlen'), 'in'), Int('inlen')],
                    call, ret=32)


def sha2_contracts():
    return [hashc('sha256', lambda d: spec.sha2(32, d), 32), hashc('sha512', lambda d: spec.sha2(64, d), 64),
            blocksc('crypto_hashblocks_sha256', 32), blocksc('crypto_hashblocks_sha512', 64)]


# AES in bit-sliced form: bit i of byte 4c+j of block b is bit LANE(b, 4c+j) of word i
def LANE(b, n):
    c, j = divmod(n, 4)
    return 8 * (2 * j + (c >= 2)) + b + 4 * (c & 1)


def slice_words(bytes_):
    """bytes_[b][n] -> 8 words"""
    pos = {LANE(b, n): bytes_[b][n] for b in range(4) for n in range(16)}
    return [cat([(ext(pos[p], i, 1), 1) for p in range(64)]) for i in range(8)]


def unslice(words, b):
    return [cat([(ext(words[i], LANE(b, n), 1), 1) for i in range(8)]) for n in range(16)]


def aes_bitsliced():
    cs = []

    def sb(P, a):
        out = [spec.sbox(cat([(ext(a.q[i], p, 1), 1) for i in range(8)])) for p in range(64)]
        return {'q': [cat([(ext(o, i, 1), 1) for o in out]) for i in range(8)]}
    cs.append(Contract('br_aes_ct64_bitslice_Sbox', [Buf('q', 64, 8, 'inout')], sb))

    def init(ks):
        def f(P, a):
            rk = ks(a.key)
            return {'sk_exp': flat(slice_words([rk[16 * r:16 * r + 16]] * 4) for r in range(15))}
        return f
    cs.append(Contract('br_aes_ct64_ctr_init', [Buf('sk_exp', 64, 120, 'out'), b8('key', 32, 'in')], init(spec.aes256_ks), init(spec.aes256_ks_def)))
    memo = {}

    def ctr(P, a, rounds=spec.aes256_rounds):
        k = tuple(a.sk_exp)
        rks = memo.get(k)
        if rks is None:
            rks = memo[k] = [flat(unslice(a.sk_exp[8 * r:8 * r + 8], b) for r in range(15)) for b in range(4)]
        out = []
        iv = list(a.ivw)
        for b in range(4):
            blk = flat(spec.bytes_of(x, 4) for x in a.ivw[4 * b:4 * b + 4])
            out += rounds(rks[b], blk)
            c = add(32, spec.be_word(spec.bytes_of(iv[4 * b + 3], 4)), 4)
            iv[4 * b + 3] = spec.be_word(spec.bytes_of(c, 4))
        return {'out': out, 'ivw': iv}
    cs.append(Contract('aes_ctr4x', [b8('out', 64, 'out'), Buf('ivw', 32, 16, 'inout'), Buf('sk_exp', 64, 120, 'in')], ctr,
                       lambda P, a: ctr(P, a, lambda rk, blk: spec.aes256_rounds_def(list(rk) + list(blk)))))
    cs.append(Contract('aes256ctr_prf', [b8('out', lenf('outlen'), 'out'), Int('outlen'), b8('key', 32, 'in'), b8('nonce', 12, 'in')],
                       lambda P, a: {'out': spec.aes256ctr(a.key, a.outlen, a.nonce)}))
    return cs


def prf90():
    return Contract('saber_aes256ctr_prf', [b8('output', lenf('outlen'), 'out'), Int('outlen'), b8('input', 32, 'in')],
                    lambda P, a: {'output': spec.aes256ctr(a.input, a.outlen)}, hard=True)


def aesni():
    def enc(N_):
        def f(P, a, rounds=spec.aes256_rounds):
            out = []
            for k in range(N_):
                out += rounds(a.rkeys[:240], list(reversed(spec.bytes_of(a.n[0], 8))) + list(reversed(spec.bytes_of(add(64, a.n[1], k), 8))))
            return {'out': out, 'n': [a.n[0], add(64, a.n[1], N_)]}
        # the counter's low half does not wrap: it counts blocks from a 32-bit value
        return Contract('aesni_encrypt%d' % N_, [Buf('out', 8, 16 * N_, 'out', align=16), Buf('n', 64, 2, 'inout', bits=32, align=16), Buf('rkeys', 8, 240, 'in', align=16)], f,
                        lambda P, a: f(P, a, lambda rk, blk: spec.aes256_rounds_def(list(rk) + list(blk))))
    return [enc(k) for k in (4, 6, 7, 8, 10, 12)] + [
        Contract('aesni_key256_expand', [b8('key', 32, 'in'), Buf('rkeys', 8, 240, 'out', align=16)],
                 lambda P, a: {'rkeys': spec.aes256_ks(a.key)}, lambda P, a: {'rkeys': spec.aes256_ks_def(a.key)})]


def packc(name, bits, vec, order='bd'):
    """bytes <- data"""
    def call(P, a):
        b = bits(P)
        return {'bytes': flat(spec.pack(b, c) for c in chunks(a.data, N))}
    nb = lambda P, i: (P.k if vec else 1) * bits(P) * N // 8
    nd = lambda P, i: (P.k if vec else 1) * N
    ps = [b8('bytes', nb, 'out'), c16('data', nd, 'in')]
    return Contract(name, ps, call)


def unpackc(name, bits, vec):
    def call(P, a):
        b = bits(P)
        return {'data': flat(z16(spec.unpack(b, c)) for c in chunks(a.bytes, b * N // 8))}
    nb = lambda P, i: (P.k if vec else 1) * bits(P) * N // 8
    nd = lambda P, i: (P.k if vec else 1) * N
    return Contract(name, [b8('bytes', nb, 'in'), c16('data', nd, 'out')], call)


EQ = lambda P: P.eq
EP = lambda P: P.ep
ET = lambda P: P.et
ONE = lambda P: 1


def verifyc(name='verify'):
    return Contract(name, [b8('a', lenf('len'), 'in'), b8('b', lenf('len'), 'in'), Int('len')],
                    lambda P, a: {'ret': zext(spec.neq(a.a, a.b), 32)}, ret=32)


def cmovc(name='cmov'):
    def call(P, a):
        c = a.b if a.b.__class__ is int else ext(a.b, 0, 1)
        return {'r': [ite(c, x, y, 8) for x, y in zip(a.x, a.r)]}
    return Contract(name, [b8('r', lenf('len'), 'inout'), b8('x', lenf('len'), 'in'), Int('len'), Int('b', 'bool')], call)


def common():
    cs = []
    cs.append(keccakf_contract())
    cs.append(xof('shake128', spec.shake128))
    cs.append(hashc('sha3_256', spec.sha3_256, 32))
    cs.append(hashc('sha3_512', spec.sha3_512, 64))
    cs.append(verifyc())
    cs.append(cmovc())
    cs.append(Contract('cbd', [c16('s', N, 'out'), b8('buf', lambda P, i: P.coinbytes, 'in')],
                       lambda P, a: {'s': Low(P.eq, spec.sample(P, a.buf))}))
    cs.append(Contract('GenMatrix', [c16('A', lambda P, i: P.k * P.k * N, 'out'), b8('seed', 32, 'in')],
                       lambda P, a: {'A': z16(flat(flat(r) for r in spec.gen_matrix(P, a.seed)))},
                       lambda P, a: {'A': z16(flat(flat(r) for r in spec.gen_matrix_def(P, a.seed)))}))
    cs.append(Contract('GenSecret', [c16('s', lambda P, i: P.k * N, 'out'), b8('seed', 32, 'in')],
                       lambda P, a: {'s': Low(P.eq, flat(spec.gen_secret(P, a.seed)))},
                       lambda P, a: {'s': Low(P.eq, flat(spec.gen_secret_def(P, a.seed)))}))
    # IND-CPA layer

    def kp(f):
        def g(P, a):
            r1 = a.draw(32)
            r2 = a.draw(32)
            pk, sk = f(P, r1, r2)
            return {'pk': pk, 'sk': sk}
        return g
    cs.append(Contract('indcpa_kem_keypair', [b8('pk', lambda P, i: P.indcpa_pk, 'out'), b8('sk', lambda P, i: P.indcpa_sk, 'out')],
                       kp(spec.indcpa_keypair), kp(spec.indcpa_keypair_def), hard=True, draws=True))
    cs.append(Contract('indcpa_kem_enc', [b8('m', 32, 'in'), b8('seed', 32, 'in'), b8('pk', lambda P, i: P.indcpa_pk, 'in'), b8('ct', lambda P, i: P.ct, 'out')],
                       lambda P, a: {'ct': spec.indcpa_enc(P, a.m, a.seed, a.pk)},
                       lambda P, a: {'ct': spec.indcpa_enc_def(P, a.m, a.seed, a.pk)}, hard=True))
    cs.append(Contract('indcpa_kem_dec', [b8('sk', lambda P, i: P.indcpa_sk, 'in'), b8('ct', lambda P, i: P.ct, 'in'), b8('m', 32, 'out')],
                       lambda P, a: {'m': spec.indcpa_dec(P, a.sk, a.ct)},
                       lambda P, a: {'m': spec.indcpa_dec_def(P, a.sk, a.ct)}, hard=True))
    # KEM

    def kkp(P, a):
        r1, r2, z = a.draw(32), a.draw(32), a.draw(32)
        pk, sk = spec.kem_keypair(P, r1, r2, z)
        return {'pk': pk, 'sk': sk, 'ret': 0}

    def ken(P, a):
        ct, k = spec.kem_enc(P, a.draw(32), a.pk)
        return {'ct': ct, 'k': k, 'ret': 0}
    cs.append(Contract('crypto_kem_keypair', [b8('pk', lambda P, i: P.pk, 'out'), b8('sk', lambda P, i: P.sk, 'out')], kkp, ret=32, hard=True, draws=True))
    cs.append(Contract('crypto_kem_enc', [b8('ct', lambda P, i: P.ct, 'out'), b8('k', 32, 'out'), b8('pk', lambda P, i: P.pk, 'in')], ken, ret=32, hard=True, draws=True))
    cs.append(Contract('crypto_kem_dec', [b8('k', 32, 'out'), b8('ct', lambda P, i: P.ct, 'in'), b8('sk', lambda P, i: P.sk, 'in')],
                       lambda P, a: {'k': spec.kem_dec(P, a.ct, a.sk), 'ret': 0}, ret=32, hard=True))
    return cs


def matvec_low(P, a):
    k = P.k
    A = [[a.A[(i * k + j) * N:(i * k + j + 1) * N] for j in range(k)] for i in range(k)]
    s = chunks(a.s, N)
    r = spec.matvec(P, A, s, a.transpose == 1)
    return {'res': Low(P.eq, [add(P.eq, ext(x, 0, P.eq), y) for x, y in zip(a.res, flat(r))])}


def ref_contracts(u=False):
    cs = common()
    cs.append(Contract('poly_mul_acc', [c16('a', N, 'in'), c16('b', N, 'in'), c16('res', N, 'inout')],
                       lambda P, a: {'res': Low(P.eq, [add(P.eq, ext(x, 0, P.eq), y) for x, y in zip(a.res, spec.pmul(P.eq, a.a, a.b))])}))
    cs.append(Contract('MatrixVectorMul', [c16('A', lambda P, i: P.k * P.k * N, 'in'), c16('s', lambda P, i: P.k * N, 'in'),
                                           c16('res', lambda P, i: P.k * N, 'inout'), Int('transpose')], matvec_low))
    cs.append(Contract('InnerProd', [c16('b', lambda P, i: P.k * N, 'in'), c16('s', lambda P, i: P.k * N, 'in'), c16('res', N, 'inout')],
                       lambda P, a: {'res': Low(P.eq, [add(P.eq, ext(x, 0, P.eq), y) for x, y in zip(a.res, spec.dot(P.eq, chunks(a.b, N), chunks(a.s, N)))])}))
    cs += sha2_contracts()
    cs += aes_bitsliced()
    cs.append(prf90())
    cs.append(packc('POLT2BS', ET, False))
    cs.append(unpackc('BS2POLT', ET, False))
    cs.append(packc('POLVECq2BS', EQ, True))
    cs.append(unpackc('BS2POLVECq', EQ, True))
    cs.append(packc('POLVECp2BS', EP, True))
    cs.append(unpackc('BS2POLVECp', EP, True))
    cs.append(unpackc('BS2POLmsg', ONE, False))
    cs.append(packc('POLmsg2BS', ONE, False))
    return {c.name: c for c in cs}


def vecmod(name, pack):
    """vector (de)serialisation whose field width is the logarithm of a modulus argument"""
    bits = lambda m: m.bit_length() - 1
    nb = lambda P, i: P.k * bits(i['modulus']) * N // 8
    nd = lambda P, i: P.k * N

    def pk(P, a):
        return {'bytes': flat(spec.pack(bits(a.modulus), c) for c in chunks(a.data, N))}

    def un(P, a):
        b = bits(a.modulus)
        return {'data': flat(z16(spec.unpack(b, c)) for c in chunks(a.bytes, b * N // 8))}
    ps = [b8('bytes', nb, 'out' if pack else 'in'), c16('data', nd, 'in' if pack else 'out'), Int('modulus')]
    return Contract(name, ps, pk if pack else un, pre=lambda P, i: i['modulus'] in (1 << P.ep, 1 << P.eq))


def narrow(c, bits):
    """the contract with a range precondition on its data"""
    for p in c.params:
        if p.name == 'data':
            p.bits = bits
    return c


def avx_contracts():
    cs = common()
    cs += aesni()
    cs.append(prf90())
    cs.append(unpackc('BS2POLq', EQ, False))
    cs.append(vecmod('POLVEC2BS', True))
    cs.append(vecmod('BS2POLVEC', False))
    cs.append(packc('POLVECq2BS', EQ, True))
    cs.append(unpackc('BS2POLVECq', EQ, True))
    cs.append(packc('POLVECp2BS', EP, True))
    cs.append(unpackc('BS2POLVECp', EP, True))
    for b in (3, 4, 6):
        is_ = lambda P, i, b=b: P.et == b
        c = packc('SABER_pack_%dbit' % b, ET, False)
        c.pre = is_
        cs.append(c)
        c = unpackc('SABER_un_pack%dbit' % b, ET, False)
        c.pre = is_
        cs.append(c)
    c = narrow(packc('POL2MSG', ONE, False), 1)
    c.params.reverse()
    cs.append(c)
    return {c.name: c for c in cs}


def b4(name, n, mode):
    return [b8('%s%d' % (name, l), n, mode) for l in range(4)]


def w4(name, n, mode, bits=None, align=None):
    return [c16('%s%d' % (name, l), n, mode, bits, align) for l in range(4)]


def lanes(f, outs, ins):
    """the contract of four independent instances: f(P, namespace of one lane) -> results of that lane"""
    def call(P, a):
        r = {}
        for l in range(4):
            b = NS()
            b.__dict__.update(a.__dict__)
            for n in ins:
                setattr(b, n, getattr(a, '%s%d' % (n, l)))
            o = f(P, b)
            for n in outs:
                r['%s%d' % (n, l)] = o[n]
        return r
    return call


def mixl(*ps):
    """parameters lane by lane: a0 b0 c0 a1 b1 c1 ..."""
    return [p for g in zip(*ps) for p in g]


def x4_contracts():
    base = {c.name: c for c in common()}
    cs = [base[n] for n in ('KeccakF1600_StatePermute', 'shake128', 'sha3_256', 'sha3_512', 'verify', 'cmov', 'cbd')]

    def perm(f):
        def g(P, a):
            st = [f(a.s[l::4]) for l in range(4)]
            return {'s': [st[i % 4][i // 4] for i in range(100)]}
        return g
    cs.append(Contract('KeccakP1600times4_PermuteAll_24rounds', [Buf('s', 64, 100, 'inout', align=32)], perm(spec.keccakf), perm(spec.DEF['keccakf'])))
    cs.append(Contract('shake128x4', b4('out', lenf('outlen'), 'out') + [Int('outlen')] + b4('in', lenf('inlen'), 'in') + [Int('inlen')],
                       lanes(lambda P, a: {'out': spec.shake128(getattr(a, 'in'), a.outlen)}, ['out'], ['in']), hard=True))
    for n, f, l in (('sha3_256x4', spec.sha3_256, 32), ('sha3_512x4', spec.sha3_512, 64)):
        cs.append(Contract(n, b4('out', l, 'out') + b4('in', lenf('inlen'), 'in') + [Int('inlen')],
                           lanes(lambda P, a, f=f: {'out': f(getattr(a, 'in'))}, ['out'], ['in']), hard=True))
    for n, src in (('GenMatrix4x', 'GenMatrix'), ('GenSecret4x', 'GenSecret')):
        b = base[src]
        o = b.params[0].name
        cs.append(Contract(n, w4(o, b.params[0].n, 'out', align=32 if src == 'GenMatrix' else None) + b4('seed', 32, 'in'),
                           lanes(b.call, [o], ['seed']), lanes(b.defn, [o], ['seed'])))
    p, u = vecmod('POLVEC2BS', True), vecmod('BS2POLVEC', False)
    cs.append(Contract('POLVEC2BSX4', b4('bytes', p.params[0].n, 'out') + w4('data', p.params[1].n, 'in', align=16) + [Int('modulus')],
                       lanes(p.call, ['bytes'], ['data']), pre=p.pre))
    cs.append(Contract('BS2POLVECX4', b4('bytes', u.params[0].n, 'in') + w4('data', u.params[1].n, 'out', align=32) + [Int('modulus')],
                       lanes(u.call, ['data'], ['bytes']), pre=u.pre))
    cs.append(packc('SABER_pack_4bit', ET, False))
    u4 = unpackc('SABER_un_pack4bit', ET, False)
    cs.append(u4)
    cs.append(Contract('SABER_un_pack4bitX4', b4('bytes', u4.params[0].n, 'in') + w4('data', N, 'out'), lanes(u4.call, ['data'], ['bytes'])))
    q = unpackc('BS2POLq', EQ, False)
    cs.append(Contract('BS2POLq4x', [Buf('bytes%d' % l, 8, q.params[0].n, 'in', align=16) for l in range(4)] + w4('data', N, 'out', align=32),
                       lanes(q.call, ['data'], ['bytes'])))
    c = narrow(packc('POL2MSG', ONE, False), 1)
    c.params.reverse()
    cs.append(c)
    # IND-CPA layer
    ipk, isk, ct = lambda P, i: P.indcpa_pk, lambda P, i: P.indcpa_sk, lambda P, i: P.ct

    def kp(f):
        def g(P, a):
            r = {'seeds': []}
            for l in range(4):
                s = a.seeds[32 * l:32 * l + 32]
                r['pk%d' % l], r['sk%d' % l] = f(P, s, a.noise[32 * l:32 * l + 32])
                r['seeds'] += spec.shake128(s, 32)
            return r
        return g
    cs.append(Contract('indcpa_kem_keypair', mixl(b4('pk', ipk, 'out'), b4('sk', isk, 'out')) + [b8('seeds', 128, 'inout'), b8('noise', 128, 'in')],
                       kp(spec.indcpa_keypair), kp(spec.indcpa_keypair_def), hard=True))
    e, d = base['indcpa_kem_enc'], base['indcpa_kem_dec']
    cs.append(Contract('indcpa_kem_enc', b4('m', 32, 'in') + b4('seed', 32, 'in') + mixl(b4('pk', ipk, 'in'), b4('ct', ct, 'out')),
                       lanes(e.call, ['ct'], ['m', 'seed', 'pk']), lanes(e.defn, ['ct'], ['m', 'seed', 'pk']), hard=True))
    cs.append(Contract('indcpa_kem_dec', mixl(b4('sk', isk, 'in'), b4('ct', ct, 'in'), b4('m', 32, 'out')),
                       lanes(d.call, ['m'], ['sk', 'ct']), lanes(d.defn, ['m'], ['sk', 'ct']), hard=True))
    # KEM: four instances back to back in each buffer

    def kkp(P, a):
        pk, sk = [], []
        for l in range(4):
            r1, r2, z = a.draw(32), a.draw(32), a.draw(32)
            x, y = spec.kem_keypair(P, r1, r2, z)
            pk += x
            sk += y
        return {'pk': pk, 'sk': sk, 'ret': 0}

    def ken(P, a):
        ct, k = [], []
        for l in range(4):
            x, y = spec.kem_enc(P, a.draw(32), a.pk[P.pk * l:P.pk * (l + 1)])
            ct += x
            k += y
        return {'ct': ct, 'k': k, 'ret': 0}

    def kde(P, a):
        return {'k': flat(spec.kem_dec(P, a.ct[P.ct * l:P.ct * (l + 1)], a.sk[P.sk * l:P.sk * (l + 1)]) for l in range(4)), 'ret': 0}
    cs.append(Contract('crypto_kem_keypair', [b8('pk', lambda P, i: 4 * P.pk, 'out'), b8('sk', lambda P, i: 4 * P.sk, 'out')], kkp, ret=32, hard=True, draws=True))
    cs.append(Contract('crypto_kem_enc', [b8('ct', lambda P, i: 4 * P.ct, 'out'), b8('k', 128, 'out'), b8('pk', lambda P, i: 4 * P.pk, 'in')], ken, ret=32, hard=True, draws=True))
    cs.append(Contract('crypto_kem_dec', [b8('k', 128, 'out'), b8('ct', lambda P, i: 4 * P.ct, 'in'), b8('sk', lambda P, i: 4 * P.sk, 'in')], kde, ret=32, hard=True))
    for c in cs[-3:]:
        c.lanes = 4
    return {c.name: c for c in cs}


def ext_randombytes(stream):
    def f(H, X, args, tys, line):
        p, n = args
        if n.__class__ is not int or p.__class__ is not symex.Ptr or p.off.__class__ is not int:
            return NotImplemented
        vals = draw(X, n, stream)
        if n:
            o, off = X.acc(p, n, line, True)
            for i, v in enumerate(vals):
                X.put(o, off + i, v, 1)
        return 0
    return f


def ext_sha2(w):
    def f(H, X, args, tys, line):
        """OpenSSL: digest of n bytes at d into md; returns md"""
        d, n, md = args
        if n.__class__ is not int or any(p.__class__ is not symex.Ptr or p.off.__class__ is not int for p in (d, md)):
            return NotImplemented
        data = [X.load(X.padd(d, i), 1, 8, line) for i in range(n)]
        out = spec.sha2(w, data)
        o, off = X.acc(md, w, line, True)
        for i, v in enumerate(out):
            X.put(o, off + i, v, 1)
        return md
    return f


# ---------------------------------------------------------------- the deterministic generator (SP 800-90A CTR_DRBG)

def rng_contracts():
    cs = []
    key, v, cnt = b8('key', 32, 'inout'), b8('v', 16, 'inout'), Buf('count', 32, 1, 'out')
    seed, pers = b8('seed', 48, 'in'), b8('pers', 48, 'in')
    o = lambda b: b8(b.name, b.n, 'out')
    zero = [0] * 48

    def st(s, **more):
        r = {'key': s[0], 'v': s[1]}
        r.update(more)
        return r
    cs.append(Contract('AES256_ECB', [b8('key', 32, 'in'), b8('ctr', 16, 'in'), b8('buffer', 16, 'out')], lambda P, a: {'buffer': spec.aes256(a.key, a.ctr)}))

    def random(P, a):
        out, s = spec.drbg_generate((a.key, a.v), a.n)
        return st(s, x=out, ret=0, count=[add(32, a.count[0], 1)])
    for l in ('', '0', '1', '2', '3'):
        cs.append(Contract('vf_random' + l, [key, v, Buf('count', 32, 1, 'inout', 30), b8('x', lenf('n'), 'out'), Int('n')], random, ret=32, hard=True))
        cs.append(Contract('vf_seed' + ('_lane' + l if l else ''), [seed, pers, o(key), o(v), cnt], lambda P, a: st(spec.drbg_init(a.seed, a.pers), count=[1]), hard=True))
    cs.append(Contract('vf_seed0', [seed, o(key), o(v), cnt], lambda P, a: st(spec.drbg_init(a.seed, zero), count=[1]), hard=True))
    cs.append(Contract('vf_update', [b8('data', 48, 'in'), key, v], lambda P, a: st(spec.drbg_update(a.data, (a.key, a.v))), hard=True))
    cs.append(Contract('vf_update0', [key, v], lambda P, a: st(spec.drbg_update(zero, (a.key, a.v))), hard=True))

    def hist(P, a):
        s = a.key, a.v
        r = {}
        for n in 'xyz':
            r[n], s = spec.drbg_generate(s, getattr(a, 'n' + n))
        return r

    def reseed(P, a):
        r = {}
        if hasattr(a, 'nx') and hasattr(a, 'ny'):
            r['x'], _ = spec.drbg_generate((a.key, a.v), a.nx)
        last = 'y' if hasattr(a, 'ny') else 'x'
        r[last], _ = spec.drbg_generate(spec.drbg_init(a.seed, a.pers), getattr(a, 'n' + last))
        return r
    i8 = lambda n, k: b8(n, k, 'in')
    xs = lambda names: flat([b8(n, lenf('n' + n), 'out'), Int('n' + n)] for n in names)
    cs.append(Contract('vf_hist', [i8('key', 32), i8('v', 16)] + xs('xyz'), hist, hard=True))
    cs.append(Contract('vf_hist_seed', [seed, pers] + xs('x'), reseed, hard=True))
    cs.append(Contract('vf_hist_reseed', [i8('key', 32), i8('v', 16), seed, pers] + xs('xy'), reseed, hard=True))
    # the seed expander: its context is buffer, position, bytes left, key, counter
    ctx = [b8('buffer', 16, 'inout'), Buf('left', 64, 1, 'inout'), b8('xkey', 32, 'inout'), b8('ctr', 16, 'inout')]
    buf, left, xkey, ctr = ctx

    def xinit(P, a):
        m = a.maxlen[0]
        bad = spec.uge(64, m, 1 << 32)
        new = [0] * 16, [16], [m], list(a.seed), list(a.div) + [ext(m, 24, 8), ext(m, 16, 8), ext(m, 8, 8), ext(m, 0, 8)] + [0] * 4
        old = a.buffer, a.pos, a.left, a.xkey, a.ctr
        w = 8, 32, 64, 8, 8
        r = {k: [ite(bad, y, x, b) for x, y in zip(n, q)] for k, n, q, b in zip(('buffer', 'pos', 'left', 'xkey', 'ctr'), new, old, w)}
        r['ret'] = ite(bad, M(32), 0, 32)
        return r
    cs.append(Contract('vf_expand_init', [b8('seed', 32, 'in'), b8('div', 8, 'in'), Buf('maxlen', 64, 1, 'in'), buf, Buf('pos', 32, 1, 'inout'), left, xkey, ctr], xinit, ret=32, hard=True))

    def expand(P, a):
        bad = spec.uge(64, a.n, a.left[0])
        x, s = spec.expander(a.buffer, a.pos, a.xkey, a.ctr, a.n)
        r = {'x': [ite(bad, p, q, 8) for p, q in zip(a.x, x)], 'ret': ite(bad, M(32) - 2, 0, 32), 'xkey': a.xkey,
             'left': [ite(bad, a.left[0], sub(64, a.left[0], a.n), 64)], 'newpos': [ite(bad, a.pos, s[1], 32)],
             'buffer': [ite(bad, p, q, 8) for p, q in zip(a.buffer, s[0])], 'ctr': [ite(bad, p, q, 8) for p, q in zip(a.ctr, s[2])]}
        return r
    cs.append(Contract('vf_expand', [buf, Int('pos'), Buf('newpos', 32, 1, 'out'), left, xkey, ctr, b8('x', lenf('n'), 'inout'), Int('n')], expand, ret=32, hard=True))
    cs.append(Contract('vf_expand_null', [buf, Int('pos'), left, xkey, ctr, Int('n')],
                       lambda P, a: {'buffer': a.buffer, 'left': a.left, 'xkey': a.xkey, 'ctr': a.ctr, 'ret': M(32) - 1}, ret=32, hard=True))
    return {c.name: c for c in cs}


def evp():
    """OpenSSL's block cipher interface, for AES-256 in electronic codebook mode: assumed to be AES-256.  The key is kept
    in the context object (bytes 0..31, then a flag)."""
    def ecb(H, X, args, tys, line):
        o = getattr(X, 'ecb', None)
        if o is None:
            o = X.ecb = X.new_obj('EVP_aes_256_ecb', 8, 8, 'extern', False).id
        return symex.Ptr(o, 0)

    def new(H, X, args, tys, line):
        o = X.new_obj('EVP_CIPHER_CTX', 64, 8, 'heap', True)
        X.put(o, 32, 0, 1)
        return symex.Ptr(o.id, 0)

    def is_ctx(X, p):
        return p.__class__ is symex.Ptr and p.obj in X.st.objs and X.st.objs[p.obj].name == 'EVP_CIPHER_CTX' and p.off == 0

    def null(p):
        return p.__class__ is int and p == 0 or p.__class__ is symex.Ptr and p.obj == 0 and p.off.__class__ is int and p.off == 0

    def init(H, X, args, tys, line):
        ctx, ciph, impl, key, iv = args
        if not is_ctx(X, ctx) or ciph.__class__ is not symex.Ptr or ciph.obj != getattr(X, 'ecb', None) or not null(impl) or key.__class__ is not symex.Ptr or null(key):
            return NotImplemented
        ks = [X.load(X.padd(key, i), 1, 8, line) for i in range(32)]
        o, off = X.acc(ctx, 64, line, True)
        for i, k in enumerate(ks + [1]):
            X.put(o, i, k, 1)
        return 1

    def update(H, X, args, tys, line):
        ctx, out, outl, inp, n = args
        if not is_ctx(X, ctx) or n != 16 or any(p.__class__ is not symex.Ptr for p in (out, outl, inp)):
            return NotImplemented
        o, _ = X.acc(ctx, 64, line, True)
        if X.gather(o, 32, 1) != 1:
            return NotImplemented
        ks = [X.gather(o, i, 1) for i in range(32)]
        blk = [X.load(X.padd(inp, i), 1, 8, line) for i in range(16)]
        o, off = X.acc(out, 16, line, True)
        for i, b in enumerate(spec.aes256(ks, blk)):
            X.put(o, off + i, b, 1)
        o, off = X.acc(outl, 4, line, True)
        X.put(o, off, 16, 4)
        return 1
    one = lambda H, X, args, tys, line: 1
    return {'EVP_aes_256_ecb': ecb, 'EVP_CIPHER_CTX_new': new, 'EVP_EncryptInit_ex': init, 'EVP_EncryptUpdate': update,
            'EVP_CIPHER_CTX_free': one, 'EVP_CIPHER_CTX_set_padding': one}


# ---------------------------------------------------------------- Cortex-M4

def full(w, a, b):
    """product of polynomials over Z/2^w, not reduced"""
    n = len(a)
    out = []
    for k in range(2 * n - 1):
        t = 0
        for i in range(max(0, k - n + 1), min(n, k + 1)):
            t = add(w, t, mul(w, a[i], b[k - i]))
        out.append(t)
    return out


def negacyclic(w, a, b):
    n = len(a)
    c = full(w, a, b) + [0]
    return [sub(w, c[i], c[i + n]) for i in range(n)]


def m4_contracts():
    """the parameters of poly_mul that the striding variant uses as scratch space are 'inout' with an unspecified result"""
    base = {c.name: c for c in common()}
    cs = [base[n] for n in ('cmov', 'cbd', 'indcpa_kem_dec', 'crypto_kem_keypair', 'crypto_kem_enc', 'crypto_kem_dec')]
    kp, en = copy.copy(base['indcpa_kem_keypair']), copy.copy(base['indcpa_kem_enc'])

    def kpf(P, a):
        r1, r2 = a.draw(32), a.draw(32)
        pk, sk = spec.indcpa_keypair_def(P, r1, r2, True)
        return {'pk': pk, 'sk': sk}
    kp.defn = kpf
    en.defn = lambda P, a: {'ct': spec.indcpa_enc_def(P, a.m, a.seed, a.pk, True)}
    cs += [kp, en]
    any_ = lambda xs: Low(0, xs)
    ps = lambda m: [c16('a', N, 'in'), c16('b', N, 'inout'), c16('res', N, m)]
    cs.append(Contract('poly_mul', ps('out'), lambda P, a: {'res': Low(P.eq, spec.pmul(P.eq, a.a, a.b)), 'b': any_(a.b)}))
    acc = lambda P, a: {'res': Low(P.eq, [add(P.eq, ext(x, 0, P.eq), y) for x, y in zip(a.res, spec.pmul(P.eq, a.a, a.b))]), 'b': any_(a.b)}
    cs.append(Contract('poly_mul_acc', ps('inout'), acc))
    cs.append(Contract('toom_cook_4way_mem_asm', [c16('a', N, 'in'), c16('b', N, 'in'), c16('res', N, 'inout')],
                       lambda P, a: {'res': acc(P, a)['res']}))
    cs.append(Contract('toom_cook_4way_striding', ps('inout'), acc))
    cs.append(Contract('kara_strd_mem_asm', [c16('a', 64, 'inout'), c16('b', 64, 'inout'), c16('c', 64, 'out'), c16('tmp', 64, 'out')],
                       lambda P, a: {'c': negacyclic(16, a.a, a.b), 'a': any_(a.a), 'b': any_(a.b), 'tmp': any_([0] * 64)}))
    cs.append(Contract('karatsuba_64x64', [c16('res', 127, 'out'), c16('a', 64, 'in'), c16('b', 64, 'in')],
                       lambda P, a: {'res': full(16, a.a, a.b)}))
    # re-encryption compared in place
    cs.append(Contract('indcpa_kem_enc_cmp', [b8('m', 32, 'in'), b8('seed', 32, 'in'), b8('pk', lambda P, i: P.indcpa_pk, 'in'), b8('ct', lambda P, i: P.ct, 'in')],
                       lambda P, a: {'ret': zext(spec.neq(a.ct, spec.indcpa_enc(P, a.m, a.seed, a.pk)), 8)},
                       lambda P, a: {'ret': zext(spec.neq(a.ct, spec.indcpa_enc_def(P, a.m, a.seed, a.pk, True)), 8)}, ret=8))
    return {c.name: c for c in cs}


def m0_contracts():
    m4 = m4_contracts()
    base = {c.name: c for c in common()}
    cs = [base[n] for n in ('shake128', 'sha3_256', 'sha3_512', 'verify', 'cmov', 'indcpa_kem_dec', 'crypto_kem_keypair', 'crypto_kem_enc', 'crypto_kem_dec')]
    cs += [m4['indcpa_kem_keypair'], m4['indcpa_kem_enc']]
    cs.append(Contract('pol_mul', [c16('a', N, 'in'), c16('b', N, 'in'), c16('res', N, 'inout')],
                       lambda P, a: {'res': Low(P.eq, [add(P.eq, ext(x, 0, P.eq), y) for x, y in zip(a.res, spec.pmul(P.eq, a.a, a.b))])}))
    # sampling in pieces: `use` bytes (one coefficient each, mu = 8) from coefficient `start` on
    cs.append(Contract('cbd', [Int('start'), c16('r', lambda P, i: i['start'] + i['use'], 'inout'), Int('use'), b8('buf', lambda P, i: i['use'], 'in')],
                       lambda P, a: {'r': list(a.r[:a.start]) + z16(spec.sample(P, list(a.buf) + [0] * (N - a.use))[:a.use])},
                       pre=lambda P, i: i['use'] <= N and i['use'] % 4 == 0))
    cs.append(Contract('floor_special', [Int('a', 'w16')], lambda P, a: {'ret': zext(ext(a.a, 9, 1), 16)}, ret=16))
    return {c.name: c for c in cs}


def rd(X, p, n, line):
    return [X.load(X.padd(p, i), 1, 8, line) for i in range(n)]


def wr(X, p, vals, line):
    if vals:
        o, off = X.acc(p, len(vals), line, True)
        for i, v in enumerate(vals):
            X.put(o, off + i, v, 1)


def conc(*ps):
    return all(p.__class__ is int or p.__class__ is symex.Ptr and p.off.__class__ is int for p in ps)


def pqm4():
    """pqm4's fips202 (not part of the repository): assumed to be SHAKE-128 and SHA-3; the incremental context holds
    the sponge state and the number of bytes absorbed into / left in the current block"""
    R = 168

    def words(X, ctx, line):
        return [X.load(X.padd(ctx, 8 * i), 8, 64, line) for i in range(26)]

    def put(X, ctx, ws, line):
        for i, w in enumerate(ws):
            X.store(X.padd(ctx, 8 * i), w, 8, line)

    def init(H, X, args, tys, line):
        put(X, args[0], [0] * 26, line)
        return 0

    def absorb(H, X, args, tys, line):
        ctx, p, n = args
        if not conc(ctx, p, n):
            return NotImplemented
        s = words(X, ctx, line)
        if s[25].__class__ is not int:
            return NotImplemented
        bs = flat(spec.bytes_of(w, 8) for w in s[:25])
        pos = s[25]
        for b in rd(X, p, n, line):
            bs[pos] = bxor(8, bs[pos], b)
            pos += 1
            if pos == R:
                bs = flat(spec.bytes_of(w, 8) for w in spec.keccakf([spec.le_word(c) for c in chunks(bs, 8)]))
                pos = 0
        put(X, ctx, [spec.le_word(c) for c in chunks(bs, 8)] + [pos], line)
        return 0

    def finalize(H, X, args, tys, line):
        s = words(X, args[0], line)
        if s[25].__class__ is not int:
            return NotImplemented
        bs = flat(spec.bytes_of(w, 8) for w in s[:25])
        bs[s[25]] = bxor(8, bs[s[25]], 0x1F)
        bs[R - 1] = bxor(8, bs[R - 1], 0x80)
        put(X, args[0], [spec.le_word(c) for c in chunks(bs, 8)] + [0], line)
        return 0

    def squeeze(H, X, args, tys, line):
        p, n, ctx = args
        if not conc(ctx, p, n):
            return NotImplemented
        s = words(X, ctx, line)
        left = s[25]
        if left.__class__ is not int:
            return NotImplemented
        st = s[:25]
        bs = flat(spec.bytes_of(w, 8) for w in st)
        out = []
        while len(out) < n:
            if left == 0:
                st = spec.keccakf(st)
                bs = flat(spec.bytes_of(w, 8) for w in st)
                left = R
            k = min(left, n - len(out))
            out += bs[R - left:R - left + k]
            left -= k
        wr(X, p, out, line)
        put(X, ctx, st + [left], line)
        return 0

    def one(f):
        def g(H, X, args, tys, line):
            if not conc(*args):
                return NotImplemented
            f(X, args, line)
            return 0
        return g
    return {'shake128_inc_init': init, 'shake128_inc_absorb': absorb, 'shake128_inc_finalize': finalize, 'shake128_inc_squeeze': squeeze,
            'shake128_inc_ctx_release': lambda H, X, args, tys, line: 0,
            'shake128': one(lambda X, a, l: wr(X, a[0], spec.shake128(rd(X, a[2], a[3], l), a[1]), l)),
            'sha3_256': one(lambda X, a, l: wr(X, a[0], spec.sha3_256(rd(X, a[1], a[2], l)), l)),
            'sha3_512': one(lambda X, a, l: wr(X, a[0], spec.sha3_512(rd(X, a[1], a[2], l)), l))}


def ext_keccakf(H, X, args, tys, line):
    if not conc(args[0]):
        return NotImplemented
    s = [X.load(X.padd(args[0], 8 * i), 8, 64, line) for i in range(25)]
    for i, w in enumerate(spec.keccakf(s)):
        X.store(X.padd(args[0], 8 * i), w, 8, line)
    return 0


def ext_cpucycles(H, X, args, tys, line):
    return X.fresh('cycles', 64)


def externals(cfg):
    if cfg.family == 'rng':
        return evp()
    e = {'randombytes': ext_randombytes(0), 'cpucycles': ext_cpucycles}
    if cfg.family == 'uavx':
        e['SHA256'] = ext_sha2(32)
        e['SHA512'] = ext_sha2(64)
    if cfg.family == 'm0':
        e['KeccakF1600_StatePermute'] = ext_keccakf
    if cfg.family == 'm4':
        e.update(pqm4())
    return e


def table(cfg):
    if cfg.family == 'rng':
        return rng_contracts()
    if cfg.family in ('ref', 'uref'):
        return ref_contracts()
    if cfg.family in ('avx', 'uavx'):
        return avx_contracts()
    if cfg.family == 'x4':
        return x4_contracts()
    if cfg.family == 'm4':
        return m4_contracts()
    if cfg.family == 'm0':
        return m0_contracts()
    return {c.name: c for c in common()}
