"""Discharging obligations.  Back ends, in the order they are tried:
  norm   both sides have the same normal form (hash-consed terms)
  ring   congruence of polynomials modulo 2^b (ring.cpp)
  table  exhaustive truth table of an output bit whose support has at most TABLE_BITS bits
  z3     bit-vector SMT, spec functions abstracted to free variables
  sweep  equivalences of inner nodes proved bottom-up with the back ends above, then merged
Random and corner-case evaluation of both sides runs before z3, and is what finds counterexamples."""
import ctypes
import os
import random
import subprocess
import tempfile
import time
from array import array
from terms import *
import terms as TM
import spec

HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None
TABLE_BITS = 14
STATS = {}


def stat(k, v=1):
    STATS[k] = STATS.get(k, 0) + v


def build_ring(path):
    subprocess.run(['g++', '-O2', '-shared', '-fPIC', '-o', path, os.path.join(HERE, 'ring.cpp')], check=True)


def ringlib():
    global _lib
    if _lib is None:
        p = os.environ.get('VF_RING')
        if not p or not os.path.exists(p):
            d = tempfile.mkdtemp(prefix='vfring')
            p = os.path.join(d, 'ring.so')
            build_ring(p)
            os.environ['VF_RING'] = p
        _lib = ctypes.CDLL(p)
    return _lib


# ---------------------------------------------------------------- ring

PM = {'pmul%d' % w: w for w in (10, 12, 13, 16)}


class Ring:
    def __init__(self, expand):
        self.expand = expand
        self.code = array('q')
        self.off = array('q')
        self.idx = {}
        self.nvar = 0
        self.consts = {}
        self.shv = {}
        self.cuts = {}
        self.pcs = {}

    def emit(self, rec):
        self.off.append(len(self.code))
        self.code.extend(rec)
        return len(self.off) - 1

    def const(self, v):
        i = self.consts.get(v)
        if i is None:
            i = self.consts[v] = self.emit([1, s64(v), 64])
        return i

    def var(self):
        self.nvar += 1
        if self.nvar >= 1 << 21:
            raise MemoryError('too many ring variables')
        return self.nvar

    def get(self, t):
        if t.__class__ is int:
            return self.const(t)
        return self.idx[t]

    def kids(self, t):
        """children that the encoding of t needs"""
        op = t.op
        if op == 'lin' and t.w <= 64:
            return [e[0] for e in t.a[1]]
        if op == 'mul' and t.w <= 64:
            return t.a
        if op == 'cat' and t.w <= 64:
            return [p for p, n in t.a if p.__class__ is not int]
        if op == 'ext' and t.a[0].w <= 64:
            return () if self.isleaf(t.a[0]) else (t.a[0],)
        if op == 'sext' and t.a[0].w <= 64:
            return (t.a[0],)
        if op == 'xor' and len(t.a[1]) == 1 and t.a[0] == M(t.w) and t.w <= 64:
            return t.a[1]
        if op == 'uf' and self.expand and t.a[0] in PM:
            return [x for x in t.a[1].a if x.op != 'c']
        return ()

    def isleaf(self, t):
        op = t.op
        if t.w > 64:
            return True
        if op in ('c', 'lin', 'mul', 'cat'):
            return False
        if op in ('ext', 'sext'):
            return t.a[0].w > 64
        if op == 'xor':
            return not (len(t.a[1]) == 1 and t.a[0] == M(t.w))
        if op == 'uf':
            return not (self.expand and t.a[0] in PM)
        return True

    def scan(self, roots):
        """cut points: a leaf that is read in part is the sum of its pieces, each an exact variable"""
        seen = set()
        st = [r for r in roots if r.__class__ is not int]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == 'ext' and t.a[0].w <= 64 and self.isleaf(t.a[0]):
                self.cut(t.a[0], t.a[1])
                self.cut(t.a[0], t.a[1] + t.w)
                continue
            if t.op == 'sext':
                x = t.a[0]
                if x.op == 'cat':
                    x = x.a[-1][0]
                if x.__class__ is not int and x.op == 'ext' and x.a[0].w <= 64 and self.isleaf(x.a[0]):
                    self.cut(x.a[0], x.a[1] + x.w - 1)
                elif x.__class__ is not int and x.w <= 64 and self.isleaf(x):
                    self.cut(x, x.w - 1)
            st.extend(self.kids(t))

    def cut(self, t, p):
        if 0 < p < t.w:
            self.cuts.setdefault(t, set()).add(p)

    def pieces(self, t):
        r = self.pcs.get(t)
        if r is None:
            b = [0] + sorted(self.cuts.get(t, ())) + [t.w]
            r = self.pcs[t] = [(lo, hi, self.emit([0, self.var()])) for lo, hi in zip(b, b[1:])]
        return r

    def field(self, t, lo, n):
        ps = [(p - lo, i) for p, q, i in self.pieces(t) if p >= lo and q <= lo + n]
        if len(ps) == 1:
            return ps[0][1]
        r = [2, 64, 0, len(ps)]
        for k, i in ps:
            r.append(s64(1 << k))
            r.append(i)
        return self.emit(r)

    def topbit(self, x):
        """node of the top bit of x, if that is a piece of a leaf"""
        if x.op == 'cat':
            x = x.a[-1][0]
        if x.__class__ is int:
            return None
        if x.op == 'ext' and x.a[0].w <= 64 and self.isleaf(x.a[0]):
            return self.field(x.a[0], x.a[1] + x.w - 1, 1)
        if x.w <= 64 and self.isleaf(x):
            return self.field(x, x.w - 1, 1)
        return None

    def add(self, root):
        if root.__class__ is int or root in self.idx:
            return
        stack = [(root, None)]
        idx = self.idx
        seen = set()
        while stack:
            t, it = stack[-1]
            if it is None:
                if t in idx or t in seen:
                    stack.pop()
                    continue
                seen.add(t)
                it = iter(self.kids(t))
                stack[-1] = (t, it)
            for c in it:
                if c not in idx and c not in seen:
                    stack.append((c, None))
                    break
            else:
                stack.pop()
                idx[t] = self.enc(t)

    def enc(self, t):
        op = t.op
        w = t.w
        a = t.a
        if op == 'c':
            return self.const(a[0])
        if op == 'lin' and w <= 64:
            r = [2, w, s64(a[0]), len(a[1])]
            for x, c in a[1]:
                r.append(s64(sx(c, w)))
                r.append(self.get(x))
            return self.emit(r)
        if op == 'mul' and w <= 64:
            return self.emit([3, w, self.get(a[0]), self.get(a[1])])
        if op == 'cat' and w <= 64:
            c = 0
            es = []
            pos = 0
            for p, n in a:
                if p.__class__ is int:
                    c |= p << pos
                else:
                    es.append((1 << pos, self.get(p)))
                pos += n
            r = [2, 64, s64(c), len(es)]
            for k, i in es:
                r.append(s64(k))
                r.append(i)
            return self.emit(r)
        if op == 'ext' and a[0].w <= 64 and self.isleaf(a[0]):
            return self.field(a[0], a[1], w)
        if op == 'ext' and a[0].w <= 64:
            k = (a[0], a[1])
            v = self.shv.get(k)
            if v is None:
                v = self.shv[k] = self.var()
            return self.emit([4, a[1], w, self.get(a[0]), v, 1 if a[1] + w == a[0].w else 0])
        if op == 'sext' and a[0].w <= 64:
            b = self.topbit(a[0])
            if b is not None:
                return self.emit([2, w, 0, 2, 1, self.get(a[0]), s64(-(1 << a[0].w)), b])
            return self.emit([4, 0, a[0].w, self.get(a[0]), 0, 0])
        if op == 'xor' and len(a[1]) == 1 and a[0] == M(w) and w <= 64:
            return self.emit([2, w, s64(a[0]), 1, -1, self.get(a[1][0])])
        if op == 'uf' and self.expand and a[0] in PM:
            r = [5, PM[a[0]], a[2], 256]
            for x in a[1].a:
                r.append(self.const(x.a[0]) if x.op == 'c' else self.idx[x])
            return self.emit(r)
        if w <= 64 and t in self.cuts:
            return self.field(t, 0, w)
        return self.emit([0, self.var()])

    def prove(self, goals):
        g = array('q')
        self.scan([x for g_ in goals for x in g_[:2]])
        for x, y, b in goals:
            self.add(x)
            self.add(y)
        for x, y, b in goals:
            g.extend((self.get(x), self.get(y), b))
        n = len(self.off)
        res = (ctypes.c_int * len(goals))()
        st = (ctypes.c_uint64 * 2)()
        P = ctypes.POINTER(ctypes.c_int64)
        ringlib().ring_prove(ctypes.cast(self.code.buffer_info()[0], P), ctypes.cast(self.off.buffer_info()[0], P), ctypes.c_int64(n),
                             ctypes.cast(g.buffer_info()[0], P), ctypes.c_int64(len(goals)), res, st)
        stat('ring_monomials', int(st[0]))
        return list(res)


def s64(v):
    v &= M(64)
    return v - (1 << 64) if v >> 63 else v


# ---------------------------------------------------------------- AIG / truth tables

class Bits:
    """bit-level view: literals are (node << 1) | complement; node 0 is constant false"""

    def __init__(self, cut=None):
        self.cut = cut or ()
        self.nodes = [None]
        self.tab = {}
        self.memo = {}
        self.sup = {0: frozenset()}

    def node(self, k):
        i = self.tab.get(k)
        if i is None:
            i = len(self.nodes)
            self.nodes.append(k)
            self.tab[k] = i
        return i

    def AND(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1:
            return b
        if a == b:
            return a
        if a ^ b == 1:
            return 0
        return self.node(('&', a, b)) << 1

    def XOR(self, a, b):
        c = (a ^ b) & 1
        a &= ~1
        b &= ~1
        if a > b:
            a, b = b, a
        if a == 0:
            return b ^ c
        if a == b:
            return c
        return (self.node(('^', a, b)) << 1) ^ c

    def OR(self, a, b):
        return self.AND(a ^ 1, b ^ 1) ^ 1

    def MUX(self, c, a, b):
        return self.XOR(b, self.AND(c, self.XOR(a, b)))

    def leaf(self, t, i):
        return self.node(('v', t, i)) << 1

    def addb(self, xs, ys, c=0):
        out = []
        for x, y in zip(xs, ys):
            p = self.XOR(x, y)
            out.append(self.XOR(p, c))
            c = self.OR(self.AND(x, y), self.AND(p, c))
        return out, c

    def word(self, t, w):
        if t.__class__ is int:
            return [(t >> i) & 1 for i in range(w)]
        return [self.bit(t, i) for i in range(w)]

    def bit(self, t, i):
        """iterative evaluation of one bit"""
        memo = self.memo
        k = (t, i)
        r = memo.get(k)
        if r is not None:
            return r
        stack = [k]
        while stack:
            k = stack[-1]
            if k in memo:
                stack.pop()
                continue
            t, i = k
            need = [x for x in self.deps(t, i) if x not in memo]
            if need:
                stack.extend(need)
                if len(stack) > 4000000:
                    raise MemoryError
                continue
            self.calc(t, i)
            stack.pop()
        return memo[(t, i)] if (t, i) in memo else memo[k]

    def deps(self, t, i):
        op = t.op
        a = t.a
        if t in self.cut:
            return []
        if op == 'ext':
            return [(a[0], a[1] + i)]
        if op == 'cat':
            pos = 0
            for p, n in a:
                if i < pos + n:
                    return [] if p.__class__ is int else [(p, i - pos)]
                pos += n
        if op == 'xor':
            return [(x, i) for x in a[1]]
        if op in ('and', 'or'):
            return [(x, i) for x in a]
        if op == 'sext':
            return [(a[0], min(i, a[0].w - 1))]
        if op == 'ite':
            return [(a[0], 0), (a[1], i), (a[2], i)]
        if op in ('lin', 'mul'):
            return [(x, j) for x in children(t) for j in range(i + 1)]
        if op in ('eq', 'ult', 'slt'):
            return [(x, j) for x in a for j in range(x.w)]
        if op == 'uf' and a[0] == 'sbox':
            return [(a[1].a[0], j) for j in range(8)]
        return []

    def get(self, t, i):
        if t.__class__ is int:
            return (t >> i) & 1
        return self.memo[(t, i)]

    def calc(self, t, i):
        op = t.op
        a = t.a
        memo = self.memo
        if op == 'c':
            r = (a[0] >> i) & 1
        elif t in self.cut:
            r = self.leaf(t, i)
        elif op == 'ext':
            r = memo[(a[0], a[1] + i)]
        elif op == 'cat':
            pos = 0
            for p, n in a:
                if i < pos + n:
                    r = (p >> (i - pos)) & 1 if p.__class__ is int else memo[(p, i - pos)]
                    break
                pos += n
        elif op == 'xor':
            r = (a[0] >> i) & 1
            for x in a[1]:
                r = self.XOR(r, memo[(x, i)])
        elif op == 'and':
            r = self.AND(memo[(a[0], i)], memo[(a[1], i)])
        elif op == 'or':
            r = self.OR(memo[(a[0], i)], memo[(a[1], i)])
        elif op == 'sext':
            r = memo[(a[0], min(i, a[0].w - 1))]
        elif op == 'ite':
            r = self.MUX(memo[(a[0], 0)], memo[(a[1], i)], memo[(a[2], i)])
        elif op == 'lin':
            acc = [(a[0] >> j) & 1 for j in range(i + 1)]
            for x, c in a[1]:
                xs = [memo[(x, j)] for j in range(i + 1)]
                if c == M(t.w):
                    acc, _ = self.addb(acc, [b ^ 1 for b in xs], 1)
                    continue
                s = 0
                while c and s <= i:
                    if c & 1:
                        acc, _ = self.addb(acc, ([0] * s + xs)[:i + 1])
                    c >>= 1
                    s += 1
            for j in range(i + 1):
                memo.setdefault((t, j), acc[j])
            r = acc[i]
        elif op == 'mul':
            xs = [memo[(a[0], j)] for j in range(i + 1)]
            ys = [memo[(a[1], j)] for j in range(i + 1)]
            acc = [0] * (i + 1)
            for s in range(i + 1):
                acc, _ = self.addb(acc, [0] * s + [self.AND(ys[s], x) for x in xs[:i + 1 - s]])
            for j in range(i + 1):
                memo.setdefault((t, j), acc[j])
            r = acc[i]
        elif op in ('eq', 'ult', 'slt'):
            w = a[0].w
            xs = [memo[(a[0], j)] for j in range(w)]
            ys = [memo[(a[1], j)] for j in range(w)]
            if op == 'eq':
                r = 1
                for x, y in zip(xs, ys):
                    r = self.AND(r, self.XOR(x, y) ^ 1)
            else:
                if op == 'slt':
                    xs[-1], ys[-1] = ys[-1], xs[-1]
                r = 0
                for x, y in zip(xs, ys):
                    r = self.MUX(self.XOR(x, y), y, r)
        elif op == 'uf' and a[0] == 'sbox':
            xs = [memo[(a[1].a[0], j)] for j in range(8)]
            m = {}

            def tree(lo, n):
                k = tuple((spec.SBOX[lo + v] >> i) & 1 for v in range(1 << n))
                y = m.get(k)
                if y is None:
                    y = m[k] = k[0] if n == 0 else self.MUX(xs[n - 1], tree(lo + (1 << (n - 1)), n - 1), tree(lo, n - 1))
                return y
            r = tree(0, 8)
        else:
            r = self.leaf(t, i)
        memo[(t, i)] = r

    def support(self, lit, limit=64):
        """leaves of a literal, or None if more than limit"""
        out = set()
        seen = set()
        st = [lit >> 1]
        n = 0
        while st:
            k = st.pop()
            if k in seen or k == 0:
                continue
            seen.add(k)
            n += 1
            if n > 20000:
                return None
            d = self.nodes[k]
            if d[0] == 'v':
                out.add(k)
                if len(out) > limit:
                    return None
            else:
                st.append(d[1] >> 1)
                st.append(d[2] >> 1)
        return out

    def table(self, lit, leaves):
        """truth table (an integer of 2^n bits) of a literal over the ordered leaves"""
        n = len(leaves)
        full = (1 << (1 << n)) - 1
        val = {0: 0}
        for j, l in enumerate(leaves):
            # pattern of variable j
            b = 1 << j
            pat = ((1 << b) - 1) << b
            size = 2 * b
            while size < (1 << n):
                pat |= pat << size
                size *= 2
            val[l] = pat & full
        st = [lit >> 1]
        while st:
            k = st[-1]
            if k in val:
                st.pop()
                continue
            d = self.nodes[k]
            x, y = d[1] >> 1, d[2] >> 1
            if x not in val:
                st.append(x)
                continue
            if y not in val:
                st.append(y)
                continue
            p = val[x] ^ (full if d[1] & 1 else 0)
            q = val[y] ^ (full if d[2] & 1 else 0)
            val[k] = p & q if d[0] == '&' else p ^ q
            st.pop()
        v = val[lit >> 1]
        return v ^ full if lit & 1 else v

    def equal_bits(self, x, y):
        """True / (False, assignment) / None"""
        if x == y:
            return True
        d = self.XOR(x, y)
        if d == 0:
            return True
        sp = self.support(d, TABLE_BITS)
        if sp is None:
            return None
        lv = sorted(sp)
        tb = self.table(d, lv)
        if tb == 0:
            return True
        k = (tb & -tb).bit_length() - 1
        return (False, {self.nodes[l][1:]: (k >> j) & 1 for j, l in enumerate(lv)})


# ---------------------------------------------------------------- z3

_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


class Z3Enc:
    def __init__(self, cut=None):
        self.z = z3mod()
        self.m = {}
        self.leaves = {}
        self.cut = cut or {}

    def leaf(self, t):
        v = self.z.BitVec('v%d' % t.id, t.w)
        self.leaves[t] = v
        return v

    def enc(self, root):
        z = self.z
        m = self.m
        if root.__class__ is int:
            raise Exception('int')
        st = [root]
        while st:
            t = st[-1]
            if t in m:
                st.pop()
                continue
            if t in self.cut or t.op in ('s', 'uf'):
                m[t] = self.leaf(t)
                st.pop()
                continue
            need = [c for c in children(t) if c not in m]
            if need:
                st.extend(need)
                continue
            m[t] = self.one(t)
            st.pop()
        return m[root]

    def val(self, x, w):
        return self.z.BitVecVal(x, w) if x.__class__ is int else self.m[x]

    def one(self, t):
        z = self.z
        m = self.m
        op = t.op
        a = t.a
        w = t.w
        if op == 'c':
            return z.BitVecVal(a[0], w)
        if op == 'lin':
            r = z.BitVecVal(a[0], w) if a[0] else None
            for x, c in a[1]:
                y = m[x]
                if c == M(w):
                    y = -y
                elif c != 1:
                    y = y * z.BitVecVal(c, w)
                r = y if r is None else r + y
            return r
        if op == 'mul':
            return m[a[0]] * m[a[1]]
        if op == 'cat':
            ps = [self.val(p, n) for p, n in reversed(a)]
            return z.Concat(*ps) if len(ps) > 1 else ps[0]
        if op == 'ext':
            return z.Extract(a[1] + w - 1, a[1], m[a[0]])
        if op == 'sext':
            return z.SignExt(w - a[0].w, m[a[0]])
        if op == 'and':
            return m[a[0]] & m[a[1]]
        if op == 'or':
            return m[a[0]] | m[a[1]]
        if op == 'xor':
            r = z.BitVecVal(a[0], w) if a[0] else None
            for x in a[1]:
                r = m[x] if r is None else r ^ m[x]
            return r
        if op == 'ite':
            return z.If(m[a[0]] == z.BitVecVal(1, 1), m[a[1]], m[a[2]])
        if op in ('eq', 'ult', 'slt'):
            x, y = m[a[0]], m[a[1]]
            c = x == y if op == 'eq' else z.ULT(x, y) if op == 'ult' else x < y
            return z.If(c, z.BitVecVal(1, 1), z.BitVecVal(0, 1))
        if op == 'shl':
            return m[a[0]] << m[a[1]]
        if op == 'lshr':
            return z.LShR(m[a[0]], m[a[1]])
        if op == 'ashr':
            return m[a[0]] >> m[a[1]]
        if op == 'udiv':
            return z.UDiv(m[a[0]], m[a[1]])
        if op == 'urem':
            return z.URem(m[a[0]], m[a[1]])
        if op == 'sdiv':
            return m[a[0]] / m[a[1]]
        if op == 'srem':
            return z.SRem(m[a[0]], m[a[1]])
        raise Exception('z3 ' + op)


def z3_check(conds, timeout, cut=None):
    """conds: list of 1-bit terms; satisfiable together?  -> ('unsat',None)|('sat',{sym:value})|('unknown',None)"""
    z = z3mod()
    e = Z3Enc(cut)
    s = z.SolverFor('QF_BV')
    s.set('timeout', int(timeout * 1000))
    for c in conds:
        if c.__class__ is int:
            if not c:
                return ('unsat', None)
            continue
        s.add(e.enc(c) == z.BitVecVal(1, 1))
    t0 = time.time()
    r = s.check()
    stat('z3_s', time.time() - t0)
    stat('z3_calls')
    if r == z.unsat:
        return ('unsat', None)
    if r == z.sat:
        mo = s.model()
        return ('sat', {t: (mo.eval(v, model_completion=True).as_long()) for t, v in e.leaves.items()})
    return ('unknown', None)


# ---------------------------------------------------------------- alpha-normalised keys

def alpha_key(conds, limit=4000, cut=None):
    """canonical description of a small query, equal for queries that differ in symbol names only"""
    num = {}
    out = []
    leaves = []
    cut = cut or {}
    order = []
    seen = set()
    for c in conds:
        if c.__class__ is int:
            out.append(c)
            continue
        st = [(c, None)]
        while st:
            t, it = st[-1]
            if it is None:
                if t in seen:
                    st.pop()
                    continue
                seen.add(t)
                if t.op in ('s', 'uf') or t in cut:
                    it = iter(())
                else:
                    ch = children(t)
                    it = iter(ch)
                st[-1] = (t, it)
            for x in it:
                if x not in seen:
                    st.append((x, None))
                    break
            else:
                st.pop()
                order.append(t)
        if len(order) > limit:
            return None, None
    for t in order:
        i = len(num)
        num[t] = i
        op, a = t.op, t.a
        if op in ('s', 'uf') or t in cut:
            k = ('v', t.w, len(leaves))
            leaves.append(t)
        elif op == 'c':
            k = ('c', t.w, a[0])
        elif op == 'lin':
            k = (op, t.w, a[0], tuple((num[x], c) for x, c in a[1]))
        elif op == 'cat':
            k = (op, tuple((p, n) if p.__class__ is int else ('n', num[p], n) for p, n in a))
        elif op == 'ext':
            k = (op, t.w, num[a[0]], a[1])
        elif op == 'xor':
            k = (op, a[0], tuple(num[x] for x in a[1]))
        else:
            k = (op, t.w, tuple(num[x] for x in a))
        out.append(k)
    out.append(tuple(num[c] for c in conds if c.__class__ is not int))
    return tuple(out), leaves


ALPHA = {}


def z3_cached(conds, timeout, cut=None):
    key, leaves = alpha_key(conds, cut=cut)
    if key is not None:
        r = ALPHA.get(key)
        if r is not None:
            stat('z3_cached')
            if r[0] == 'sat':
                return ('sat', dict(zip(leaves, r[1])))
            return (r[0], None)
    r = z3_check(conds, timeout, cut)
    if key is not None and r[0] != 'unknown':
        if r[0] == 'sat':
            ALPHA[key] = ('sat', [r[1].get(t, 0) for t in leaves])
        else:
            ALPHA[key] = r
    return r


# ---------------------------------------------------------------- evaluation

CORNERS = [0, -1, 1, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA, 0x8000000080008080, 0x7fff7fff7fff7f7f]


SMALL = 5000        # terms up to this size get more samples


def run_shape(rng):
    """first index of the run, and how much less the last element is"""
    return rng.choice((0, rng.randrange(0, 17), rng.randrange(0, 17))), rng.randrange(0, 8)


def run_value(t, rng, runs):
    """arrays whose elements from some index on are all ones, the last of each 16 a little less: long carries"""
    n = str(t.a)
    base, _, i = n.partition('[')
    i = int(i.split(']')[0]) if i and i.split(']')[0].isdigit() else 0
    k = runs.get(base)
    if k is None:
        k = runs[base] = run_shape(rng)
    if i % 16 == 15:
        return M(t.w) - k[1] & M(t.w)
    return M(t.w) if i % 16 >= k[0] else rng.getrandbits(t.w)


def small(roots, limit=SMALL):
    seen = set()
    st = [r for r in roots if r.__class__ is not int]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if len(seen) > limit:
            return False
        st.extend(children(t))
    return True


def random_env(rng, mode):
    """assignment of symbols, lazily drawn"""
    memo = {}
    runs = {}

    def env(t):
        v = memo.get(t)
        if v is None:
            if mode < 0:
                v = run_value(t, rng, runs)
            elif mode < len(CORNERS):
                v = CORNERS[mode] & M(t.w)
            elif mode % 3 == 0:
                v = rng.choice((0, 1, M(t.w), 1 << (t.w - 1), rng.getrandbits(t.w)))
            else:
                v = rng.getrandbits(t.w)
            memo[t] = v
        return v
    env.memo = memo
    return env


def find_cex(goals, seed, rounds, assume=()):
    """goals: (label, impl, spec, w).  First assignment that separates one of them."""
    rng = random.Random(seed)
    roots = [x for g in goals for x in g[1:3]] + list(assume)
    roots = [x for x in roots if x.__class__ is not int]
    for r in range(rounds + (60 if small(roots) else 0)):
        env = random_env(rng, r if r < len(CORNERS) else r + 100 if r < rounds else -1)
        val = evaluate(roots, env)
        if any((val[a] if a.__class__ is not int else a) == 0 for a in assume):
            continue
        bad = []
        for g in goals:
            x = g[1] if g[1].__class__ is int else val[g[1]]
            y = g[2] if g[2].__class__ is int else val[g[2]]
            if x != y:
                bad.append((g, x, y))
        if bad:
            return bad, dict(env.memo)
    return None, None


# ---------------------------------------------------------------- equality goals

class Result:
    __slots__ = ('label', 'status', 'method', 'env', 'impl', 'spec', 'detail')

    def __init__(self, label, status, method, env=None, detail=''):
        self.label = label
        self.status = status      # proved | cex | unknown
        self.method = method
        self.env = env
        self.detail = detail


def bounds_of(t, w):
    if t.__class__ is not int and t.op == 'cat':
        out = [0]
        for p, n in t.a:
            out.append(out[-1] + n)
        return out
    return [0, w]


def split(i, s, w, out):
    """reduce i == s to sufficient sub-goals (x, y, bits, kind)"""
    if i is s:
        return
    if i.__class__ is int and s.__class__ is int:
        if i != s:
            out.append((i, s, w))
        return
    b = sorted(set(bounds_of(i, w)) | set(bounds_of(s, w)))
    if len(b) > 2:
        for lo, hi in zip(b, b[1:]):
            x, y = ext(i, lo, hi - lo), ext(s, lo, hi - lo)
            if not (x is y or (x.__class__ is int and x == y)):
                if x.__class__ is not int and x.op == 'cat' or y.__class__ is not int and y.op == 'cat':
                    split(x, y, hi - lo, out)
                else:
                    out.append((x, y, hi - lo))
        return
    out.append((i, s, w))


def nonzero_of(t):
    """(X, width) if the 1-bit value t says that X is not zero"""
    if t.__class__ is int or t.w != 1:
        return None
    if t.op == 'xor' and t.a[0] == 1 and len(t.a[1]) == 1 and t.a[1][0].op == 'eq':
        a, b = t.a[1][0].a
        w = a.w if a.__class__ is not int else b.w
        if b.op == 'c' and b.a[0] == 0:
            return a, w
        if a.op == 'c' and a.a[0] == 0:
            return b, w
        return bxor(w, uc(a), uc(b)), w
    if t.op == 'ext' and t.a[0].op == 'lin' and t.a[1] == t.a[0].w - 1:
        c, es = t.a[0].a
        if c == 0 and len(es) == 1 and es[0][1] == M(t.a[0].w) and not maybe_ones(es[0][0], t.a[0].w) >> t.a[1]:
            return es[0][0], t.a[0].w
    return None


def xors(w, xs):
    r = 0
    for x in xs:
        r = bxor(w, r, x)
    return r


def disjuncts(x, w):
    """bytes whose disjunction is non-zero iff x is"""
    out = []
    st = [(x, w)]
    while st:
        u, n = st.pop()
        if u.__class__ is int:
            if u:
                return None
            continue
        if u.op == 'or':
            st += [(a, n) for a in u.a[::-1]]
        elif u.op == 'cat' and (n > 8 or u.a[-1][0].__class__ is int and u.a[-1][0] == 0):
            st += [(a, m) for a, m in u.a[::-1]]
        elif n > 8 and u.op == 'xor' and n % 8 == 0:
            st += [(xors(8, [ext(a, i, 8) for a in u.a[1]] + [u.a[0] >> i & 255]), 8) for i in range(n - 8, -8, -8)]
        else:
            out.append((u, n))
    return out


def disjuncts_pairs(x, y, w):
    """pairs whose equality implies x == y, for two tests of many bytes against an input"""
    for i in range(1, w):
        a = ext(x, i, 1)
        b = ext(y, i, 1)
        if not (a.__class__ is int and b.__class__ is int and a == b):
            return None
    a, b = nonzero_of(ext(x, 0, 1)), nonzero_of(ext(y, 0, 1))
    if not a or not b:
        return None
    ds = []
    for u in (a, b):
        l = disjuncts(*u)
        if l is None or len(l) < 8:
            return None
        d = {}
        for t, n in l:
            if t.op != 'xor':
                return None
            key = tuple(sorted(z.a[0] for z in t.a[1] if z.op == 's'))
            rest = xors(n, [t.a[0]] + [z for z in t.a[1] if z.op != 's'])
            if not key or (key, n) in d:
                return None
            d[(key, n)] = rest
        ds.append(d)
    if set(ds[0]) != set(ds[1]):
        return None
    return [(v, ds[1][k], k[1]) for k, v in ds[0].items()]


def prove_equal(goals, seed=1, z3_timeout=20, rounds=12, expand=True, log=None):
    """goals: list of (label, impl, spec, width) -> list of Result"""
    res = {}
    todo = []
    for k, (label, i, s, w) in enumerate(goals):
        if i is s or (i.__class__ is int and s.__class__ is int and i == s):
            res[k] = Result(label, 'proved', 'norm')
        else:
            todo.append(k)
    if todo:
        bad, env = find_cex([(k,) + tuple(goals[k][1:]) for k in todo], seed, rounds)
        if bad:
            for g, x, y in bad:
                res[g[0]] = Result(goals[g[0]][0], 'cex', 'evaluation', env, 'code %#x, specification %#x' % (x, y))
        todo = [k for k in todo if k not in res]
    for k in todo[:]:
        ps = disjuncts_pairs(goals[k][1], goals[k][2], goals[k][3])
        if ps and all(r.status == 'proved' for r in prove_equal([(i, a, b, w) for i, (a, b, w) in enumerate(ps)], seed, z3_timeout, 3)):
            res[k] = Result(goals[k][0], 'proved', 'disjuncts')
            todo.remove(k)
    # sub-goals
    subs = {}
    for k in todo:
        out = []
        split(goals[k][1], goals[k][2], goals[k][3], out)
        subs[k] = out
    # UF arguments: congruence is handled by sweeping
    for exp in ((False, True) if expand else (False,)):
        rg = {}
        for k in todo:
            for (x, y, w) in subs[k]:
                g = ring_goal(x, y, w)
                if g:
                    rg.setdefault(g, len(rg))
        if not rg:
            break
        if exp and not any(t.op == 'uf' and t.a[0] in PM for t in topo([x for g in rg for x in g[:2]])):
            break
        R = Ring(exp)
        t0 = time.time()
        rr = R.prove(list(rg))
        stat('ring_s', time.time() - t0)
        ok = {g: r == 1 for g, r in zip(rg, rr)}
        for k in todo:
            left = []
            for (x, y, w) in subs[k]:
                g = ring_goal(x, y, w)
                if g and ok[g]:
                    continue
                left.append((x, y, w))
            if len(left) < len(subs[k]) and not left:
                res[k] = Result(goals[k][0], 'proved', 'ring')
            subs[k] = left
        todo = [k for k in todo if k not in res]
        if not todo:
            break
    # bit level
    if todo:
        B = Bits()
        for k in todo:
            left = []
            for (x, y, w) in subs[k]:
                st = bit_goal(B, x, y, w)
                if st is True:
                    continue
                left.append((x, y, w))
            if not left:
                res[k] = Result(goals[k][0], 'proved', 'table')
            subs[k] = left
        todo = [k for k in todo if k not in res]
    # sweep
    if todo:
        import sweep
        flat = [(k, g) for k in todo for g in subs[k]]
        red = sweep.reduce_goals([g for k, g in flat], seed)
        new = {k: [] for k in todo}
        for (k, (x, y, w)), (a, b) in zip(flat, red):
            if a is b or a.__class__ is int and a == b:
                continue
            new[k].append((a, b, w))
        for k in todo:
            subs[k] = new[k]
            if not subs[k]:
                res[k] = Result(goals[k][0], 'proved', 'sweep')
        todo = [k for k in todo if k not in res]
    # z3
    for k in todo:
        left = []
        for (x, y, w) in subs[k]:
            if size_limit([x, y], 6000):
                st, env = z3_cached([ne(w, x, y)], z3_timeout)
            else:
                st, env = 'unknown', None
            if st == 'unsat':
                continue
            if st == 'sat':
                # a model over free spec functions: real only if it evaluates to a difference
                e = {t: v for t, v in env.items() if t.op == 's'}
                rng = random.Random(seed)
                m2 = dict(e)

                def envf(t):
                    if t not in m2:
                        m2[t] = rng.getrandbits(t.w)
                    return m2[t]
                gi, gs = goals[k][1], goals[k][2]
                val = evaluate([v for v in (gi, gs) if v.__class__ is not int], envf)
                a = gi if gi.__class__ is int else val[gi]
                b = gs if gs.__class__ is int else val[gs]
                if a != b:
                    res[k] = Result(goals[k][0], 'cex', 'z3', m2, 'code %#x, specification %#x' % (a, b))
                    break
            left.append((x, y, w))
        if k not in res and not left:
            res[k] = Result(goals[k][0], 'proved', 'z3')
        subs[k] = left
    todo = [k for k in todo if k not in res]
    for k in todo:
        x, y, w = subs[k][0]
        res[k] = Result(goals[k][0], 'unknown', '', None, 'open sub-goal %s == %s' % (show(x, 4)[:300], show(y, 4)[:300]))
    for k in res:
        res[k].impl, res[k].spec = goals[k][1], goals[k][2]
        if res[k].status == 'proved':
            stat('by_' + res[k].method)
    return [res[k] for k in range(len(goals))]


def size_limit(roots, n, cut=()):
    seen = set()
    st = [r for r in roots if r.__class__ is not int]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if len(seen) > n:
            return False
        if t.op not in ('s', 'uf') and t not in cut:
            st.extend(children(t))
    return True


def ring_goal(x, y, w):
    if x.__class__ is not int and y.__class__ is not int and x.op == 'ext' and y.op == 'ext' and x.a[1] == y.a[1] and x.a[1] + w <= 64:
        a, b = x.a[0], y.a[0]
        return (a, b, x.a[1] + w)
    if w <= 64:
        return (x, y, w)
    return None


def bit_goal(B, x, y, w, limit=3000):
    if not size_limit([x, y], limit, B.cut):
        return None
    for i in range(w):
        p = B.bit(x, i) if x.__class__ is not int else (x >> i) & 1
        q = B.bit(y, i) if y.__class__ is not int else (y >> i) & 1
        r = B.equal_bits(p, q)
        if r is not True:
            return r
    return True


def sample_cond(conds, seed, n=12, limit=60000):
    """an assignment that satisfies all of conds, by trying a few"""
    rs = [c for c in conds if c.__class__ is not int]
    xs = symbols(rs)
    if not size_limit(rs, limit):
        return None
    rng = random.Random(seed)
    for i in range(n):
        m = {}

        def envf(t):
            if t not in m:
                r = rng.getrandbits(t.w)
                m[t] = 0 if i == 0 else M(t.w) if i == 1 else r & rng.getrandbits(t.w) if i % 3 == 0 else r
            return m[t]
        for x in xs:
            envf(x)
        val = evaluate(rs, envf)
        if all(val[c] for c in rs):
            return m
    return None


def prove_cond(cond, pc, z3_timeout=20, seed=1):
    """cond holds whenever every pc does"""
    if cond.__class__ is int and cond:
        return ('proved', 'norm', None)
    conds = list(pc) + [bxor(1, cond, 1)]
    if any(c.__class__ is int and not c for c in conds):
        return ('proved', 'norm', None)
    env = sample_cond(conds, seed)
    if env is not None:
        return ('cex', 'evaluation', env)
    if not size_limit(conds, 20000):
        return ('unknown', '', None)
    st, env = z3_cached(conds, z3_timeout)
    if st == 'unsat':
        return ('proved', 'z3', None)
    if st == 'sat':
        m2 = {t: v for t, v in env.items() if t.op == 's'}
        rng = random.Random(seed)

        def envf(t):
            if t not in m2:
                m2[t] = rng.getrandbits(t.w)
            return m2[t]
        rs = [c for c in conds if c.__class__ is not int]
        val = evaluate(rs, envf)
        if all(val[c] for c in rs):
            return ('cex', 'z3', m2)
        return ('unknown', 'z3', None)
    return ('unknown', 'z3', None)
