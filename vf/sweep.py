"""Equivalence sweeping: nodes of the code's and the specification's terms that agree on sample inputs are
candidate equals; each candidate is proved locally (from the leaves up, with the equalities proved so far
substituted) and then merged.  Nothing is merged without a proof; samples only choose what to try.

A specification function kept opaque in a contract (a hash compression, a permutation, ...) is unfolded to its
definition when a node of the code agrees with one of its results."""
import heapq
import random
import time
from terms import *
import terms as TM
import spec
import prover

FREE = False         # sample spec functions as free functions (set for code whose results are counted up)


def rebuild(t, rep):
    """t over the representatives of its children"""
    op, a, w = t.op, t.a, t.w
    g = lambda x: rep.get(x, x) if x.__class__ is not int else x
    if op in ('s', 'c'):
        return t
    if op == 'lin':
        return lin(w, a[0], [(g(x), c) for x, c in a[1]])
    if op == 'mul':
        return mul(w, g(a[0]), g(a[1]))
    if op == 'cat':
        return cat([(g(p), n) for p, n in a])
    if op == 'ext':
        return ext(g(a[0]), a[1], w)
    if op == 'sext':
        return sext(g(a[0]), w, a[0].w)
    if op == 'and':
        return band(w, g(a[0]), g(a[1]))
    if op == 'or':
        return bor(w, g(a[0]), g(a[1]))
    if op == 'xor':
        r = a[0]
        for x in a[1]:
            r = bxor(w, r, g(x))
        return r
    if op == 'ite':
        return ite(g(a[0]), g(a[1]), g(a[2]), w)
    if op in ('eq', 'ult', 'slt'):
        return {'eq': eq, 'ult': ult, 'slt': slt}[op](a[0].w, g(a[0]), g(a[1]))
    if op in ('shl', 'lshr', 'ashr'):
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](w, g(a[0]), g(a[1]))
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        return divop(op, w, g(a[0]), g(a[1]))
    if op == 'tup':
        return tup([(g(x), x.w) for x in a])
    if op == 'uf':
        y = g(a[1])
        if all(x.op == 'c' for x in y.a):
            return UFIMPL[a[0]]([x.a[0] for x in y.a])[a[2]]
        return TM.mk('uf', w, (a[0], y, a[2]))
    return t


class Linear:
    """bits as sets over GF(2): expands xor, cat, ext and sext; every other node is an atom"""

    def __init__(self, limit=400):
        self.memo = {}
        self.limit = limit

    def deps(self, t, i):
        op, a = t.op, t.a
        if op == 'ext':
            return ((a[0], a[1] + i),)
        if op == 'cat':
            pos = 0
            for p, n in a:
                if i < pos + n:
                    return () if p.__class__ is int else ((p, i - pos),)
                pos += n
        if op == 'xor':
            return tuple((x, i) for x in a[1])
        if op == 'sext':
            return ((a[0], min(i, a[0].w - 1)),)
        return ()

    def bit(self, t, i):
        m = self.memo
        st = [(t, i)]
        while st:
            k = st[-1]
            if k in m:
                st.pop()
                continue
            x, j = k
            d = self.deps(x, j)
            need = [y for y in d if y not in m]
            if need:
                st.extend(need)
                continue
            st.pop()
            op = x.op
            if op == 'c':
                r = frozenset((1,)) if (x.a[0] >> j) & 1 else frozenset()
            elif op == 'cat' and not d:
                pos = 0
                r = None
                for p, n in x.a:
                    if j < pos + n:
                        r = frozenset((1,)) if (p >> (j - pos)) & 1 else frozenset()
                        break
                    pos += n
            elif op == 'xor':
                r = set((1,)) if (x.a[0] >> j) & 1 else set()
                for y in d:
                    v = m[y]
                    if v is None:
                        r = None
                        break
                    r ^= v
                if r is not None:
                    r = frozenset(r) if len(r) <= self.limit else None
            elif d:
                r = m[d[0]]
            else:
                r = frozenset((k,))
            m[k] = r
        return m[(t, i)]

    def equal(self, a, b, w):
        for i in range(w):
            x = self.bit(a, i)
            y = self.bit(b, i)
            if x is None or x != y:
                return False
        return True


def lin_equal(a, b, w, alt=None, steps=4000):
    """a - b modulo 2^w, sums expanded from the top until it vanishes"""
    d = {}
    h = []
    mask = M(w)
    const = 0
    rest = {}
    alt = alt or {}

    def put(t, c):
        nonlocal const
        if t.__class__ is not int:
            if t.op == 'ext' and t.a[1] == 0 and t.a[0] in alt:
                t = t.a[0]
            t = alt.get(t, t)
            if t.op == 'ext' and t.a[1] == 0 and t.a[0].op in ('lin', 'xor'):
                t = t.a[0]
            if t.w > w and t.op != 'lin' and not (t.op == 'xor' and len(t.a[1]) == 1):
                t = ext(t, 0, w)
                if t.__class__ is not int and t.op == 'ext' and t.a[1] == 0 and t.a[0].op == 'lin':
                    t = t.a[0]
        if t.__class__ is int:
            const += t * c
            return
        if t.op == 'lin' or t.op == 'xor' and len(t.a[1]) == 1 or t.op == 'cat' and t.a[0][0].__class__ is int and t.a[0][0] == 0:
            if t in d:
                d[t] = (d[t] + c) & mask
            else:
                d[t] = c & mask
                heapq.heappush(h, (-t.id, t))
        else:
            rest[t] = (rest.get(t, 0) + c) & mask
    put(a, 1)
    put(b, -1)
    while h:
        _, t = heapq.heappop(h)
        c = d.pop(t)
        if not c:
            continue
        steps -= 1
        if steps < 0:
            return False
        if t.op == 'lin':
            const += t.a[0] * c
            for x, k in t.a[1]:
                put(x, k * c)
        elif t.op == 'xor' and t.a[0] & mask == mask:
            const -= c
            put(t.a[1][0], -c)
        elif t.op == 'cat':
            # a shifted value: 2^k times its low part
            k = t.a[0][1]
            x = t.a[1][0] if len(t.a) == 2 else None
            if x is not None and x.op == 'ext' and x.a[1] == 0 and x.w + k >= w:
                put(x.a[0], c << k)
            else:
                rest[t] = (rest.get(t, 0) + c) & mask
        else:
            rest[t] = (rest.get(t, 0) + c) & mask
    return const & mask == 0 and not any(rest.values())


class FreeResults:
    """samples only: a spec function as an arbitrary function, with results that carry far when counted up"""

    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def get(self, k):
        r = self.memo.get(k)
        if r is None:
            rng = random.Random(hash((self.seed,) + k[1]))
            t, d = prover.run_shape(rng)
            r = self.memo[k] = [(255 - d if i % 16 == 15 else 255 if i % 16 >= t else rng.getrandbits(8)) for i in range(256)]
        return r


class Sweep:
    def __init__(self, seed=1, samples=20, z3_timeout=2, limit=240, unfold=True, more=0, free=False):
        self.rng = random.Random(seed)
        self.envs = []
        for i in range(samples):
            self.envs.append(self.mkenv(i))
        for i in range(more):
            self.envs.append(prover.random_env(random.Random(self.rng.random()), -1))
        self.ufcs = [{}] * samples + [FreeResults(i) if free else {} for i in range(more)]
        samples += more
        self.deep = free
        self.vals = [{} for _ in range(samples)]
        self.rep = {}
        self.cls = {}
        self.z3_timeout = z3_timeout
        self.end = time.time() + limit
        self.fails = {}
        self.unf = {}
        self.unfold = unfold
        self.busy = set()
        self.opened = set()
        self.alt = {}       # opaque node -> sum proved equal to it
        self.linear = Linear()
        self.merged = 0
        self.tried = 0
        self.z3_left = 60.0

    def mkenv(self, i):
        rng = random.Random(self.rng.random())
        memo = {}

        def env(t):
            v = memo.get(t)
            if v is None:
                if i == 0:
                    v = 0
                elif i == 1:
                    v = M(t.w)
                elif i % 5 == 2:
                    v = rng.choice((0, 1, M(t.w), 1 << (t.w - 1), rng.getrandbits(t.w)))
                elif i % 5 == 3:
                    v = rng.getrandbits(t.w) if rng.random() < 0.02 else 0
                else:
                    v = rng.getrandbits(t.w)
                memo[t] = v & M(t.w)
            return memo[t]
        return env

    def sig(self, t):
        v0 = self.vals[0]
        if t not in v0:
            for x in topo_new(t, v0):
                for val, env, ufc in zip(self.vals, self.envs, self.ufcs):
                    val[x] = eval1(x, val, env, ufc)
        return tuple(v[t] for v in self.vals)

    # ---- the sweep
    def visit(self, t):
        """representative of t; its cone is swept first"""
        if t.__class__ is int:
            return t
        rep = self.rep
        for x in topo_new(t, rep):
            if x not in rep:
                r = self.one(x)
                rep.setdefault(x, r)
        return rep[t]

    def one(self, t):
        ch = children(t)
        rep = self.rep
        if any(rep.get(c, c) is not c for c in ch):
            n = rebuild(t, rep)
            if n.__class__ is int:
                self.merged += 1
                return n
            if n is not t:
                r = rep.get(n)
                if r is not None:
                    return r
        else:
            n = t
        if n.w == 0 or n.op in ('c', 's') or n.op == 'ext' and n.a[0].op in ('s', 'uf'):
            return n
        if n.op == 'c':
            return n.a[0]
        s = (n.w,) + self.sig(n)
        l = self.cls.get(s)
        if l is None:
            v = s[1]
            if all(x == v for x in s[2:]) and self.fails.get(('const', n.w, v), 0) < 6:
                if self.prove_const(n, v):
                    self.merged += 1
                    return v
                self.fails[('const', n.w, v)] = self.fails.get(('const', n.w, v), 0) + 1
            self.cls[s] = [n]
            return n
        if n in l:
            return n
        if time.time() < self.end and self.fails.get(s, 0) < 4:
            for r in l[:3]:
                if self.congruent(n, r) or self.equal(n, r, n.w, self.deep) or self.unfold and self.try_unfold(n, r):
                    self.merged += 1
                    r = self.rep.get(r, r)
                    if n.op == 'lin' and r.__class__ is not int and r.op != 'lin':
                        self.alt.setdefault(r, n)
                    return r
            self.fails[s] = self.fails.get(s, 0) + 1
        l.append(n)
        return n

    def try_unfold(self, n, r):
        """r is an opaque result that agrees with n on the samples: sweep its definition"""
        if n.op == 'uf':
            n, r = r, n
        if r.op != 'uf' or n.op == 'uf' or r.a[0] not in spec.DEF:
            return False
        k = (r.a[0], r.a[1])
        d = self.unf.get(k)
        if d is None:
            if len(self.unf) > 4000:
                return False
            d = self.unf[k] = spec.DEF[r.a[0]]([x if x.op != 'c' else x.a[0] for x in r.a[1].a])
            prover.stat('unfolded')
        if k in self.busy:
            return False
        self.busy.add(k)
        # the definition's nodes are swept among the nodes of the code; e == r holds by definition
        q = self.visit(d[r.a[2]])
        if q is n or q.__class__ is not int and self.equal(n, q, n.w):
            if k not in self.opened:
                self.opened.add(k)
                for j, e in enumerate(d):
                    if e.__class__ is int:
                        continue
                    v = self.visit(e)
                    if v.__class__ is int or v.op == 'uf':
                        continue
                    u = TM.mk('uf', e.w, (r.a[0], r.a[1], j))
                    u = self.rep.get(u, u)
                    if v.op == 'lin':
                        self.alt.setdefault(u, v)
                    self.rep[v] = self.rep[e] = u
            self.busy.discard(k)
            return True
        self.busy.discard(k)
        return False

    # ---- local proofs
    def prove_const(self, n, v):
        if n.op in ('uf', 's'):
            return False
        cone = self.cone1(n, 120)
        if cone is None:
            return False
        return self.local(n, v, n.w, None)

    def cone1(self, n, limit):
        seen = set()
        st = [n]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if len(seen) > limit:
                return None
            if t.op not in ('s', 'uf'):
                st.extend(children(t))
        return seen

    def congruent(self, n, r):
        """the same result of one function, on arguments that are equal one by one"""
        if n.op != 'uf' or r.op != 'uf' or n.a[0] != r.a[0] or n.a[2] != r.a[2]:
            return False
        x, y = n.a[1].a, r.a[1].a
        return len(x) == len(y) and all(p is q or p.w == q.w and self.sig(p) == self.sig(q) and self.equal(p, q, p.w, True) for p, q in zip(x, y))

    def equal(self, a, b, w, deep=False):
        self.tried += 1
        if lin_equal(a, b, w, self.alt):
            return True
        if self.linear.equal(a, b, w):
            return True
        cut, size = self.cutset(a, b, 800)
        if cut is None:
            return False
        if self.local(a, b, w, cut):
            return True
        if deep or a in cut or b in cut:
            # the cut may hide how its nodes relate: once more over the leaves
            x, y = self.cone1(a, 800), self.cone1(b, 800)
            return x is not None and y is not None and self.local(a, b, w, {})
        return False

    def cutset(self, a, b, limit):
        """the highest nodes that both cones share"""
        flag = {a: 1, b: 2}
        h = [(-a.id, a), (-b.id, b)]
        heapq.heapify(h)
        cut = {}
        n = 0
        while h:
            _, t = heapq.heappop(h)
            f = flag[t]
            if f == 3 or t.op in ('s', 'uf'):
                cut[t] = 1
                continue
            n += 1
            if n > limit:
                return None, n
            for c in children(t):
                c = c if c.__class__ is not int else None
                if c is None or c.op == 'c':
                    continue
                g = flag.get(c, 0)
                if not g:
                    heapq.heappush(h, (-c.id, c))
                flag[c] = g | f
        return cut, n

    def local(self, a, b, w, cut):
        if w <= 64:
            g = prover.ring_goal(a, b, w)
            if g and any(x.__class__ is not int and x.op in ('lin', 'mul') for x in (a, b)):
                R = prover.Ring(False)
                if R.prove([g])[0] == 1:
                    return True
        B = prover.Bits(cut)
        try:
            st = prover.bit_goal(B, a, b, w, 1200)
        except MemoryError:
            st = None
        if st is True:
            return True
        if st is not None:
            return False
        if self.z3_left <= 0:
            return False
        t0 = time.time()
        st, env = prover.z3_cached([ne(w, a, b)], self.z3_timeout, cut)
        self.z3_left -= time.time() - t0
        return st == 'unsat'


def topo_new(root, seen):
    """post-order of the nodes under root that are not in seen"""
    out = []
    if root in seen:
        return out
    mark = set()
    stack = [(root, None)]
    while stack:
        t, it = stack[-1]
        if it is None:
            if t in mark or t in seen:
                stack.pop()
                continue
            mark.add(t)
            it = iter(children(t))
            stack[-1] = (t, it)
        for c in it:
            if c not in seen and c not in mark:
                stack.append((c, None))
                break
        else:
            stack.pop()
            out.append(t)
    return out


def reduce_goals(goals, seed=1, z3_timeout=2, limit=240):
    """goals: (impl, spec, w) -> list of (impl', spec') over representatives"""
    t0 = time.time()
    S = Sweep(seed, z3_timeout=z3_timeout, limit=limit, more=200 if FREE else 60 if prover.small([z for g in goals for z in g[:2]]) else 0, free=FREE)
    for x, y, w in goals:
        S.visit(y)
    out = []
    for x, y, w in goals:
        a, b = S.visit(x), S.visit(y)
        out.append((a, b))
    prover.stat('sweep_s', time.time() - t0)
    prover.stat('sweep_merged', S.merged)
    prover.stat('sweep_tried', S.tried)
    return out
