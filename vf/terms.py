"""Hash-consed bit-vector terms with a normalising constructor layer.

Values are either Python ints (constants, always reduced modulo 2^width) or T nodes.
Every constructor takes the width explicitly where an int could be ambiguous.

Node kinds (op, width, args):
  s    (name,)                        free symbol
  lin  (const, ((t,c),...))           const + sum c*t  mod 2^w        (t.w == w)
  mul  (t1, t2)                       product mod 2^w
  cat  ((part,width),...)             concatenation, low part first, >= 2 parts
  ext  (t, lo)                        bits lo..lo+w-1 of t
  sext (t,)                           sign extension
  and/or (t1,t2)                      bitwise
  xor  (const, (t,...))               n-ary xor with constant
  shl/lshr/ashr (a, b)                shift by a non-constant amount
  udiv/urem/sdiv/srem (a,b)
  ite  (c, a, b)    eq/ult/slt (a,b)  (width 1 results for comparisons)
  uf   (fname, tup, idx)              idx-th output of an uninterpreted spec function
  tup  (args...)                      argument tuple of a uf (width 0)
"""
import sys
sys.setrecursionlimit(1000000)


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'rng', 'srng')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]
FLATTEN_LIMIT = 12


def reset():
    _tab.clear()


def mk(op, w, a):
    key = (op, w, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        _cnt[0] += 1
        t.id = _cnt[0]
        t.rng = None
        t.srng = None
        _tab[key] = t
    return t


def sym(name, w):
    return mk('s', w, (name,))


def M(w):
    return (1 << w) - 1


def is_int(x):
    return x.__class__ is int


def tid(t):
    return t.id


# ---------------------------------------------------------------- concat / extract

def cat(parts):
    """parts: list of (value,width), low first.  Returns int or T."""
    out = []
    for p, n in parts:
        if n == 0:
            continue
        if p.__class__ is not int and p.op == 'cat':
            for q in p.a:
                _push(out, q[0], q[1])
        else:
            _push(out, p, n)
    if len(out) == 1:
        return out[0][0]
    w = 0
    for p, n in out:
        w += n
    return mk('cat', w, tuple(out))


def _push(out, p, n):
    if out:
        q, m = out[-1]
        if p.__class__ is int:
            if q.__class__ is int:
                out[-1] = (q | (p << m), m + n)
                return
        elif q.__class__ is not int:
            # merge adjacent slices of the same base
            if p.op == 'ext':
                base, lo = p.a
                if q.op == 'ext':
                    if q.a[0] is base and q.a[1] + m == lo:
                        out[-1] = (ext(base, q.a[1], m + n), m + n)
                        return
                elif m == lo and q.w == m:
                    # q may be the (normalised) low slice of base
                    if base.op in ('lin', 'mul') and ext(base, 0, lo) is q:
                        out[-1] = (ext(base, 0, m + n), m + n)
                        return
                elif m == lo and base is q:
                    pass
                if q.op == 'sext' or base is q:
                    pass
            if q.op == 'sext' and p is ext(q, q.w - 1, 1) and n == 1:
                out[-1] = (sext(q.a[0], m + n), m + n)
                return
    out.append((p, n))


def zext(x, w):
    if x.__class__ is int:
        return x
    if x.w == w:
        return x
    return cat([(x, x.w), (0, w - x.w)])


def ext(x, lo, n):
    if x.__class__ is int:
        return (x >> lo) & ((1 << n) - 1)
    w = x.w
    if lo == 0 and n == w:
        return x
    op = x.op
    if op == 'c':
        return (x.a[0] >> lo) & ((1 << n) - 1)
    if op == 'cat':
        parts = []
        pos = 0
        hi = lo + n
        for p, m in x.a:
            e = pos + m
            if e > lo:
                if pos >= hi:
                    break
                a = lo - pos if lo > pos else 0
                b = (hi if hi < e else e) - pos
                if a == 0 and b == m:
                    parts.append((p, m))
                else:
                    parts.append((ext(p, a, b - a), b - a))
            pos = e
        if len(parts) == 1:
            return parts[0][0]
        return cat(parts)
    if op == 'ext':
        return ext(x.a[0], x.a[1] + lo, n)
    if op == 'lin':
        hi = lo + n
        if hi < w and cheap(x, hi, 3):
            return ext(lin(hi, x.a[0], [(ext(t, 0, hi), c) for t, c in x.a[1]]), lo, n)
        # fallthrough: lo > 0, hi == w
        if n == 1 and len(x.a[1]) == 1:
            # the usual branch-free tests for zero
            c, ((e, k),) = x.a
            if k == M(w) and c == 0 and not maybe_ones(e, w) >> lo:
                return ne(w, e, 0)
            if k == 1 and c == M(w) and not maybe_ones(e, w) >> lo:
                return eq(w, e, 0)
            if k == 1 and c == M(lo) and not maybe_ones(e, w) >> lo:
                return ne(w, e, 0)
        elif len(x.a[1]) == 1:
            m = urange(x)[1].bit_length()
            if m <= lo:
                return 0
            if m < hi:
                return cat([(ext(x, lo, m - lo), m - lo), (0, hi - m)])
    elif op == 'mul':
        hi = lo + n
        if hi < w and cheap(x, hi, 3):
            return ext(mul(hi, ext(x.a[0], 0, hi), ext(x.a[1], 0, hi)), lo, n)
    elif op == 'sext':
        y = x.a[0]
        if lo + n <= y.w:
            return ext(y, lo, n)
        if lo >= y.w:
            b = ext(y, y.w - 1, 1)
            return sext1(b, n)
        return sext(ext(y, lo, y.w - lo), n)
    elif op == 'and' or op == 'or':
        a, b = x.a
        if leafy(a) and leafy(b) and (a.op == 'cat' and _within(a, lo, n) or b.op == 'cat' and _within(b, lo, n)):
            return (band if op == 'and' else bor)(n, ext(a, lo, n), ext(b, lo, n))
    elif op == 'xor':
        if n == 1 and len(x.a[1]) == 1:
            return bxor(1, x.a[0] >> lo & 1, ext(x.a[1][0], lo, 1))
        hit = False
        for a in x.a[1]:
            if not leafy(a):
                return mk('ext', n, (x, lo))
            if a.op == 'cat' and _within(a, lo, n):
                hit = True
        if not hit:
            return mk('ext', n, (x, lo))
        r = (x.a[0] >> lo) & M(n)
        for a in x.a[1]:
            r = bxor(n, r, ext(a, lo, n))
        return r
    elif op == 'ite':
        c, a, b = x.a
        return ite(c, ext(a, lo, n), ext(b, lo, n), n)
    return mk('ext', n, (x, lo))


def cheap(t, hi, d):
    """truncating t to hi bits rebuilds only a shallow expression"""
    if t.__class__ is int or t.w <= hi:
        return True
    op = t.op
    if op == 'lin':
        if d == 0 or len(t.a[1]) > FLATTEN_LIMIT:
            return False
        for x, c in t.a[1]:
            if not cheap(x, hi, d - 1):
                return False
        return True
    if op == 'mul':
        return d > 0 and cheap(t.a[0], hi, d - 1) and cheap(t.a[1], hi, d - 1)
    if op == 'cat':
        pos = 0
        for p, m in t.a:
            if pos < hi < pos + m:
                return cheap(p, hi - pos, d)
            pos += m
        return True
    if op == 'ext':
        return True
    if op == 'ite':
        return d > 0 and cheap(t.a[1], hi, d - 1) and cheap(t.a[2], hi, d - 1)
    return True


def leafy(a):
    op = a.op
    if op == 's' or op == 'uf':
        return True
    if op == 'ext':
        return a.a[0].op == 's' or a.a[0].op == 'uf'
    if op == 'cat':
        for p, n in a.a:
            if p.__class__ is not int and p.op != 's' and p.op != 'uf' and not (p.op == 'ext' and (p.a[0].op == 's' or p.a[0].op == 'uf')):
                return False
        return True
    return False


def _within(c, lo, n):
    pos = 0
    for p, m in c.a:
        if pos <= lo and lo + n <= pos + m:
            return True
        pos += m
    return False


def sext1(b, n):
    if n == 1:
        return b
    if b.__class__ is int:
        return M(n) if b else 0
    return mk('sext', n, (b,))


def sext(x, w, xw=None):
    """sign-extend x (width x.w, or xw for ints) to w"""
    if x.__class__ is int:
        if (x >> (xw - 1)) & 1:
            return x | (M(w) ^ M(xw))
        return x
    if x.w == w:
        return x
    if x.op == 'c':
        return sext(x.a[0], w, x.w)
    if x.op == 'sext':
        return mk('sext', w, x.a)
    if x.op == 'cat':
        p, n = x.a[-1]
        if p.__class__ is int:
            if (p >> (n - 1)) & 1:
                return cat([(x, x.w), (M(w - x.w), w - x.w)])
            return cat([(x, x.w), (0, w - x.w)])
        # sext(cat(lo.., hi)) = cat(lo.., sext(hi))
        return cat(list(x.a[:-1]) + [(sext(p, n + w - x.w), n + w - x.w)])
    if x.op == 'ite':
        return ite(x.a[0], sext(x.a[1], w, x.w), sext(x.a[2], w, x.w), w)
    if smin(x) >= 0:
        return zext(x, w)
    return mk('sext', w, (x,))


# ---------------------------------------------------------------- ranges

def urange(x):
    if x.__class__ is int:
        return x, x
    r = x.rng
    if r is not None:
        return r
    op = x.op
    if op == 'c':
        x.rng = (x.a[0], x.a[0])
        return x.rng
    w = x.w
    lo, hi = 0, (1 << w) - 1
    if op == 'cat':
        l = h = 0
        pos = 0
        for p, n in x.a:
            a, b = urange(p)
            l += a << pos
            h += b << pos
            pos += n
        lo, hi = l, h
    elif op == 'lin':
        l = h = x.a[0]
        ok = True
        for t, c in x.a[1]:
            a, b = urange(t)
            if c >> (w - 1):
                c -= 1 << w
                l += c * b
                h += c * a
            else:
                l += c * a
                h += c * b
        if l >= 0 and h <= hi:
            lo, hi = l, h
        elif l - (1 << w) >= 0 and h - (1 << w) <= hi:
            lo, hi = l - (1 << w), h - (1 << w)
    elif op == 'mul':
        a = urange(x.a[0])
        b = urange(x.a[1])
        if a[1] * b[1] <= hi:
            lo, hi = a[0] * b[0], a[1] * b[1]
    elif op == 'ext':
        a, b = urange(x.a[0])
        if x.a[1] + w == x.a[0].w:
            lo, hi = a >> x.a[1], b >> x.a[1]
        elif b < (1 << (x.a[1] + w)):
            lo, hi = a >> x.a[1], b >> x.a[1]
    elif op == 'and':
        hi = min(urange(x.a[0])[1], urange(x.a[1])[1])
    elif op == 'or':
        a = urange(x.a[0])
        b = urange(x.a[1])
        lo = max(a[0], b[0])
        hi = (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
    elif op == 'xor':
        m = x.a[0].bit_length()
        for t in x.a[1]:
            m = max(m, urange(t)[1].bit_length())
        hi = (1 << m) - 1
    elif op == 'ite':
        a = urange(x.a[1])
        b = urange(x.a[2])
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
    elif op == 'sext':
        a, b = srange(x.a[0])
        if a >= 0:
            lo, hi = a, b
    elif op == 'lshr':
        hi = urange(x.a[0])[1]
    elif op == 'udiv' or op == 'urem':
        if op == 'urem':
            hi = min(urange(x.a[0])[1], max(urange(x.a[1])[1] - 1, 0)) if urange(x.a[1])[0] > 0 else hi
        else:
            hi = urange(x.a[0])[1] if urange(x.a[1])[0] > 0 else hi
    x.rng = (lo, hi)
    return x.rng


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def srange(x, w=None):
    if x.__class__ is int:
        v = sx(x, w)
        return v, v
    r = x.srng
    if r is not None:
        return r
    op = x.op
    w = x.w
    half = 1 << (w - 1)
    lo, hi = -half, half - 1
    a, b = urange(x)
    if b < half:
        lo, hi = a, b
    elif a >= half:
        lo, hi = a - 2 * half, b - 2 * half
    elif op == 'sext':
        lo, hi = srange(x.a[0])
    elif op == 'lin':
        c0 = sx(x.a[0], w)
        l = h = c0
        for t, c in x.a[1]:
            ta, tb = srange(t)
            c = sx(c, w)
            if c < 0:
                l += c * tb
                h += c * ta
            else:
                l += c * ta
                h += c * tb
        if l >= -half and h < half:
            lo, hi = l, h
    elif op == 'mul':
        a = srange(x.a[0])
        b = srange(x.a[1])
        ps = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
        if min(ps) >= -half and max(ps) < half:
            lo, hi = min(ps), max(ps)
    elif op == 'ite':
        a = srange(x.a[1], w)
        b = srange(x.a[2], w)
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
    elif op == 'cat':
        p, n = x.a[-1]
        if p.__class__ is not int:
            a, b = srange(p)
            lo = a << (w - n)
            hi = (b << (w - n)) + M(w - n)
    elif op == 'ext':
        if x.a[1] + w == x.a[0].w:
            a, b = srange(x.a[0])
            lo, hi = a >> x.a[1], b >> x.a[1]
        elif x.a[1] == 0:
            a, b = srange(x.a[0])
            if a >= -half and b < half:
                lo, hi = a, b
    x.srng = (lo, hi)
    return x.srng


def smin(x, w=None):
    return srange(x, w)[0]


def maybe_ones(x, w):
    """mask of bits that may be one"""
    if x.__class__ is int:
        return x
    if x.op == 'cat':
        pos = 0
        m = 0
        for p, n in x.a:
            m |= maybe_ones(p, n) << pos
            pos += n
        return m
    return (1 << urange(x)[1].bit_length()) - 1


# ---------------------------------------------------------------- arithmetic

def lin(w, const, entries):
    """const + sum c*t"""
    mask = (1 << w) - 1
    d = {}
    for t, c in entries:
        if t.__class__ is int:
            const += t * c
            continue
        op = t.op
        if op == 'lin' and (len(t.a[1]) + len(entries) <= FLATTEN_LIMIT or len(t.a[1]) == 1):
            const += t.a[0] * c
            for t2, c2 in t.a[1]:
                d[t2] = d.get(t2, 0) + c * c2
            continue
        if op == 'cat' and t.a[0][0] == 0 and t.a[0][0].__class__ is int:
            k = t.a[0][1]
            t = cat(list(t.a[1:]) + [(0, k)])
            c <<= k
            if t.op == 'lin':
                const += t.a[0] * c
                for t2, c2 in t.a[1]:
                    d[t2] = d.get(t2, 0) + c * c2
                continue
        d[t] = d.get(t, 0) + c
    const &= mask
    es = [(t, c & mask) for t, c in d.items() if c & mask]
    if not es:
        return const
    if len(es) == 1:
        t, c = es[0]
        if const == 0:
            if c == 1:
                return t
            if c & (c - 1) == 0:
                k = c.bit_length() - 1
                return cat([(0, k), (ext(t, 0, w - k), w - k)])
        elif c == mask and const == mask:
            return bxor(w, mask, t)       # -t-1 == ~t
        elif c == 1 and const == 1 and t.op == 'cat' and t.a[-1][0].__class__ is int and t.a[-1][0] == M(t.a[-1][1]):
            n = bxor(w, mask, t)          # ~n+1 == -n
            if n.op == 'cat' and n.a[-1][0] == 0:
                es = [(n, mask)]
                const = 0
    if len(es) == 2 and not const:
        (a, c1), (b, c2) = es
        if not (c1 & (c1 - 1)) and not (c2 & (c2 - 1)):
            k1 = c1.bit_length() - 1
            k2 = c2.bit_length() - 1
            m1 = (maybe_ones(a, w) << k1)
            m2 = (maybe_ones(b, w) << k2)
            if not (m1 & m2) and a.op == 'cat' and b.op == 'cat':
                return bor(w, shlc(w, a, k1), shlc(w, b, k2))
    es.sort(key=_ek)
    return mk('lin', w, (const, tuple(es)))


def _ek(e):
    return e[0].id


def add(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a + b) & ((1 << w) - 1)
        if a == 0:
            return b
        if b.op == 'cat' and not (a & maybe_ones(b, w)):
            return bor(w, a, b)
        return lin(w, a, ((b, 1),))
    if b.__class__ is int:
        if b == 0:
            return a
        if a.op == 'cat' and not (b & maybe_ones(a, w)):
            return bor(w, a, b)
        return lin(w, b, ((a, 1),))
    return lin(w, 0, ((a, 1), (b, 1)))


def sub(w, a, b):
    if b.__class__ is int:
        if a.__class__ is int:
            return (a - b) & ((1 << w) - 1)
        return add(w, a, -b & ((1 << w) - 1))
    if a.__class__ is int:
        return lin(w, a, ((b, -1),))
    return lin(w, 0, ((a, 1), (b, -1)))


def neg(w, a):
    return sub(w, 0, a)


def mul(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a * b) & ((1 << w) - 1)
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        return lin(w, 0, ((a, b),))
    # factor out constant coefficients?  keep it simple
    if a.id > b.id:
        a, b = b, a
    return mk('mul', w, (a, b))


# ---------------------------------------------------------------- bitwise

def _bounds(x, s):
    pos = 0
    for p, n in x.a:
        if p.__class__ is int:
            # split constants into runs where needed
            s.add(pos)
            s.add(pos + n)
        pos += n


def _segments(w, a, b):
    """split points induced by constant parts of a/b"""
    s = {0, w}
    for x in (a, b):
        if x.__class__ is int:
            v = x
            # run boundaries
            d = v ^ (v << 1)
            pos = 0
            d &= (1 << (w + 1)) - 1
            while d:
                low = d & -d
                s.add(low.bit_length() - 1)
                d ^= low
        elif x.op == 'cat':
            pos = 0
            for p, n in x.a:
                if p.__class__ is int:
                    s.add(pos)
                    s.add(pos + n)
                    d = p ^ (p << 1)
                    d &= (1 << (n + 1)) - 1
                    while d:
                        low = d & -d
                        s.add(pos + low.bit_length() - 1)
                        d ^= low
                pos += n
    return sorted(v for v in s if v <= w)


def hasconst(x):
    if x.__class__ is int:
        return True
    if x.op == 'cat':
        for p, n in x.a:
            if p.__class__ is int:
                return True
    return False


def band(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a & b
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return 0
        if b == (1 << w) - 1:
            return a
        if b & (b + 1) == 0:
            return cat([(ext(a, 0, b.bit_length()), b.bit_length()), (0, w - b.bit_length())])
    elif a is b:
        return a
    if hasconst(a) or hasconst(b):
        seg = _segments(w, a, b)
        parts = []
        for i in range(len(seg) - 1):
            lo = seg[i]
            n = seg[i + 1] - lo
            parts.append((_and1(n, ext(a, lo, n), ext(b, lo, n)), n))
        return cat(parts)
    return _and1(w, a, b)


def _and1(n, x, y):
    if x.__class__ is int:
        if y.__class__ is int:
            return x & y
        x, y = y, x
    if y.__class__ is int:
        if y == 0:
            return 0
        if y == (1 << n) - 1:
            return x
        return band(n, x, y)
    if x is y:
        return x
    if x.op == 'xor' and x.a[0] == M(n) and len(x.a[1]) == 1 and x.a[1][0] is y:
        return 0
    if y.op == 'xor' and y.a[0] == M(n) and len(y.a[1]) == 1 and y.a[1][0] is x:
        return 0
    if x.op == 'sext' and x.a[0].w == 1 and n > 1 and False:
        pass
    if x.id > y.id:
        x, y = y, x
    return mk('and', n, (x, y))


def bor(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a | b
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return b
    elif a is b:
        return a
    if hasconst(a) or hasconst(b):
        seg = _segments(w, a, b)
        parts = []
        for i in range(len(seg) - 1):
            lo = seg[i]
            n = seg[i + 1] - lo
            parts.append((_or1(n, ext(a, lo, n), ext(b, lo, n)), n))
        return cat(parts)
    return _or1(w, a, b)


def _or1(n, x, y):
    if x.__class__ is int:
        if y.__class__ is int:
            return x | y
        x, y = y, x
    if y.__class__ is int:
        if y == 0:
            return x
        if y == (1 << n) - 1:
            return y
        return bor(n, x, y)
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    return mk('or', n, (x, y))


def bxor(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a ^ b
        if a == 0:
            return b
        a, b = b, a
    if b.__class__ is int and b == 0:
        return a
    if a is b:
        return 0
    ca = a.op == 'cat' and hasconst(a)
    cb = b.__class__ is not int and b.op == 'cat' and hasconst(b)
    if ca or cb or (b.__class__ is int and b != (1 << w) - 1 and False):
        seg = {0, w}
        for x in (a, b):
            if x.__class__ is not int and x.op == 'cat':
                _bounds(x, seg)
        if ca and b.__class__ is int or cb and a.__class__ is int or len(seg) > 2:
            seg = sorted(seg)
            parts = []
            for i in range(len(seg) - 1):
                lo = seg[i]
                n = seg[i + 1] - lo
                parts.append((_xor1(n, ext(a, lo, n), ext(b, lo, n)), n))
            return cat(parts)
    return _xor1(w, a, b)


def _xor1(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a ^ b
        if a == 0:
            return b
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if a.op == 'xor':
            c = a.a[0] ^ b
            if c == 0 and len(a.a[1]) == 1:
                return a.a[1][0]
            return mk('xor', w, (c, a.a[1]))
        return mk('xor', w, (b, (a,)))
    if a is b:
        return 0
    c = 0
    s = {}
    for x in (a, b):
        if x.op == 'xor':
            c ^= x.a[0]
            for t in x.a[1]:
                if t in s:
                    del s[t]
                else:
                    s[t] = 1
        else:
            if x in s:
                del s[x]
            else:
                s[x] = 1
    if not s:
        return c
    l = sorted(s, key=tid)
    if c == 0 and len(l) == 1:
        return l[0]
    return mk('xor', w, (c, tuple(l)))


def bnot(w, a):
    return bxor(w, a, (1 << w) - 1)


# ---------------------------------------------------------------- shifts

def shlc(w, a, k):
    if k >= w:
        return 0
    if k == 0:
        return a
    if a.__class__ is int:
        return (a << k) & ((1 << w) - 1)
    return cat([(0, k), (ext(a, 0, w - k), w - k)])


def lshrc(w, a, k):
    if k >= w:
        return 0
    if k == 0:
        return a
    if a.__class__ is int:
        return a >> k
    return cat([(ext(a, k, w - k), w - k), (0, k)])


def ashrc(w, a, k):
    if k >= w:
        k = w - 1
    if k == 0:
        return a
    if a.__class__ is int:
        return (sx(a, w) >> k) & ((1 << w) - 1)
    return sext(ext(a, k, w - k), w, w - k)


def shl(w, a, b):
    if b.__class__ is int:
        return shlc(w, a, b)
    return mk('shl', w, (_t(a, w), b))


def lshr(w, a, b):
    if b.__class__ is int:
        return lshrc(w, a, b)
    return mk('lshr', w, (_t(a, w), b))


def ashr(w, a, b):
    if b.__class__ is int:
        return ashrc(w, a, b)
    return mk('ashr', w, (_t(a, w), b))


def _t(a, w):
    """force a T node for an int (constant node; only used inside opaque args)"""
    if a.__class__ is int:
        return mk('c', w, (a,))
    return a


def divop(op, w, a, b):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            return 0
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sx(a, w), sx(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & M(w)
        return (x - q * y) & M(w)
    if b.__class__ is int and b > 0 and b & (b - 1) == 0:
        k = b.bit_length() - 1
        if op in ('sdiv', 'srem') and srange(a, w)[0] >= 0:
            op = {'sdiv': 'udiv', 'srem': 'urem'}[op]
        if op == 'udiv':
            return lshrc(w, a, k)
        if op == 'urem':
            return band(w, a, b - 1)
    return mk(op, w, (_t(a, w), _t(b, w)))


# ---------------------------------------------------------------- booleans

def eq(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if b.__class__ is int:
        lo, hi = urange(a)
        if b < lo or b > hi:
            return 0
        if w == 1:
            return a if b else bxor(1, a, 1)
        if a.op == 'cat' and len(a.a) == 2:
            # zext compare
            p, n = a.a[1]
            if p.__class__ is int:
                if (b >> (w - n)) != p:
                    return 0
                return eq(w - n, a.a[0][0], b & M(w - n))
        if a.op == 'ite':
            c, x, y = a.a
            if x.__class__ is int and y.__class__ is int or x.op == 'c' and y.op == 'c':
                ex = eq(w, uc(x), b)
                ey = eq(w, uc(y), b)
                return ite(c, ex, ey, 1)
        if a.op == 'sext' and a.a[0].w == 1 and b in (0, M(w)):
            return eq(1, a.a[0], b & 1)
        if a.op == 'lin' and len(a.a[1]) == 1 and a.a[1][0][1] == 1:
            return eq(w, a.a[1][0][0], b - a.a[0] & M(w))
        if b == 0 and a.op == 'or':
            ps = byte_pairs(a, w)
            if ps is not None:
                return bytes_eq(ps)
    else:
        ra, rb = urange(a), urange(b)
        if ra[1] < rb[0] or rb[1] < ra[0]:
            return 0
        if a.id > b.id:
            a, b = b, a
        if a.op == 'cat' and b.op == 'cat' and len(a.a) == 2 and len(b.a) == 2 and a.a[0][1] == b.a[0][1] \
                and a.a[1][0].__class__ is int and a.a[1][0] == b.a[1][0]:
            return eq(a.a[0][1], a.a[0][0], b.a[0][0])
        if w >= 64 and w % 8 == 0 and a.op == 'cat' and b.op == 'cat' and all(n == 8 for _, n in a.a) and all(n == 8 for _, n in b.a):
            return bytes_eq([(p, q) for (p, _), (q, _) in zip(a.a, b.a)])
    return mk('eq', 1, (_t(a, w), _t(b, w)))


def byte_pairs(x, w):
    """[(a, b)]: x is zero iff all pairs of bytes are equal; None if x is not a disjunction of at least 8 differences"""
    out = []
    st = [(x, w)]
    while st:
        u, n = st.pop()
        if u.__class__ is int:
            if u:
                return None
        elif u.op == 'or':
            st += [(a, n) for a in u.a]
        elif u.op == 'cat':
            st += u.a
        elif u.op == 'xor' and n % 8 == 0:
            xs = list(u.a[1]) + ([u.a[0]] if u.a[0] else [])
            if len(xs) == 1:
                xs.append(0)
            if len(xs) != 2:
                return None
            out += [(ext(xs[0], i, 8), ext(xs[1], i, 8)) for i in range(0, n, 8)]
        else:
            return None
    return out if len(out) >= 8 else None


def bytes_eq(ps):
    """1 if all the pairs are equal, in an order of its own"""
    key = lambda z: (0, z) if z.__class__ is int else (1, z.id)
    ps = sorted(set((a, b) if key(a) < key(b) else (b, a) for a, b in ps if not (a is b or a.__class__ is int and b.__class__ is int and a == b)),
                key=lambda p: (key(p[0]), key(p[1])))
    if not ps:
        return 1
    if any(a.__class__ is int and b.__class__ is int for a, b in ps):
        return 0
    w = 8 * len(ps)
    a, b = cat([(p, 8) for p, _ in ps]), cat([(q, 8) for _, q in ps])
    if a.__class__ is not int and b.__class__ is not int and a.id > b.id:
        a, b = b, a
    return mk('eq', 1, (_t(a, w), _t(b, w)))


def uc(x):
    return x.a[0] if x.__class__ is not int and x.op == 'c' else x


def ne(w, a, b):
    return bxor(1, eq(w, a, b), 1)


def ult(w, a, b):
    if a.__class__ is int and b.__class__ is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    ra, rb = urange(a), urange(b)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    return mk('ult', 1, (_t(a, w), _t(b, w)))


def slt(w, a, b):
    if a.__class__ is int and b.__class__ is int:
        return 1 if sx(a, w) < sx(b, w) else 0
    if a is b:
        return 0
    ra, rb = srange(a, w), srange(b, w)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if b.__class__ is int and b == 0:
        return ext(a, w - 1, 1)
    return mk('slt', 1, (_t(a, w), _t(b, w)))


def ite(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    if c.op == 'xor' and c.a[0] == 1 and len(c.a[1]) == 1:
        return ite(c.a[1][0], b, a, w)
    if w == 1 and a.__class__ is int and b.__class__ is int:
        return c if a else bxor(1, c, 1)
    if a.__class__ is not int and a.op == 'ite' and a.a[0] is c:
        a = uc(a.a[1])
    if b.__class__ is not int and b.op == 'ite' and b.a[0] is c:
        b = uc(b.a[2])
    if c.op == 'eq' and a.__class__ is int and b.__class__ is not int and b.op == 'lin' and len(b.a[1]) == 1 and c.a[1].op == 'c':
        # x == k ? n : f(x) where f(k) is n
        x, m = b.a[1][0]
        if x is c.a[0] and b.a[0] + m * c.a[1].a[0] & M(w) == a:
            return b
    return mk('ite', w, (c, _t(a, w), _t(b, w)))


# ---------------------------------------------------------------- uninterpreted functions

UFIMPL = {}     # name -> python function(list of ints) -> list of ints


def tup(args):
    """args: iterable of (value,width)"""
    return mk('tup', 0, tuple(_t(a, w) for a, w in args))


def uf(name, args, widths):
    """Apply spec function `name`; args list of (value,width); widths list of output widths.
    Folds to constants if every argument is concrete."""
    for a, w in args:
        if a.__class__ is not int:
            break
    else:
        return UFIMPL[name]([a for a, w in args])
    t = tup(args)
    return [mk('uf', w, (name, t, i)) for i, w in enumerate(widths)]


# ---------------------------------------------------------------- traversal, evaluation

def children(t):
    op = t.op
    a = t.a
    if op == 's' or op == 'c':
        return ()
    if op == 'lin':
        return [e[0] for e in a[1]]
    if op == 'cat':
        return [p for p, n in a if p.__class__ is not int]
    if op == 'ext':
        return (a[0],)
    if op == 'xor':
        return a[1]
    if op == 'uf':
        return (a[1],)
    return a


def topo(roots):
    """post-order list of all nodes reachable from roots"""
    seen = set()
    out = []
    for r in roots:
        if r.__class__ is int or r in seen:
            continue
        stack = [(r, None)]
        while stack:
            t, it = stack[-1]
            if it is None:
                if t in seen:
                    stack.pop()
                    continue
                seen.add(t)
                it = iter(children(t))
                stack[-1] = (t, it)
            for c in it:
                if c not in seen:
                    stack.append((c, None))
                    break
            else:
                stack.pop()
                out.append(t)
    return out


def evaluate(roots, env, uf_cache=None):
    """env: callable(sym T)->int.  Returns dict T->int for all nodes."""
    val = {}
    ufc = {} if uf_cache is None else uf_cache
    for t in topo(roots):
        val[t] = eval1(t, val, env, ufc)
    return val


def eval1(t, val, env, ufc):
    op = t.op
    a = t.a
    w = t.w
    m = (1 << w) - 1
    if op == 's':
        return env(t) & m
    if op == 'c':
        return a[0]
    if op == 'lin':
        r = a[0]
        for x, c in a[1]:
            r += val[x] * c
        return r & m
    if op == 'mul':
        return (val[a[0]] * val[a[1]]) & m
    if op == 'cat':
        r = 0
        pos = 0
        for p, n in a:
            r |= (p if p.__class__ is int else val[p]) << pos
            pos += n
        return r
    if op == 'ext':
        return (val[a[0]] >> a[1]) & m
    if op == 'sext':
        return sx(val[a[0]], a[0].w) & m
    if op == 'and':
        return val[a[0]] & val[a[1]]
    if op == 'or':
        return val[a[0]] | val[a[1]]
    if op == 'xor':
        r = a[0]
        for x in a[1]:
            r ^= val[x]
        return r
    if op == 'ite':
        return val[a[1]] if val[a[0]] else val[a[2]]
    if op == 'eq':
        return 1 if val[a[0]] == val[a[1]] else 0
    if op == 'ult':
        return 1 if val[a[0]] < val[a[1]] else 0
    if op == 'slt':
        return 1 if sx(val[a[0]], a[0].w) < sx(val[a[1]], a[1].w) else 0
    if op == 'shl':
        return (val[a[0]] << val[a[1]]) & m if val[a[1]] < w else 0
    if op == 'lshr':
        return val[a[0]] >> val[a[1]] if val[a[1]] < w else 0
    if op == 'ashr':
        return (sx(val[a[0]], w) >> min(val[a[1]], w - 1)) & m
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        return divop(op, w, val[a[0]], val[a[1]])
    if op == 'tup':
        return tuple(val[x] for x in a)
    if op == 'uf':
        k = (a[0], val[a[1]])
        r = ufc.get(k)
        if r is None:
            r = ufc[k] = UFIMPL[a[0]](list(k[1]))
        return r[a[2]] & m
    raise Exception('eval ' + op)


def symbols(roots):
    return [t for t in topo(roots) if t.op == 's']


def show(t, depth=6):
    if t.__class__ is int:
        return hex(t)
    op, a = t.op, t.a
    if op == 's':
        return '%s' % (a[0],)
    if op == 'c':
        return hex(a[0])
    if depth == 0:
        return '#%d:%d' % (t.id, t.w)
    d = depth - 1
    if op == 'lin':
        s = ' + '.join((show(x, d) if c == 1 else '%d*%s' % (sx(c, t.w), show(x, d))) for x, c in a[1])
        if a[0]:
            s = '%d + %s' % (sx(a[0], t.w), s)
        return '(%s):%d' % (s, t.w)
    if op == 'cat':
        return '{' + ', '.join('%s' % (('%s:%d' % (hex(p), n)) if is_int(p) else show(p, d)) for p, n in reversed(a)) + '}'
    if op == 'ext':
        return '%s[%d..%d]' % (show(a[0], d), a[1] + t.w - 1, a[1])
    if op == 'xor':
        return '(' + ' ^ '.join([hex(a[0])] * (a[0] != 0) + [show(x, d) for x in a[1]]) + ')'
    if op == 'uf':
        return '%s(#%d)[%d]' % (a[0], a[1].id, a[2])
    if op == 'tup':
        return 'tup#%d' % t.id
    return '%s:%d(%s)' % (op, t.w, ', '.join(show(x, d) for x in a))
