"""Verification-condition generator: forward symbolic execution of the extracted LLVM IR.

Every function body is translated block by block into Python code that works on the values of
terms.py.  Memory is a set of disjoint objects; every access is checked against the bounds,
alignment and write permission of its object.  Symbolic branches are executed on both sides and
merged at the immediate post-dominator.  Calls go, in this order, to (1) the call hook (the
contract of the callee, see contracts.py), (2) built-in semantics of LLVM/x86 intrinsics and of
memcpy/memset, (3) the callee's body."""
import ir
from terms import *
import terms as TM


class Unsupported(Exception):
    """construct outside the verifier's reach: never a violation"""


class PathDead(Exception):
    pass


class Violation(Exception):
    """an obligation that is definitely false on the current path"""

    def __init__(self, kind, msg, loc=None):
        Exception.__init__(self, '%s: %s%s' % (kind, msg, ' at %s' % loc if loc else ''))
        self.kind = kind
        self.msg = msg
        self.loc = loc


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULL = Ptr(0, 0)


class Fn:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod


class Vec:
    """vector of n lanes of ew bits"""
    __slots__ = ('ew', 'l')

    def __init__(self, ew, l):
        self.ew = ew
        self.l = l

    def __repr__(self):
        return 'Vec(%d,%s)' % (self.ew, self.l)


def vconv(v, ew):
    """lanes of v seen with element width ew"""
    if v.ew == ew:
        return v.l
    if ew > v.ew:
        k = ew // v.ew
        e = v.ew
        l = v.l
        return [cat([(x, e) for x in l[i:i + k]]) for i in range(0, len(l), k)]
    k = v.ew // ew
    return [ext(x, ew * j, ew) for x in v.l for j in range(k)]


class Obj:
    __slots__ = ('id', 'name', 'size', 'align', 'cells', 'w', 'kind', 'epoch', 'glob', 'init')

    def clone(self, epoch):
        o = Obj()
        o.id = self.id
        o.name = self.name
        o.size = self.size
        o.align = self.align
        o.cells = dict(self.cells)
        o.w = self.w
        o.kind = self.kind
        o.epoch = epoch
        o.glob = self.glob
        o.init = self.init
        return o


class State:
    __slots__ = ('objs', 'epoch', 'pc')


class Program:
    """all modules of one configuration, linked by name"""

    def __init__(self, mods):
        self.mods = mods
        self.ext = {}
        self.gext = {}
        for m in mods:
            for n, f in m.funcs.items():
                if 'internal' in f.linkage or 'private' in f.linkage:
                    continue
                if n in self.ext and 'available_externally' in f.linkage:
                    continue
                self.ext[n] = f
            for n, g in m.globals.items():
                if 'internal' in g[4] or 'private' in g[4]:
                    continue
                if n not in self.gext or (self.gext[n][1][1] in (None, ('zero',)) and g[1] is not None):
                    self.gext[n] = (m, g)
        self.code = {}

    def func(self, name, mod):
        if mod is not None and name in mod.funcs:
            f = mod.funcs[name]
            if 'available_externally' in f.linkage and name in self.ext:
                return self.ext[name]
            return f
        return self.ext.get(name)

    def find(self, name):
        """function by name anywhere (static ones too)"""
        f = self.ext.get(name)
        if f is None:
            for m in self.mods:
                if name in m.funcs:
                    return m.funcs[name]
        return f

    def glob(self, name, mod):
        if name in mod.globals:
            g = mod.globals[name]
            if 'internal' in g[4] or 'private' in g[4]:
                return (mod.source + ':' + name, mod, g)
        if name in self.gext:
            m, g = self.gext[name]
            return (name, m, g)
        return None


# ---------------------------------------------------------------- code generation

class Code:
    pass


def compile_func(prog, f, pb):
    c = prog.code.get(id(f))
    if c is None:
        c = prog.code[id(f)] = CodeGen(prog, f, pb).run()
    return c


def succs(I):
    if I['op'] == 'br':
        return [I['t']] if I['c'] is None else [I['t'], I['f']]
    if I['op'] == 'switch':
        return [I['d']] + [l for v, l in I['cases']]
    return []


def ipdoms(blocks):
    """immediate post-dominators; exit is None-node '<exit>'"""
    EX = '<exit>'
    succ = {b: (succs(ins[-1]) or [EX]) for b, ins in blocks.items()}
    # iterative dataflow on sets is fine for these sizes; use bitsets
    names = list(blocks) + [EX]
    idx = {b: i for i, b in enumerate(names)}
    full = (1 << len(names)) - 1
    pd = {b: full for b in names}
    pd[EX] = 1 << idx[EX]
    # order: reverse dfs
    order = list(blocks)[::-1]
    ch = True
    while ch:
        ch = False
        for b in order:
            x = full
            for s in succ[b]:
                x &= pd[s]
            x |= 1 << idx[b]
            if x != pd[b]:
                pd[b] = x
                ch = True
    res = {}
    for b in blocks:
        cand = pd[b] & ~(1 << idx[b])
        best = None
        # immediate one = the candidate with the largest post-dominator set
        n = 0
        y = cand
        while y:
            low = y & -y
            k = names[low.bit_length() - 1]
            y ^= low
            cnt = bin(pd[k]).count('1')
            if cnt > n:
                n = cnt
                best = k
        res[b] = best
    return res


class CodeGen:
    def __init__(self, prog, f, pb):
        self.prog = prog
        self.f = ir.parse_body(f)
        self.mod = f.mod
        self.pb = pb
        self.ns = {}
        self.regidx = {}
        self.regty = []
        self.slot = {}
        self.const_n = 0

    def reg(self, name, ty=None):
        i = self.regidx.get(name)
        if i is None:
            i = self.regidx[name] = len(self.regty)
            self.regty.append(ty)
        elif ty is not None and self.regty[i] is None:
            self.regty[i] = ty
        return i

    def k(self, obj):
        n = 'k%d' % self.const_n
        self.const_n += 1
        self.ns[n] = obj
        return n

    def const(self, ty, v):
        """value of a constant operand, or None if it must be computed at run time"""
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'zero':
            if ty[0] == 'vec':
                return Vec(ty[2][1], [0] * ty[1])
            if ty[0] == 'ptr':
                return NULL
            if ty[0] in ('i', 'fp'):
                return 0
        if k == 'agg' and ty[0] == 'vec':
            ls = []
            for t, x in v[1]:
                if x[0] == 'undef':
                    ls.append(0)
                else:
                    y = self.const(t, x)
                    if y is None or y.__class__ is not int:
                        return None
                    ls.append(y)
            return Vec(ty[2][1], ls)
        return None

    def val(self, ty, v):
        """python expression for an operand"""
        k = v[0]
        if k == 'r':
            return 'R[%d]' % self.reg(v[1])
        c = self.const(ty, v)
        if c is not None:
            if c.__class__ is int:
                return repr(c)
            return self.k(c)
        if k == 'g':
            return 'X.gaddr(%s, %s)' % (self.k(v[1]), self.k(self.mod))
        if k == 'undef':
            return 'X.undef(%s)' % self.k(ty)
        if k == 'cgep':
            ops = v[2]
            off = self.gep_const(v[1], ops[1:])
            return 'X.padd(%s, %d)' % (self.val(*ops[0]), off)
        if k == 'ccast':
            if v[1] == 'bitcast' or v[1] == 'addrspacecast':
                return self.val(*v[2])
            if v[1] == 'inttoptr':
                return 'X.inttoptr(%s)' % self.val(*v[2])
            if v[1] == 'ptrtoint':
                return 'X.ptrtoint(%s,%d)' % (self.val(*v[2]), v[3][1])
        raise Unsupported('operand %r' % (v,))

    def gep_const(self, base, idx):
        off = 0
        ty = base
        for n, (ity, iv) in enumerate(idx):
            i = sx(iv[1], ity[1]) if iv[0] == 'c' else None
            if i is None:
                raise Unsupported('gep const')
            if n == 0:
                off += i * ir.sizeof(ty, self.pb)
            elif ty[0] == 'struct':
                off += ir.field_off(ty, i, self.pb)
                ty = ty[1][i]
            else:
                ty = ty[2]
                off += i * ir.sizeof(ty, self.pb)
        return off

    def run(self):
        f = self.f
        c = Code()
        c.f = f
        c.name = f.name
        c.params = [self.reg(n, t) for t, n in f.params]
        # promotable allocas
        self.find_slots()
        src = []
        c.labels = {}
        for b in f.blocks:
            c.labels[b] = 'b%d' % len(c.labels)
        ent = f.entry
        self.entry_names = {ent}
        if ent == '%<entry>':
            # unnamed entry block: phi nodes refer to it by its number
            n = len(f.params)
            self.entry_alias = '%' + str(n)
        else:
            self.entry_alias = None
        ip = ipdoms(f.blocks)
        c.blocks = {}
        c.ipdom = {}
        for b, ins in f.blocks.items():
            lines = []
            phis = []
            body = ins
            while body and body[0]['op'] == 'phi':
                phis.append(body[0])
                body = body[1:]
            for I in body[:-1]:
                self.cur = I
                for ln in self.gen(I):
                    lines.append(ln)
            term = body[-1]
            self.cur = term
            fn = 'def blk(R, X):\n' + ''.join('  %s\n' % l for l in lines) + '  ' + '\n  '.join(self.term(term)) + '\n'
            ns = self.ns
            ns.update(GEN_NS)
            exec(compile(fn, '<%s:%s>' % (f.name, b), 'exec'), ns)
            blk = ns['blk']
            pm = {}
            for I in phis:
                d = self.reg(I['dst'], I['ty'])
                for v, lb in I['inc']:
                    if lb == self.entry_alias:
                        lb = '%<entry>'
                    e = self.val(I['ty'], v)
                    exec('def ph(R, X):\n  return ' + e + '\n', ns)
                    pm.setdefault(lb, []).append((d, ns['ph']))
            c.blocks[b] = (blk, pm, term)
            c.ipdom[b] = ip[b]
        c.entry = ent
        c.nregs = len(self.regty)
        c.regty = self.regty
        c.slots = set(self.regidx[n] for n in self.slot)
        return c

    def find_slots(self):
        f = self.f
        cand = {}
        for b, ins in f.blocks.items():
            for I in ins:
                if I['op'] == 'alloca' and I['n'] is None and (I['ty'][0] in ('i', 'ptr', 'vec', 'fp')):
                    cand[I['dst']] = I['ty']
        def kill(v):
            if v is not None and v[0] == 'r' and v[1] in cand:
                del cand[v[1]]
            elif v is not None and v[0] in ('cgep',):
                for o in v[2]:
                    kill(o[1])
        for b, ins in f.blocks.items():
            for I in ins:
                op = I['op']
                if op == 'load':
                    v = I['p'][1]
                    if v[0] == 'r' and v[1] in cand and (cand[v[1]] != I['ty'] or I['volatile']):
                        del cand[v[1]]
                elif op == 'store':
                    kill(I['v'][1])
                    v = I['p'][1]
                    if v[0] == 'r' and v[1] in cand and (cand[v[1]] != I['v'][0] or I['volatile']):
                        del cand[v[1]]
                elif op == 'call':
                    cal = I['callee']
                    if cal and cal[0] == 'g' and cal[1].startswith('@llvm.lifetime'):
                        continue
                    for t, v in I['args']:
                        kill(v)
                elif op == 'getelementptr':
                    kill(I['p'][1])
                    for t, v in I['idx']:
                        kill(v)
                elif op == 'phi':
                    for v, l in I['inc']:
                        kill(v)
                else:
                    for key in ('a', 'b', 'c', 'v', 'e', 'i', 'm', 'p'):
                        x = I.get(key)
                        if x is None:
                            continue
                        if x[0] in ('r', 'c', 'g', 'undef', 'zero', 'agg', 'null', 'cgep', 'ccast', 'cbin', 'str'):
                            kill(x)
                        elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                            kill(x[1])
        for n, ty in cand.items():
            self.slot[n] = ty
            self.reg(n, ty)

    def loc(self):
        return '(%d)' % self.cur['line']

    def term(self, I):
        op = I['op']
        if op == 'br':
            if I['c'] is None:
                return ['return (%s, None, None)' % self.k(I['t'])]
            return ['return (%s, %s, %s)' % (self.k(I['t']), self.val(*I['c']), self.k(I['f']))]
        if op == 'ret':
            if I['v'] is None:
                return ['return None']
            return ['X.ret = ' + self.val(*I['v']), 'return None']
        if op == 'switch':
            cs = self.k([(v, l) for v, l in I['cases']])
            return ['return X.switch(%s, %s, %s, %d)' % (self.val(*I['v']), self.k(I['d']), cs, I['v'][0][1])]
        if op == 'unreachable':
            return ['X.unreachable(%d)' % I['line']]
        raise Unsupported('terminator ' + op)

    def gen(self, I):
        op = I['op']
        dst = None
        if I['dst'] is not None:
            ty = I.get('ty')
            if op == 'alloca' or op == 'getelementptr':
                ty = ('ptr',)
            elif op in ir.CAST:
                ty = I['to']
            elif op == 'icmp':
                ty = ('i', 1) if I['ty'][0] != 'vec' else ('vec', I['ty'][1], ('i', 1))
            elif op == 'extractelement':
                ty = I['v'][0][2]
            elif op == 'insertelement':
                ty = I['v'][0]
            elif op == 'shufflevector':
                ty = ('vec', I['m'][0][1], I['a'][0][2])
            elif op == 'select':
                ty = I['a'][0]
            elif op == 'freeze':
                ty = I['a'][0]
            dst = self.reg(I['dst'], ty) if not (op == 'alloca' and I['dst'] in self.slot) else None
        m = getattr(self, 'g_' + op, None)
        if m is None:
            raise Unsupported('instruction ' + op)
        return m(I, dst)

    def g_alloca(self, I, d):
        if I['dst'] in self.slot:
            return []
        size = ir.sizeof(I['ty'], self.pb)
        n = '1' if I['n'] is None else self.val(*I['n'])
        return ['R[%d] = X.alloca(%d, %s, %d, %s)' % (d, size, n, I['align'], self.k(I['dst']))]

    def g_load(self, I, d):
        v = I['p'][1]
        if v[0] == 'r' and v[1] in self.slot:
            s = self.reg(v[1])
            return ['x = R[%d]' % s,
                    'if x is None: x = R[%d] = X.undef(%s)' % (s, self.k(I['ty'])),
                    'R[%d] = x' % d]
        ty = I['ty']
        p = self.val(*I['p'])
        if I['volatile']:
            return ['R[%d] = X.vload(%s, %s, %d)' % (d, p, self.k(ty), I['line'])]
        if ty[0] in ('i', 'fp'):
            return ['R[%d] = X.load(%s, %d, %d, %d)' % (d, p, (ty[1] + 7) // 8, ty[1], I['line'])]
        if ty[0] == 'ptr':
            return ['R[%d] = X.loadp(%s, %d, %d)' % (d, p, self.pb // 8, I['line'])]
        if ty[0] == 'vec':
            return ['R[%d] = X.loadv(%s, %d, %d, %d, %d)' % (d, p, ty[1], ty[2][1], I['align'], I['line'])]
        raise Unsupported('load of %r' % (ty,))

    def g_store(self, I, d):
        v = I['p'][1]
        ty = I['v'][0]
        x = self.val(*I['v'])
        if v[0] == 'r' and v[1] in self.slot:
            return ['R[%d] = %s' % (self.reg(v[1]), x)]
        p = self.val(*I['p'])
        if I['volatile']:
            return ['X.vstore(%s, %s, %s, %d)' % (p, x, self.k(ty), I['line'])]
        if ty[0] in ('i', 'fp'):
            if ty[1] % 8:
                x = 'zext(%s, %d)' % (x, (ty[1] + 7) // 8 * 8)
            return ['X.store(%s, %s, %d, %d)' % (p, x, (ty[1] + 7) // 8, I['line'])]
        if ty[0] == 'ptr':
            return ['X.store(%s, %s, %d, %d)' % (p, x, self.pb // 8, I['line'])]
        if ty[0] == 'vec':
            return ['X.storev(%s, %s, %d, %d)' % (p, x, I['align'], I['line'])]
        raise Unsupported('store of %r' % (ty,))

    def g_getelementptr(self, I, d):
        off = 0
        dyn = []
        ty = I['base']
        for n, (ity, iv) in enumerate(I['idx']):
            if n and ty[0] == 'struct':
                i = iv[1]
                off += ir.field_off(ty, i, self.pb)
                ty = ty[1][i]
                continue
            if n:
                ty = ty[2]
            sz = ir.sizeof(ty, self.pb)
            if iv[0] == 'c':
                off += sx(iv[1], ity[1]) * sz
            else:
                dyn.append((self.val(ity, iv), ity[1], sz))
        p = self.val(*I['p'])
        if not dyn:
            return ['p = %s' % p, 'R[%d] = Ptr(p.obj, p.off + %d) if p.__class__ is Ptr and p.off.__class__ is int else X.padd(p, %d)' % (d, off, off)]
        if len(dyn) == 1:
            e, w, sz = dyn[0]
            return ['i = %s' % e, 'p = %s' % p,
                    'R[%d] = Ptr(p.obj, p.off + %d + %d * (i if i < %d else i - %d)) if i.__class__ is int and p.__class__ is Ptr and p.off.__class__ is int else X.gep(p, %d, [(i, %d, %d)])'
                    % (d, off, sz, 1 << (w - 1), 1 << w, off, w, sz)]
        return ['R[%d] = X.gep(%s, %d, [%s])' % (d, p, off, ', '.join('(%s, %d, %d)' % x for x in dyn))]

    FAST = {'add': '(a + b) & %s', 'sub': '(a - b) & %s', 'mul': '(a * b) & %s', 'and': 'a & b', 'or': 'a | b', 'xor': 'a ^ b'}
    SYM = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'and': 'band', 'or': 'bor', 'xor': 'bxor'}

    def binop(self, I, d):
        op = I['op']
        ty = I['ty']
        a = self.val(ty, I['a'])
        b = self.val(ty, I['b'])
        if ty[0] == 'vec':
            return ['R[%d] = X.vbin(%s, %d, %d, %s, %s)' % (d, self.k(op), ty[1], ty[2][1], a, b)]
        w = ty[1]
        out = ['a = %s' % a, 'b = %s' % b]
        if op in self.FAST:
            if 'nsw' in I['flags']:
                out.append('if a.__class__ is int and b.__class__ is int: R[%d] = X.nsw_c(%r, %d, a, b, %d)' % (d, op, w, I['line']))
                out.append('else:')
                out.append('  X.nsw(%r, %d, a, b, %d)' % (op, w, I['line']))
                out.append('  R[%d] = %s(%d, a, b)' % (d, self.SYM[op], w))
                return out
            ex = self.FAST[op]
            if '%s' in ex:
                ex = ex % hex((1 << w) - 1)
            out.append('R[%d] = %s if a.__class__ is int and b.__class__ is int else %s(%d, a, b)' % (d, ex, self.SYM[op], w))
            return out
        if op in ('shl', 'lshr', 'ashr'):
            out.append('if b.__class__ is not int or b >= %d: X.shamt(%d, b, %d)' % (w, w, I['line']))
            out.append('R[%d] = %s(%d, a, b)' % (d, op, w))
            return out
        out.append('X.divchk(%r, %d, a, b, %d)' % (op, w, I['line']))
        out.append('R[%d] = divop(%r, %d, a, b)' % (d, op, w))
        return out

    g_add = g_sub = g_mul = g_and = g_or = g_xor = g_shl = g_lshr = g_ashr = g_udiv = g_sdiv = g_urem = g_srem = binop

    def g_trunc(self, I, d):
        a = self.val(I['ty'], I['a'])
        if I['ty'][0] == 'vec':
            return ['v = %s' % a, 'R[%d] = Vec(%d, [ext(x, 0, %d) for x in vconv(v, %d)])' % (d, I['to'][2][1], I['to'][2][1], I['ty'][2][1])]
        n = I['to'][1]
        return ['a = %s' % a, 'R[%d] = a & %d if a.__class__ is int else ext(a, 0, %d)' % (d, (1 << n) - 1, n)]

    def g_zext(self, I, d):
        a = self.val(I['ty'], I['a'])
        if I['ty'][0] == 'vec':
            return ['v = %s' % a, 'R[%d] = Vec(%d, [zext(x, %d) for x in vconv(v, %d)])' % (d, I['to'][2][1], I['to'][2][1], I['ty'][2][1])]
        n = I['to'][1]
        return ['a = %s' % a, 'R[%d] = a if a.__class__ is int else zext(a, %d)' % (d, n)]

    def g_sext(self, I, d):
        a = self.val(I['ty'], I['a'])
        if I['ty'][0] == 'vec':
            w = I['ty'][2][1]
            n = I['to'][2][1]
            return ['v = %s' % a, 'R[%d] = Vec(%d, [sext(x, %d, %d) for x in vconv(v, %d)])' % (d, n, n, w, w)]
        return ['R[%d] = sext(%s, %d, %d)' % (d, a, I['to'][1], I['ty'][1])]

    def g_bitcast(self, I, d):
        a = self.val(I['ty'], I['a'])
        f, t = I['ty'], I['to']
        if f[0] == 'vec' and t[0] == 'vec' or f[0] == t[0] == 'ptr':
            return ['R[%d] = %s' % (d, a)]
        if f[0] in ('i', 'fp') and t[0] in ('i', 'fp'):
            return ['R[%d] = %s' % (d, a)]
        if f[0] in ('i', 'fp') and t[0] == 'vec':
            return ['R[%d] = Vec(%d, [%s])' % (d, f[1], a)]
        if f[0] == 'vec' and t[0] in ('i', 'fp'):
            return ['R[%d] = vconv(%s, %d)[0]' % (d, a, t[1])]
        raise Unsupported('bitcast')

    def g_ptrtoint(self, I, d):
        return ['R[%d] = X.ptrtoint(%s, %d)' % (d, self.val(I['ty'], I['a']), I['to'][1])]

    def g_inttoptr(self, I, d):
        return ['R[%d] = X.inttoptr(%s)' % (d, self.val(I['ty'], I['a']))]

    def g_icmp(self, I, d):
        ty = I['ty']
        a = self.val(ty, I['a'])
        b = self.val(ty, I['b'])
        pr = I['pred']
        if ty[0] == 'ptr':
            return ['R[%d] = X.pcmp(%r, %s, %s)' % (d, pr, a, b)]
        if ty[0] == 'vec':
            return ['R[%d] = X.vcmp(%r, %d, %s, %s)' % (d, pr, ty[2][1], a, b)]
        w = ty[1]
        out = ['a = %s' % a, 'b = %s' % b]
        if pr in ('eq', 'ne', 'ult', 'ugt', 'ule', 'uge'):
            py = {'eq': '==', 'ne': '!=', 'ult': '<', 'ugt': '>', 'ule': '<=', 'uge': '>='}[pr]
            out.append('R[%d] = int(a %s b) if a.__class__ is int and b.__class__ is int else X.icmp(%r, %d, a, b)' % (d, py, pr, w))
        else:
            out.append('R[%d] = X.icmp(%r, %d, a, b)' % (d, pr, w))
        return out

    def g_select(self, I, d):
        return ['R[%d] = X.select(%s, %s, %s, %s)' % (d, self.val(*I['c']), self.val(*I['a']), self.val(*I['b']), self.k(I['a'][0]))]

    def g_freeze(self, I, d):
        return ['R[%d] = %s' % (d, self.val(*I['a']))]

    def g_extractelement(self, I, d):
        ew = I['v'][0][2][1]
        return ['i = %s' % self.val(*I['i']), 'R[%d] = vconv(%s, %d)[i]' % (d, self.val(*I['v']), ew)]

    def g_insertelement(self, I, d):
        ty = I['v'][0]
        ew = ty[2][1]
        v = I['v'][1]
        if v[0] == 'undef':
            src = 'X.poison(%d, %d)' % (ew, ty[1])
        else:
            src = 'list(vconv(%s, %d))' % (self.val(*I['v']), ew)
        return ['l = ' + src, 'l[%s] = %s' % (self.val(*I['i']), self.val(*I['e'])), 'R[%d] = Vec(%d, l)' % (d, ew)]

    def g_shufflevector(self, I, d):
        ty = I['a'][0]
        ew = ty[2][1]
        mty, mv = I['m']
        n = mty[1]
        if mv[0] == 'zero':
            idx = [0] * n
        elif mv[0] == 'undef':
            idx = [0] * n
        else:
            idx = [(x[1] if x[0] == 'c' else -1) for t, x in mv[1]]
        av = self.val(*I['a']) if I['a'][1][0] != 'undef' else None
        bv = self.val(*I['b']) if I['b'][1][0] != 'undef' else None
        return ['R[%d] = X.shuffle(%s, %s, %d, %d, %s)' % (d, av, bv, ew, ty[1], self.k(idx))]

    def g_call(self, I, d):
        cal = I['callee']
        if cal is None:
            if 'memory' in I['cons'] and I['asmstr'] in ('""',) and not I['args']:
                return []
            return ['X.asm(%s, R)' % self.k(I)] if d is None else ['R[%d] = X.asm(%s, R)' % (d, self.k(I))]
        if cal[0] == 'g':
            nm = cal[1]
            if nm.startswith('@llvm.lifetime') or nm.startswith('@llvm.dbg') or nm.startswith('@llvm.stackrestore') or nm.startswith('@llvm.assume') or nm.startswith('@llvm.experimental.noalias') or nm.startswith('@llvm.prefetch'):
                return []
            if nm.startswith('@llvm.stacksave'):
                return ['R[%d] = %s' % (d, self.k(NULL))]
            tgt = 'Fn(%r, %s)' % (nm, self.k(self.mod))
            tgt = self.k(Fn(nm, self.mod))
        else:
            tgt = self.val(('ptr',), cal)
        args = ', '.join(self.val(t, v) for t, v in I['args'])
        tys = self.k([t for t, v in I['args']])
        call = 'X.call(%s, [%s], %s, %s, %d)' % (tgt, args, tys, self.k(I['ty']), I['line'])
        if d is None:
            return [call]
        return ['R[%d] = %s' % (d, call)]

    def g_extractvalue(self, I, d):
        e = self.val(*I['a'])
        for i in I['idx']:
            e = '%s[%d]' % (e, i)
        return ['R[%d] = %s' % (d, e)]


GEN_NS = {'Ptr': Ptr, 'Vec': Vec, 'Fn': Fn, 'vconv': vconv}
for _n in ('add', 'sub', 'mul', 'band', 'bor', 'bxor', 'shl', 'lshr', 'ashr', 'divop', 'ext', 'zext', 'sext'):
    GEN_NS[_n] = getattr(TM, _n)


def twidth(ty, pb):
    if ty[0] in ('i', 'fp'):
        return ty[1]
    return None


# ---------------------------------------------------------------- the executor

class Executor:
    def __init__(self, prog, pb=64, hook=None):
        self.prog = prog
        self.pb = pb
        self.hook = hook                    # hook(X, fn, args, argtypes, retty, line) -> (True,value)|(False,None)
        self.st = State()
        self.st.objs = {}
        self.st.epoch = 1
        self.st.pc = []
        self.next_obj = [1]
        self.next_epoch = [2]
        self.fresh_n = 0
        self.uninit = set()
        self.globs = {}
        self.obl = []                       # deferred obligations (kind, cond term, pc, loc)
        self.counts = {}
        self.events = []                    # (kind, term, loc) control-flow/address dependence
        self.stack = []
        self.ret = None
        self.ginit = 'init'                 # 'init': initialisers; 'havoc': mutable globals arbitrary
        self.gvals = {}                     # overrides: global key -> list of (off, val, size)
        self.pristine = {}                  # global object -> its contents at entry
        self.forks = 0
        self.steps = 0
        self.max_forks = 20000
        self.align_check = 16               # vector accesses with at least this alignment are checked
        self.mmio = None
        self.externals = {}

    # ---- bookkeeping
    def loc(self, line=0):
        if self.stack:
            f = self.stack[-1].f
            return '%s:%d (%s)' % (f.mod.source, line, f.name[1:])
        return '?'

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def fresh(self, name, w):
        self.fresh_n += 1
        return sym('%s!%d' % (name, self.fresh_n), w)

    def undef(self, ty):
        k = ty[0]
        if k in ('i', 'fp'):
            t = self.fresh('uninit', ty[1])
            self.uninit.add(t)
            return t
        if k == 'vec':
            return Vec(ty[2][1], [self.undef(ty[2]) for _ in range(ty[1])])
        if k == 'ptr':
            raise Violation('uninit', 'use of an uninitialised pointer', self.loc())
        raise Unsupported('undef %r' % (ty,))

    def poison(self, ew, n):
        t = sym('uninit!poison', ew)
        self.uninit.add(t)
        return [t] * n

    def oblige(self, kind, cond, line, msg=''):
        self.count(kind)
        if cond.__class__ is int:
            if cond:
                return
            if not self.st.pc:
                raise Violation(kind, msg, self.loc(line))
        self.obl.append((kind, cond, list(self.st.pc), self.loc(line), msg))

    # ---- objects
    def new_obj(self, name, size, align, kind, writable=True):
        o = Obj()
        o.id = self.next_obj[0]
        self.next_obj[0] += 1
        o.name = name
        o.size = size
        o.align = align
        o.cells = {}
        o.w = writable
        o.kind = kind
        o.epoch = self.st.epoch
        o.glob = None
        o.init = None
        self.st.objs[o.id] = o
        return o

    def alloca(self, size, n, align, name):
        if n.__class__ is not int:
            raise Unsupported('variable-length array of symbolic size')
        o = self.new_obj(name, size * n, align, 'stack')
        return Ptr(o.id, 0)

    def gaddr(self, name, mod):
        g = self.prog.glob(name, mod)
        if g is None:
            return Fn(name, mod)
        key, m, (ty, init, const, align, linkage) = g
        oid = self.globs.get(key)
        if oid is not None and oid not in self.st.objs:
            # first mentioned on another path: here it still has its initial contents
            self.st.objs[oid] = self.pristine[oid].clone(self.st.epoch)
        if oid is None:
            o = self.new_obj(key, ir.sizeof(ty, self.pb), align, 'global', not const)
            o.glob = key
            self.globs[key] = o.id
            oid = o.id
            if const or self.ginit == 'init':
                self.init_cells(o, 0, ty, init, m)
            else:
                self.havoc_cells(o, 0, ty, 'glob:' + key)
                for off, v, n in self.gvals.get(key, ()):
                    self.put(o, off, v, n)
            self.pristine[oid] = o.clone(-1)
        return Ptr(oid, 0)

    def havoc_cells(self, o, off, ty, name):
        k = ty[0]
        if k in ('i', 'fp'):
            n = ir.sizeof(ty, self.pb)
            o.cells[off] = (sym('%s[%d]' % (name, off), n * 8), n)
        elif k == 'vec':
            n = ty[2][1] // 8
            for i in range(ty[1]):
                o.cells[off + i * n] = (sym('%s[%d]' % (name, off + i * n), n * 8), n)
        elif k == 'arr':
            s = ir.sizeof(ty[2], self.pb)
            for i in range(ty[1]):
                self.havoc_cells(o, off + i * s, ty[2], name)
        elif k == 'struct':
            for i, f in enumerate(ty[1]):
                self.havoc_cells(o, off + ir.field_off(ty, i, self.pb), f, name)
        elif k == 'ptr':
            pass

    def init_cells(self, o, off, ty, init, mod):
        k = ty[0]
        if init is None:
            self.havoc_cells(o, off, ty, 'extern:' + o.name)
            return
        if init[0] == 'undef':
            return
        if k in ('i', 'fp'):
            n = ir.sizeof(ty, self.pb)
            o.cells[off] = (0 if init[0] == 'zero' else init[1], n)
        elif k == 'ptr':
            n = self.pb // 8
            if init[0] in ('zero', 'null'):
                o.cells[off] = (NULL, n)
            elif init[0] == 'g':
                o.cells[off] = (self.gaddr(init[1], mod), n)
            elif init[0] == 'cgep' and init[2][0][1][0] == 'g':
                p = self.gaddr(init[2][0][1][1], mod)
                cg = CodeGen.__new__(CodeGen)
                cg.pb = self.pb
                o.cells[off] = (Ptr(p.obj, p.off + cg.gep_const(init[1], init[2][1:])), n)
            else:
                raise Unsupported('pointer initialiser')
        elif k == 'arr':
            s = ir.sizeof(ty[2], self.pb)
            if init[0] == 'str':
                for i, b in enumerate(init[1]):
                    o.cells[off + i] = (b, 1)
            else:
                for i in range(ty[1]):
                    self.init_cells(o, off + i * s, ty[2], ('zero',) if init[0] == 'zero' else init[1][i][1], mod)
        elif k == 'vec':
            n = ty[2][1] // 8
            for i in range(ty[1]):
                o.cells[off + i * n] = (0 if init[0] == 'zero' else init[1][i][1][1], n)
        elif k == 'struct':
            for i, f in enumerate(ty[1]):
                self.init_cells(o, off + ir.field_off(ty, i, self.pb), f, ('zero',) if init[0] == 'zero' else init[1][i][1], mod)
        else:
            raise Unsupported('init %r' % (ty,))

    # ---- pointers
    def padd(self, p, off):
        if p.__class__ is PIte:
            return PIte(p.c, self.padd(p.a, off), self.padd(p.b, off))
        if p.__class__ is not Ptr:
            if p.__class__ is Fn and off == 0:
                return p
            raise Unsupported('pointer arithmetic on %r' % (p,))
        if p.off.__class__ is int:
            return Ptr(p.obj, p.off + off)
        return Ptr(p.obj, add(64, p.off, off & M(64)))

    def gep(self, p, off, dyn):
        if p.__class__ is PIte:
            return PIte(p.c, self.gep(p.a, off, dyn), self.gep(p.b, off, dyn))
        if p.__class__ is not Ptr:
            raise Unsupported('gep on %r' % (p,))
        o = p.off
        symb = None
        for i, w, sz in dyn:
            if i.__class__ is int:
                off += sx(i, w) * sz
            else:
                t = mul(64, sext(i, 64, w), sz)
                symb = t if symb is None else add(64, symb, t)
        if o.__class__ is int:
            o = o + off
            if symb is not None:
                o = add(64, symb, o & M(64))
        else:
            o = add(64, o, off & M(64))
            if symb is not None:
                o = add(64, o, symb)
        if symb is not None and o.__class__ is int:
            o = sx(o, 64)
        return Ptr(p.obj, o)

    def ptrtoint(self, p, w):
        if p.__class__ is Ptr:
            if p.obj == 0:
                return p.off & M(w)
            o = self.st.objs[p.obj]
            k = max(o.align.bit_length() - 1, 0)
            base = cat([(0, k), (sym('addr:%d:%s' % (o.id, o.name), 64 - k), 64 - k)])
            v = add(64, base, p.off & M(64) if p.off.__class__ is int else p.off)
            return ext(v, 0, w) if w < 64 else v
        raise Unsupported('ptrtoint')

    def inttoptr(self, v):
        if v.__class__ is int:
            return Ptr(0, v)
        raise Unsupported('inttoptr of a symbolic value')

    def pcmp(self, pr, a, b):
        if a.__class__ is Ptr and b.__class__ is Ptr and a.off.__class__ is int and b.off.__class__ is int:
            if a.obj == b.obj:
                x, y = a.off, b.off
                return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y}[pr])
            if pr == 'eq':
                return 0
            if pr == 'ne':
                return 1
        if a.__class__ is Fn or b.__class__ is Fn:
            same = a.__class__ is b.__class__ and a.name == b.name
            if pr in ('eq', 'ne'):
                return int(same == (pr == 'eq'))
        raise Unsupported('pointer comparison')

    # ---- memory access
    def acc(self, p, n, line, write):
        """checked access: returns (object, offset)"""
        if p.__class__ is not Ptr:
            if p.__class__ is Fn:
                raise Unsupported('access through a function/unknown external pointer %s' % p.name)
            raise Unsupported('access through %r' % (p,))
        o = self.st.objs.get(p.obj)
        if o is None:
            if p.obj == 0:
                raise Violation('memory', 'null or invalid pointer dereference', self.loc(line))
            raise Violation('memory', 'dangling pointer', self.loc(line))
        off = p.off
        if off.__class__ is not int:
            return o, off
        if off < 0 or off + n > o.size:
            self.count('bounds')
            m = '%s of %d bytes at offset %d of %s (%d bytes)' % ('write' if write else 'read', n, off, o.name, o.size)
            if self.st.pc:
                self.obl.append(('bounds', 0, list(self.st.pc), self.loc(line), m))
                raise PathDead('out of bounds')
            raise Violation('bounds', m, self.loc(line))
        self.counts['bounds'] = self.counts.get('bounds', 0) + 1
        if write:
            if not o.w:
                m = 'write to %s, which is outside the frame (read-only here)' % o.name
                self.count('frame')
                if self.st.pc:
                    self.obl.append(('frame', 0, list(self.st.pc), self.loc(line), m))
                    raise PathDead('frame')
                raise Violation('frame', m, self.loc(line))
            if o.epoch != self.st.epoch:
                o = o.clone(self.st.epoch)
                self.st.objs[p.obj] = o
        return o, off

    def load(self, p, n, w, line):
        if p.__class__ is PIte:
            return ite(p.c, self.load(p.a, n, w, line), self.load(p.b, n, w, line), w)
        o, off = self.acc(p, n, line, False)
        if off.__class__ is not int:
            return self.load_sym(o, off, n, w, line)
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            v = c[0]
            if v.__class__ is Ptr or v.__class__ is Fn:
                v = self.ptrtoint(v, n * 8)
        else:
            v = self.gather(o, off, n)
        if w != n * 8:
            return ext(v, 0, w)
        return v

    def load_sym(self, o, off, n, w, line):
        """read at a symbolic offset: ite chain over the aligned positions"""
        self.events.append(('address', off, self.loc(line)))
        tz = 0
        step = 1
        while step < 64 and ext(off, 0, tz + 1) == 0:
            tz += 1
            step *= 2
        cands = range(0, o.size - n + 1, step)
        if len(cands) > 4096:
            raise Unsupported('symbolic index into a large object')
        lo, hi = urange(off)
        self.oblige('bounds', ult(64, off, o.size - n + 1), line, 'symbolic index into %s' % o.name)
        r = None
        for k in cands:
            if k < lo or k > hi:
                continue
            v = self.gather(o, k, n)
            r = v if r is None else ite(eq(64, off, k), v, r, n * 8)
        if r is None:
            raise Violation('bounds', 'no valid index into %s' % o.name, self.loc(line))
        return ext(r, 0, w)

    def gather(self, o, off, n):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] == n and c[0].__class__ is not Ptr:
            return c[0]
        parts = []
        pos = off
        end = off + n
        while pos < end:
            c = cells.get(pos)
            st = pos
            if c is None:
                for k in range(1, 16):
                    c = cells.get(pos - k)
                    if c is not None:
                        if c[1] > k:
                            st = pos - k
                        else:
                            c = None
                        break
            if c is None:
                # uninitialised bytes up to the next cell
                e = pos + 1
                while e < end and e not in cells:
                    e += 1
                m = e - pos
                if o.init == 'zero':
                    v = 0
                else:
                    v = self.fresh('uninit', m * 8)
                    self.uninit.add(v)
                if o.epoch != self.st.epoch:
                    o = o.clone(self.st.epoch)
                    self.st.objs[o.id] = o
                    cells = o.cells
                cells[pos] = (v, m)
                parts.append((v, m * 8))
                pos = e
                continue
            v, sz = c
            if v.__class__ is Ptr:
                v = self.ptrtoint(v, sz * 8)
            e = min(st + sz, end)
            if st == pos and e == st + sz:
                parts.append((v, sz * 8))
            else:
                parts.append((ext(v, (pos - st) * 8, (e - pos) * 8), (e - pos) * 8))
            pos = e
        return cat(parts)

    def loadp(self, p, n, line):
        o, off = self.acc(p, n, line, False)
        c = o.cells.get(off) if off.__class__ is int else None
        if c is None:
            if off.__class__ is int and o.kind == 'global' and o.name == '@stderr':
                return NULL
            raise Violation('uninit', 'uninitialised pointer read from %s' % o.name, self.loc(line))
        v = c[0]
        if v.__class__ is int or v.__class__ is T:
            return self.inttoptr(v)
        return v

    def loadv(self, p, n, ew, align, line):
        nb = n * ew // 8
        o, off = self.acc(p, nb, line, False)
        if off.__class__ is not int:
            raise Unsupported('vector access at a symbolic offset')
        if align >= self.align_check:
            self.chk_align(o, off, align, line)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] <= 8:
            s = c[1]
            l = []
            for k in range(off, off + nb, s):
                c = cells.get(k)
                if c is None or c[1] != s or c[0].__class__ is Ptr:
                    break
                l.append(c[0])
            else:
                if nb % s == 0:
                    return Vec(s * 8, l)
        s = ew // 8
        return Vec(ew, [self.gather(self.st.objs[o.id], k, s) for k in range(off, off + nb, s)])

    def chk_align(self, o, off, align, line):
        self.count('alignment')
        if off % align or o.align % align:
            m = 'access aligned to %d at offset %d of %s (aligned to %d only)' % (align, off, o.name, o.align)
            if self.st.pc:
                self.obl.append(('alignment', 0, list(self.st.pc), self.loc(line), m))
            else:
                self.obl.append(('alignment', 0, [], self.loc(line), m))

    def clear(self, o, off, n):
        """remove the cells that overlap [off, off+n), keeping remainders"""
        cells = o.cells
        # a cell starting before off
        for k in range(1, 16):
            c = cells.get(off - k)
            if c is not None:
                v, sz = c
                if sz > k:
                    if v.__class__ is Ptr:
                        v = self.ptrtoint(v, sz * 8)
                    del cells[off - k]
                    cells[off - k] = (ext(v, 0, k * 8), k)
                    if sz > k + n:
                        cells[off + n] = (ext(v, (k + n) * 8, (sz - k - n) * 8), sz - k - n)
                break
        for pos in range(off, off + n):
            c = cells.get(pos)
            if c is not None:
                v, sz = c
                del cells[pos]
                if pos + sz > off + n:
                    if v.__class__ is Ptr:
                        v = self.ptrtoint(v, sz * 8)
                    keep = pos + sz - off - n
                    cells[off + n] = (ext(v, (sz - keep) * 8, keep * 8), keep)

    def store(self, p, v, n, line):
        if p.__class__ is PIte:
            raise Unsupported('store through a conditional pointer')
        o, off = self.acc(p, n, line, True)
        if off.__class__ is not int:
            return self.store_sym(p, o, off, v, n, line)
        self.put(o, off, v, n)

    def put(self, o, off, v, n):
        c = o.cells.get(off)
        if c is None or c[1] != n:
            self.clear(o, off, n)
        o.cells[off] = (v, n)

    def store_sym(self, p, o, off, v, n, line):
        self.events.append(('address', off, self.loc(line)))
        if o.epoch != self.st.epoch:
            o = o.clone(self.st.epoch)
            self.st.objs[p.obj] = o
        if not o.w:
            raise Violation('frame', 'write to ' + o.name, self.loc(line))
        tz = 0
        step = 1
        while step < 64 and ext(off, 0, tz + 1) == 0:
            tz += 1
            step *= 2
        cands = range(0, o.size - n + 1, step)
        if len(cands) > 1024:
            raise Unsupported('symbolic index into a large object')
        self.oblige('bounds', ult(64, off, o.size - n + 1), line, 'symbolic index into %s' % o.name)
        for k in cands:
            old = self.gather(o, k, n)
            self.put(o, k, ite(eq(64, off, k), v, old, n * 8), n)

    def storev(self, p, v, align, line):
        s = v.ew // 8
        if s == 0:
            raise Unsupported('store of a bit vector')
        nb = s * len(v.l)
        o, off = self.acc(p, nb, line, True)
        if off.__class__ is not int:
            raise Unsupported('vector access at a symbolic offset')
        if align >= self.align_check:
            self.chk_align(o, off, align, line)
        cells = o.cells
        for i, x in enumerate(v.l):
            k = off + i * s
            c = cells.get(k)
            if c is None or c[1] != s:
                self.clear(o, k, s)
            cells[k] = (x, s)

    def vload(self, p, ty, line):
        if p.__class__ is Ptr and p.obj == 0:
            # memory-mapped register: an arbitrary value on every read
            w = ty[1]
            t = self.fresh('mmio%x' % p.off, w)
            if self.mmio:
                t = self.mmio(self, p.off, w, t)
            return t
        if ty[0] == 'i':
            return self.load(p, (ty[1] + 7) // 8, ty[1], line)
        if ty[0] == 'ptr':
            return self.loadp(p, self.pb // 8, line)
        raise Unsupported('volatile load')

    def vstore(self, p, v, ty, line):
        if p.__class__ is Ptr and p.obj == 0:
            return
        if ty[0] == 'vec':
            return self.storev(p, v, 1, line)
        self.store(p, v, ir.sizeof(ty, self.pb), line)

    # ---- scalar checks
    def nsw_c(self, op, w, a, b, line):
        x = sx(a, w)
        y = sx(b, w)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        self.counts['overflow'] = self.counts.get('overflow', 0) + 1
        if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
            self.oblige('overflow', 0, line, 'signed %s overflows' % op)
        return r & M(w)

    def nsw(self, op, w, a, b, line):
        la, ha = srange(a, w)
        lb, hb = srange(b, w)
        if op == 'add':
            l, h = la + lb, ha + hb
        elif op == 'sub':
            l, h = la - hb, ha - lb
        else:
            ps = (la * lb, la * hb, ha * lb, ha * hb)
            l, h = min(ps), max(ps)
        half = 1 << (w - 1)
        if -half <= l and h < half:
            self.counts['overflow'] = self.counts.get('overflow', 0) + 1
            return
        w2 = w * 2 if op == 'mul' else w + 1
        A, B = sext(a, w2, w), sext(b, w2, w)
        f = {'add': add, 'sub': sub, 'mul': mul}[op]
        big = f(w2, A, B)
        small = f(w, a, b)
        self.oblige('overflow', eq(w2, big, sext(small, w2, w)), line, 'signed %s may overflow' % op)

    def shamt(self, w, b, line):
        if b.__class__ is int:
            if b >= w:
                self.oblige('shift', 0, line, 'shift amount %d of a %d-bit value' % (b, w))
            return
        self.oblige('shift', ult(w, b, w), line, 'shift amount')

    def divchk(self, op, w, a, b, line):
        if b.__class__ is int:
            if b == 0:
                self.oblige('division', 0, line, 'division by zero')
        else:
            self.oblige('division', ne(w, b, 0), line, 'division by zero')
        if a.__class__ is not int and not (b.__class__ is int and b and b & (b - 1) == 0):
            self.events.append(('division', a, self.loc(line)))
        if b.__class__ is not int:
            self.events.append(('division', b, self.loc(line)))

    def icmp(self, pr, w, a, b):
        if pr == 'eq':
            return eq(w, a, b)
        if pr == 'ne':
            return ne(w, a, b)
        if pr == 'ult':
            return ult(w, a, b)
        if pr == 'ugt':
            return ult(w, b, a)
        if pr == 'ule':
            return bxor(1, ult(w, b, a), 1)
        if pr == 'uge':
            return bxor(1, ult(w, a, b), 1)
        if pr == 'slt':
            return slt(w, a, b)
        if pr == 'sgt':
            return slt(w, b, a)
        if pr == 'sle':
            return bxor(1, slt(w, b, a), 1)
        return bxor(1, slt(w, a, b), 1)

    def select(self, c, a, b, ty):
        if c.__class__ is int:
            return a if c else b
        if c.__class__ is Vec:
            ew = ty[2][1]
            return Vec(ew, [ite(x, y, z, ew) for x, y, z in zip(c.l, vconv(a, ew), vconv(b, ew))])
        # a select may be compiled to a branch
        self.events.append(('branch', c, self.loc()))
        return self.merge_val(c, a, b, ty)

    # ---- vectors
    def vbin(self, op, n, ew, a, b):
        x = vconv(a, ew) if op not in ('and', 'or', 'xor') or a.ew != b.ew else a.l
        if op in ('and', 'or', 'xor'):
            e = a.ew
            if a.ew != b.ew:
                # prefer the finer granularity of the two
                e = min(a.ew, b.ew)
            x, y = vconv(a, e), vconv(b, e)
            f = {'and': band, 'or': bor, 'xor': bxor}[op]
            return Vec(e, [f(e, p, q) for p, q in zip(x, y)])
        y = vconv(b, ew)
        if op == 'add':
            return Vec(ew, [add(ew, p, q) for p, q in zip(x, y)])
        if op == 'sub':
            return Vec(ew, [sub(ew, p, q) for p, q in zip(x, y)])
        if op == 'mul':
            return Vec(ew, [mul(ew, p, q) for p, q in zip(x, y)])
        f = {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
        return Vec(ew, [f(ew, p, q) for p, q in zip(x, y)])

    def vcmp(self, pr, ew, a, b):
        return Vec(1, [self.icmp(pr, ew, x, y) for x, y in zip(vconv(a, ew), vconv(b, ew))])

    def shuffle(self, a, b, ew, n, idx):
        # keep finer representations when they line up
        e = ew
        for v in (a, b):
            if v is not None and v.ew < e:
                e = v.ew
        k = ew // e
        la = vconv(a, e) if a is not None else self.poison(e, n * k)
        lb = vconv(b, e) if b is not None else self.poison(e, n * k)
        l = la + lb
        out = []
        for i in idx:
            if i < 0:
                out.extend(self.poison(e, k))
            else:
                out.extend(l[i * k:i * k + k])
        return Vec(e, out)

    # ---- control flow
    def unreachable(self, line):
        raise PathDead('unreachable')

    def switch(self, v, d, cases, w):
        if v.__class__ is int:
            for c, l in cases:
                if c == v:
                    return (l, None, None)
            return (d, None, None)
        raise Unsupported('switch on a symbolic value')

    def call(self, fn, args, tys, retty, line):
        if fn.__class__ is not Fn:
            raise Unsupported('indirect call')
        name = fn.name
        if self.stack:
            self.stack[-1].line = line
        if name.startswith('@llvm.'):
            return self.intrinsic(name, args, tys, retty, line)
        if self.hook is not None:
            ok, r = self.hook(self, fn, args, tys, retty, line)
            if ok:
                return r
        f = self.prog.func(name, fn.mod)
        if f is not None:
            return self.run_func(f, args)
        b = getattr(self, 'lib_' + name[1:], None)
        if b is not None:
            return b(args, line)
        raise Unsupported('call of external function %s' % name)

    def run_func(self, f, args):
        if not f.__class__ is ir.Func:
            import arm
            fr = arm.Frm(f)
            self.stack.append(fr)
            try:
                return arm.run_func(self, f, args)
            finally:
                self.stack.pop()
        code = compile_func(self.prog, f, self.pb)
        if len(args) != len(code.params):
            raise Unsupported('argument count of %s' % f.name)
        R = [None] * code.nregs
        for i, a in zip(code.params, args):
            R[i] = a
        fr = Frame()
        fr.code = code
        fr.f = f
        fr.line = 0
        if len(self.stack) > 60:
            raise Unsupported('recursion')
        self.stack.append(fr)
        before = self.next_obj[0]
        try:
            r = self.run(fr, R, code.entry, None)
        finally:
            self.stack.pop()
        # free the stack objects of this frame
        objs = self.st.objs
        for i in range(before, self.next_obj[0]):
            o = objs.get(i)
            if o is not None and o.kind == 'stack':
                del objs[i]
        return r[1]

    def run(self, fr, R, block, stop):
        """execute from block until `stop` is reached ('at', R) or return ('ret', value)"""
        blocks = fr.code.blocks
        while True:
            self.steps += 1
            blk, pm, term = blocks[block]
            r = blk(R, self)
            if r is None:
                v = self.ret
                self.ret = None
                return ('ret', v, None)
            nxt, cond, els = r
            if cond is not None:
                if cond.__class__ is int:
                    if not cond:
                        nxt = els
                else:
                    d = self.decide(cond)
                    if d is None:
                        res = self.fork(fr, R, block, nxt, els, cond, stop, term['line'])
                        if res[0] == 'ret':
                            return res
                        R = res[2]
                        block = res[1]
                        if block == stop:
                            return ('at', block, R)
                        continue
                    if not d:
                        nxt = els
            ph = blocks[nxt][1]
            if ph:
                vals = [(d, f(R, self)) for d, f in ph.get(block, ())]
                for d, v in vals:
                    R[d] = v
            if nxt == stop:
                return ('at', nxt, R)
            block = nxt

    def refine(self, R, slots, c):
        """under the branch condition c a variable that is ite(c, a, b) is a: keeps loop counters concrete where the
        decision to leave the loop was merged before the branch"""
        facts = None
        for i in slots:
            x = R[i]
            while x.__class__ is T and x.op == 'ite':
                if facts is None:
                    facts, todo = {}, [(c, 1)]
                    while todo:
                        y, v = todo.pop()
                        if y.__class__ is not T or y.w != 1 or id(y) in facts:
                            continue
                        facts[id(y)] = (v, y)
                        n = bxor(1, y, 1)
                        if n.__class__ is T:
                            facts[id(n)] = (1 - v, n)
                        if v and y.op == 'and':
                            todo += [(z, 1) for z in y.a]
                f = facts.get(id(x.a[0]))
                if f is None:
                    break
                x = x.a[1] if f[0] else x.a[2]
            R[i] = x

    def decide(self, cond):
        """branch condition already implied by the path condition?"""
        for c in self.st.pc:
            if c is cond:
                return True
            if bxor(1, c, 1) is cond:
                return False
        return None

    def fork(self, fr, R, block, nt, nf, cond, stop, line):
        self.forks += 1
        if self.forks > self.max_forks:
            raise Unsupported('too many symbolic branches')
        self.events.append(('branch', cond, self.loc(line)))
        j = fr.code.ipdom[block]
        target = None if j == '<exit>' else j
        st0 = self.st
        results = []
        depth = len(self.stack)
        for side, nxt, c in ((0, nt, cond), (1, nf, bxor(1, cond, 1))):
            st = State()
            st.objs = dict(st0.objs)
            st.epoch = self.next_epoch[0]
            self.next_epoch[0] += 1
            st.pc = st0.pc + [c]
            self.st = st
            R2 = list(R)
            self.refine(R2, fr.code.slots, c)
            try:
                ph = fr.code.blocks[nxt][1]
                if ph:
                    vals = [(d, f(R2, self)) for d, f in ph.get(block, ())]
                    for d, v in vals:
                        R2[d] = v
                if nxt == target:
                    res = ('at', nxt, R2)
                else:
                    res = self.run(fr, R2, nxt, target)
                results.append((res, self.st))
            except PathDead:
                del self.stack[depth:]
                results.append(None)
        if results[0] is None and results[1] is None:
            self.st = st0
            raise PathDead('both sides')
        if results[0] is None or results[1] is None:
            res, st = results[0] or results[1]
            # the other side ends the program; keep its negation in the path condition
            self.st = st
            return (res[0], res[1], res[2]) if res[0] == 'at' else res
        (ra, sa), (rb, sb) = results
        self.st = self.merge_state(cond, sa, sb, st0)
        if ra[0] == 'ret' and rb[0] == 'ret':
            va, vb = ra[1], rb[1]
            if va is None:
                return ('ret', None, None)
            return ('ret', self.merge_val(cond, va, vb, fr.f.ret), None)
        if ra[0] != rb[0]:
            raise Unsupported('irregular control flow')
        Rm = []
        tys = fr.code.regty
        slots = fr.code.slots
        for i, (x, y) in enumerate(zip(ra[2], rb[2])):
            if x is y:
                Rm.append(x)
            elif x is None or y is None:
                if i in slots:
                    if x is None:
                        x = self.undef(tys[i]) if tys[i][0] != 'ptr' else None
                    else:
                        y = self.undef(tys[i]) if tys[i][0] != 'ptr' else None
                    Rm.append(self.merge_val(cond, x, y, tys[i]) if x is not None and y is not None else (x if x is not None else y))
                else:
                    Rm.append(None)
            else:
                Rm.append(self.merge_val(cond, x, y, tys[i], soft=i not in slots))
        return ('at', target, Rm)

    def merge_val(self, c, a, b, ty, soft=False):
        if a is b:
            return a
        if a.__class__ in (int, T) and b.__class__ in (int, T):
            w = ty[1] if ty is not None and ty[0] in ('i', 'fp') else (a.w if a.__class__ is T else b.w if b.__class__ is T else None)
            if w is None:
                if a == b:
                    return a
                w = 64
            return ite(c, a, b, w)
        if a.__class__ is Vec and b.__class__ is Vec:
            e = min(a.ew, b.ew)
            return Vec(e, [ite(c, x, y, e) for x, y in zip(vconv(a, e), vconv(b, e))])
        if a.__class__ is Ptr and b.__class__ is Ptr:
            if a.obj == b.obj:
                if a.off.__class__ is int and b.off.__class__ is int and a.off == b.off:
                    return a
                x = a.off & M(64) if a.off.__class__ is int else a.off
                y = b.off & M(64) if b.off.__class__ is int else b.off
                return Ptr(a.obj, ite(c, x, y, 64))
            return PIte(c, a, b)
        if soft:
            return None
        if a.__class__ in (Ptr, PIte) and b.__class__ in (Ptr, PIte):
            return PIte(c, a, b)
        raise Unsupported('merge of %r and %r' % (a, b))

    def merge_obj(self, c, oa, ob, sa, sb, st):
        if oa.cells == ob.cells:
            return oa
        o = oa.clone(st.epoch)
        o.cells = {}
        ca, cb = oa.cells, ob.cells
        st_save = self.st
        keys = sorted(set(ca) | set(cb))
        done = -1
        for k in keys:
            if k < done:
                continue
            x, y = ca.get(k), cb.get(k)
            if x is not None and y is not None and x[1] == y[1]:
                if x[0] is y[0]:
                    o.cells[k] = x
                else:
                    o.cells[k] = (self.merge_val(c, x[0], y[0], ('i', x[1] * 8)), x[1])
                done = k + x[1]
                continue
            # unequal layout: extend to a common boundary
            e = k + max(x[1] if x else 1, y[1] if y else 1)
            ch = True
            while ch:
                ch = False
                for cc in (ca, cb):
                    for q in range(max(k, e - 16), e):
                        z = cc.get(q)
                        if z is not None and q + z[1] > e:
                            e = q + z[1]
                            ch = True
            n = e - k
            self.st = sa
            sa_o = oa.clone(sa.epoch)
            vx = self.gather(sa_o, k, n)
            self.st = sb
            sb_o = ob.clone(sb.epoch)
            vy = self.gather(sb_o, k, n)
            self.st = st_save
            # store byte-wise to keep cells small
            for q in range(n):
                o.cells[k + q] = (ite(c, ext(vx, 8 * q, 8), ext(vy, 8 * q, 8), 8), 1)
            done = e
        self.st = st_save
        return o

    def merge_state(self, c, sa, sb, st0):
        st = State()
        st.epoch = self.next_epoch[0]
        self.next_epoch[0] += 1
        st.pc = st0.pc
        objs = {}
        for i, oa in sa.objs.items():
            ob = sb.objs.get(i) or self.pristine.get(i)
            if ob is None or ob is oa:
                objs[i] = oa
                continue
            objs[i] = self.merge_obj(c, oa, ob, sa, sb, st)
        for i, ob in sb.objs.items():
            if i not in objs:
                objs[i] = self.merge_obj(c, self.pristine[i], ob, sa, sb, st) if i in self.pristine else ob
        st.objs = objs
        return st

    # ---- library and intrinsics
    def bytes_copy(self, d, s, n, line):
        if n == 0:
            return
        so, soff = self.acc(s, n, line, False)
        do, doff = self.acc(d, n, line, True)
        if soff.__class__ is not int or doff.__class__ is not int:
            raise Unsupported('copy at a symbolic offset')
        items = []
        pos = soff
        end = soff + n
        while pos < end:
            c = so.cells.get(pos)
            if c is not None and pos + c[1] <= end:
                items.append((pos - soff, c[0], c[1]))
                pos += c[1]
            else:
                v = self.gather(self.st.objs[so.id], pos, 1)
                so = self.st.objs[so.id]
                items.append((pos - soff, v, 1))
                pos += 1
        do = self.st.objs[do.id]
        for off, v, m in items:
            self.put(do, doff + off, v, m)

    def fill(self, d, v, n, line):
        if n == 0:
            return
        o, off = self.acc(d, n, line, True)
        if off.__class__ is not int:
            raise Unsupported('fill at a symbolic offset')
        b = ext(v, 0, 8)
        k = 0
        if b == 0 and b.__class__ is int and off % 2 == 0:
            while k + 2 <= n:
                self.put(o, off + k, 0, 2)
                k += 2
        while k < n:
            self.put(o, off + k, b, 1)
            k += 1

    def cint(self, v, what):
        if v.__class__ is not int:
            raise Unsupported('symbolic ' + what)
        return v

    def lib_memcpy(self, a, line):
        n = self.cint(a[2], 'length')
        if n and a[0].obj == a[1].obj and a[0].off != a[1].off and abs(a[0].off - a[1].off) < n:
            self.oblige('memory', 0, line, 'memcpy of overlapping regions')
        self.bytes_copy(a[0], a[1], n, line)
        return a[0]

    def lib_memmove(self, a, line):
        self.bytes_copy(a[0], a[1], self.cint(a[2], 'length'), line)
        return a[0]

    def lib_memset(self, a, line):
        self.fill(a[0], a[1], self.cint(a[2], 'length'), line)
        return a[0]

    def lib_memcmp(self, a, line):
        n = self.cint(a[2], 'length')
        diff = 0
        for i in range(n):
            x = self.load(self.padd(a[0], i), 1, 8, line)
            y = self.load(self.padd(a[1], i), 1, 8, line)
            diff = bor(1, diff, ne(8, x, y))
        if diff.__class__ is int:
            if diff == 0:
                return 0
        else:
            self.events.append(('branch', diff, self.loc(line)))   # memcmp is not constant time
        t = self.fresh('memcmp', 32)
        r = bor(32, t, 1)
        return ite(diff, r, 0, 32)

    def intrinsic(self, name, a, tys, retty, line):
        n = name[6:]
        if n.startswith('memcpy'):
            self.lib_memcpy(a, line)
            return None
        if n.startswith('memmove'):
            self.lib_memmove(a, line)
            return None
        if n.startswith('memset'):
            self.lib_memset(a, line)
            return None
        if n.startswith('fshl') or n.startswith('fshr'):
            w = retty[1]
            k = self.cint(a[2], 'rotate amount') % w
            if n.startswith('fshr'):
                k = (w - k) % w
                x = cat([(a[1], w), (a[0], w)])
                # fshr: low w bits of (a:b) >> k0
                k0 = (w - k) % w
                return ext(cat([(a[1], w), (a[0], w)]), k0, w)
            x = cat([(a[1], w), (a[0], w)])
            return ext(x, w - k, w)
        if n.startswith('bswap'):
            w = retty[1]
            return cat([(ext(a[0], w - 8 - 8 * i, 8), 8) for i in range(w // 8)])
        if n[:5] in ('ctpop', 'bitre', 'ctlz.', 'cttz.') and retty[0] == 'i':
            w = retty[1]
            bits = [ext(a[0], i, 1) if a[0].__class__ is not int else a[0] >> i & 1 for i in range(w)]
            if n[:5] == 'bitre':
                return cat([(b, 1) for b in reversed(bits)])
            if n[:5] == 'ctpop':
                r = 0
                for b in bits:
                    r = add(w, r, zext(b, w) if b.__class__ is not int else b)
                return r
            r = w
            for i in (range(w) if n[:4] == 'ctlz' else reversed(range(w))):
                r = ite(bits[i], w - 1 - i if n[:4] == 'ctlz' else i, r, w)
            if a[1] == 1:
                self.oblige('overflow', ne(w, a[0], 0), line, 'count of leading or trailing zeros of zero')
            return r
        if n.startswith('objectsize'):
            return M(retty[1])
        if n.startswith('expect'):
            return a[0]
        if n.startswith('umax') or n.startswith('umin') or n.startswith('smax') or n.startswith('smin'):
            w = retty[1]
            lt = ult if n[0] == 'u' else slt
            c = lt(w, a[0], a[1])
            return ite(c, a[1], a[0], w) if n[1:4] == 'max' else ite(c, a[0], a[1], w)
        if n.startswith('abs.') and retty[0] == 'i':
            w = retty[1]
            return ite(slt(w, a[0], 0), neg(w, a[0]), a[0], w)
        if n.startswith('trap'):
            raise PathDead('trap')
        f = X86.get(n)
        if f is not None:
            return f(self, a, line)
        raise Unsupported('intrinsic ' + name)

    def asm(self, I, R):
        raise Unsupported('inline assembly')


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class Frame:
    __slots__ = ('code', 'f', 'line')


# ---------------------------------------------------------------- x86 intrinsics
# Semantics written from the Intel intrinsics guide, in terms of lanes.

def _shi(ew, f):
    def g(X, a, line):
        k = a[1]
        if k.__class__ is not int:
            raise Unsupported('vector shift by a symbolic amount')
        return Vec(ew, [f(ew, x, k) for x in vconv(a[0], ew)])
    return g


def _shreg(ew, f):
    def g(X, a, line):
        cnt = vconv(a[1], 64)[0]
        if cnt.__class__ is not int:
            raise Unsupported('vector shift by a symbolic amount')
        return Vec(ew, [f(ew, x, min(cnt, ew)) if (cnt < ew or f is ashrc) else 0 for x in vconv(a[0], ew)])
    return g


def _pshufb(X, a, line):
    v = vconv(a[0], 8)
    m = vconv(a[1], 8)
    out = []
    for i, k in enumerate(m):
        if k.__class__ is not int:
            raise Unsupported('pshufb with a symbolic mask')
        base = i & ~15
        out.append(0 if k & 0x80 else v[base + (k & 15)])
    r = Vec(8, out)
    if a[0].ew > 8:
        # a rotation of wide lanes stays in wide lanes
        l = vconv(r, a[0].ew)
        if all(x.__class__ is int or x.op != 'cat' or len(x.a) <= 2 for x in l):
            return Vec(a[0].ew, l)
    return r


def _maskstore(n, ew):
    def g(X, a, line):
        m = vconv(a[1], ew)
        v = vconv(a[2], ew)
        for i in range(n):
            b = ext(m[i], ew - 1, 1)
            if b.__class__ is not int:
                raise Unsupported('maskstore with a symbolic mask')
            if b:
                X.store(X.padd(a[0], i * ew // 8), v[i], ew // 8, line)
        return None
    return g


def _maskload(n, ew):
    def g(X, a, line):
        m = vconv(a[1], ew)
        out = []
        for i in range(n):
            b = ext(m[i], ew - 1, 1)
            if b.__class__ is not int:
                raise Unsupported('maskload with a symbolic mask')
            out.append(X.load(X.padd(a[0], i * ew // 8), ew // 8, ew, line) if b else 0)
        return Vec(ew, out)
    return g


def _sat_s(x, w, n):
    """signed saturation of a w-bit value to n bits"""
    hi = (1 << (n - 1)) - 1
    lo = -(1 << (n - 1))
    a, b = srange(x, w)
    if a >= lo and b <= hi:
        return ext(x, 0, n)
    return ite(slt(w, hi, x), hi, ite(slt(w, x, lo & M(w)), lo & M(n), ext(x, 0, n), n), n)


def _sat_u(x, w, n):
    hi = (1 << n) - 1
    a, b = srange(x, w)
    if a >= 0 and b <= hi:
        return ext(x, 0, n)
    return ite(slt(w, hi, x), hi, ite(slt(w, x, 0), 0, ext(x, 0, n), n), n)


def _pack(w, n, sat, lanes128):
    def g(X, a, line):
        x = vconv(a[0], w)
        y = vconv(a[1], w)
        per = 128 // w
        out = []
        for k in range(lanes128):
            out += [sat(v, w, n) for v in x[k * per:(k + 1) * per]]
            out += [sat(v, w, n) for v in y[k * per:(k + 1) * per]]
        return Vec(n, out)
    return g


def _aes(f):
    def g(X, a, line):
        import spec
        return Vec(8, f(spec)(vconv(a[0], 8), vconv(a[1], 8)))
    return g


def _aeskeygen(X, a, line):
    import spec
    v = vconv(a[0], 8)
    k = a[1]
    if k.__class__ is not int:
        raise Unsupported('aeskeygenassist with a symbolic constant')
    out = []
    for i in (4, 12):
        w = [spec.sbox(x) for x in v[i:i + 4]]
        r = w[1:] + w[:1]
        out += w + [bxor(8, r[0], k & 255)] + r[1:]
    return Vec(8, out)


def _blendv(ew):
    def g(X, a, line):
        x, y, m = (vconv(v, ew) for v in a)
        return Vec(ew, [ite(ext(c, ew - 1, 1), q, p, ew) for p, q, c in zip(x, y, m)])
    return g


def _shv(ew, f):
    def g(X, a, line):
        out = []
        for x, k in zip(vconv(a[0], ew), vconv(a[1], ew)):
            if k.__class__ is not int:
                raise Unsupported('vector shift by a symbolic amount')
            out.append(f(ew, x, k) if k < ew else f(ew, x, ew - 1) if f is ashrc else 0)
        return Vec(ew, out)
    return g


def _mulh(sgn):
    def g(X, a, line):
        e = (lambda x: sext(x, 32, 16)) if sgn else (lambda x: zext(x, 32))
        return Vec(16, [ext(mul(32, e(x), e(y)), 16, 16) for x, y in zip(vconv(a[0], 16), vconv(a[1], 16))])
    return g


def _pmadd(X, a, line):
    e = lambda x: sext(x, 32, 16)
    p = [mul(32, e(x), e(y)) for x, y in zip(vconv(a[0], 16), vconv(a[1], 16))]
    return Vec(32, [add(32, p[i], p[i + 1]) for i in range(0, len(p), 2)])


def _movmsk(ew):
    def g(X, a, line):
        v = vconv(a[0], ew)
        return zext(cat([(ext(x, ew - 1, 1), 1) for x in v]), 32)
    return g


def _ptest(mode):
    def g(X, a, line):
        r = 1
        for x, y in zip(vconv(a[0], 64), vconv(a[1], 64)):
            v = band(64, x, y) if mode == 'z' else band(64, bnot(64, x), y)
            r = band(1, r, eq(64, v, 0))
        return zext(r, 32)
    return g


X86 = {
    'x86.aesni.aesenc': _aes(lambda s: s.aesenc), 'x86.aesni.aesenclast': _aes(lambda s: s.aesenclast),
    'x86.aesni.aeskeygenassist': _aeskeygen,
    'x86.avx2.pblendvb': _blendv(8), 'x86.sse41.pblendvb': _blendv(8),
    'x86.avx2.psllv.d.256': _shv(32, shlc), 'x86.avx2.psllv.q.256': _shv(64, shlc), 'x86.avx2.psllv.d': _shv(32, shlc), 'x86.avx2.psllv.q': _shv(64, shlc),
    'x86.avx2.psrlv.d.256': _shv(32, lshrc), 'x86.avx2.psrlv.q.256': _shv(64, lshrc), 'x86.avx2.psrlv.d': _shv(32, lshrc), 'x86.avx2.psrlv.q': _shv(64, lshrc),
    'x86.avx2.psrav.d.256': _shv(32, ashrc), 'x86.avx2.psrav.d': _shv(32, ashrc),
    'x86.avx2.pmulh.w': _mulh(True), 'x86.sse2.pmulh.w': _mulh(True), 'x86.avx2.pmulhu.w': _mulh(False), 'x86.sse2.pmulhu.w': _mulh(False),
    'x86.avx2.pmadd.wd': _pmadd, 'x86.sse2.pmadd.wd': _pmadd,
    'x86.avx2.pmovmskb': _movmsk(8), 'x86.sse2.pmovmskb.128': _movmsk(8),
    'x86.avx.ptestz.256': _ptest('z'), 'x86.sse41.ptestz': _ptest('z'), 'x86.avx.ptestc.256': _ptest('c'), 'x86.sse41.ptestc': _ptest('c'),
    'x86.avx2.pslli.w': _shi(16, shlc), 'x86.avx2.pslli.d': _shi(32, shlc), 'x86.avx2.pslli.q': _shi(64, shlc),
    'x86.avx2.psrli.w': _shi(16, lshrc), 'x86.avx2.psrli.d': _shi(32, lshrc), 'x86.avx2.psrli.q': _shi(64, lshrc),
    'x86.avx2.psrai.w': _shi(16, ashrc), 'x86.avx2.psrai.d': _shi(32, ashrc),
    'x86.sse2.pslli.w': _shi(16, shlc), 'x86.sse2.pslli.d': _shi(32, shlc), 'x86.sse2.pslli.q': _shi(64, shlc),
    'x86.sse2.psrli.w': _shi(16, lshrc), 'x86.sse2.psrli.d': _shi(32, lshrc), 'x86.sse2.psrli.q': _shi(64, lshrc),
    'x86.sse2.psrai.w': _shi(16, ashrc), 'x86.sse2.psrai.d': _shi(32, ashrc),
    'x86.avx2.psll.w': _shreg(16, shlc), 'x86.avx2.psll.d': _shreg(32, shlc), 'x86.avx2.psll.q': _shreg(64, shlc),
    'x86.avx2.psrl.w': _shreg(16, lshrc), 'x86.avx2.psrl.d': _shreg(32, lshrc), 'x86.avx2.psrl.q': _shreg(64, lshrc),
    'x86.avx2.pshuf.b': _pshufb, 'x86.ssse3.pshuf.b.128': _pshufb,
    'x86.avx2.maskstore.d.256': _maskstore(8, 32), 'x86.avx2.maskstore.q.256': _maskstore(4, 64),
    'x86.avx2.maskstore.d': _maskstore(4, 32), 'x86.avx2.maskstore.q': _maskstore(2, 64),
    'x86.avx2.maskload.d.256': _maskload(8, 32), 'x86.avx2.maskload.q.256': _maskload(4, 64),
    'x86.sse2.packssdw.128': _pack(32, 16, _sat_s, 1), 'x86.avx2.packssdw': _pack(32, 16, _sat_s, 2),
    'x86.sse2.packsswb.128': _pack(16, 8, _sat_s, 1), 'x86.avx2.packsswb': _pack(16, 8, _sat_s, 2),
    'x86.sse2.packuswb.128': _pack(16, 8, _sat_u, 1), 'x86.avx2.packuswb': _pack(16, 8, _sat_u, 2),
    'x86.sse41.packusdw': _pack(32, 16, _sat_u, 1), 'x86.avx2.packusdw': _pack(32, 16, _sat_u, 2),
}
