"""Hand-written Thumb assembly of the Cortex-M implementations: assembled with the cross assembler on every run,
disassembled, and executed symbolically on the same state as the C code.  Control flow has to be concrete.
Calling convention obligations: a function that C code calls restores sp and r4-r11 and returns to its caller; after a
call through a contract every register but sp is unknown.  Nothing below sp may be accessed."""
import re
import subprocess
import ir
import symex
from symex import Ptr, Violation, Unsupported
from terms import *

CC = 'arm-none-eabi-gcc'
OD = 'arm-none-eabi-objdump'
NAMES = {'sl': 10, 'fp': 11, 'ip': 12, 'sp': 13, 'lr': 14, 'pc': 15, 'sb': 9}
NAMES.update({'r%d' % i: i for i in range(16)})
CONDS = ('eq', 'ne', 'cs', 'hs', 'cc', 'lo', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le', 'al')
SP, LR, PC = 13, 14, 15
STACK = 1 << 16


class AsmFn:
    def __init__(self, mod, name, start, end):
        self.mod = mod
        self.name = name
        self.start = start
        self.end = end
        self.linkage = ''
        self.params = []
        self.text = '\n'.join('%s %s' % (i[1], i[2]) for a, i in sorted(mod.code.items()) if start <= a < end)
        self._refs = set('@' + i[3] for a, i in mod.code.items() if start <= a < end and i[3] and i[1] in ('bl', 'b', 'b.n', 'b.w', 'blx'))

    def refs(self):
        return self._refs

    def ptypes(self):
        return self.mod.protos.get(self.name)


class AsmMod:
    """looks like ir.Module to the linker"""

    def __init__(self, source, dis, syms):
        self.source = source
        self.types = {}
        self.globals = {}
        self.decls = {}
        self.funcs = {}
        self.protos = {}
        self.dbg = {}
        self.code = {}          # address -> (next address, mnemonic, operands, symbol, line)
        line = 0
        last = None
        for l in dis.split('\n'):
            m = re.match(r'^\S.*:(\d+)(?: \(discriminator \d+\))?$', l)
            if m:
                line = int(m.group(1))
                continue
            m = re.match(r'^\s+[0-9a-f]+: (R_ARM_\w+)\s+(\S+)', l)
            if m and last is not None:
                a, mn, ops, s, ln = self.code[last]
                self.code[last] = (a, mn, ops, m.group(2), ln)
                continue
            m = re.match(r'^\s+([0-9a-f]+):\t([\w.]+)(?:\t(.*))?$', l)
            if m:
                ops = (m.group(3) or '').split('\t')[0]
                ops = re.sub(r'\s*[@;].*', '', ops).strip()
                s = re.search(r'<([^>+]+)>', ops)
                adr = int(m.group(1), 16)
                if last is not None:
                    a, mn, o, sy, ln = self.code[last]
                    self.code[last] = (adr, mn, o, sy, ln)
                self.code[adr] = (None, m.group(2), ops, s.group(1) if s else None, line)
                last = adr
        starts = dict(syms)
        called = set(i[3] for i in self.code.values() if i[1] == 'bl')
        fns = sorted((a, n) for n, (a, g) in starts.items() if g or n in called)
        for i, (a, n) in enumerate(fns):
            ends = [b for b, _ in fns if b > a]
            self.funcs['@' + n] = AsmFn(self, '@' + n, a, min(ends) if ends else 1 << 30)


def assemble(cfg, dest, src, cpu):
    import build
    o = dest + '/' + re.sub(r'\W', '_', src) + '.asmo'
    r = subprocess.run([CC, '-mthumb', '-mcpu=' + cpu, '-Wa,-g', '-I', dest, '-c', dest + '/' + src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise build.ExtractionError('%s: %s does not assemble: %s' % (cfg.id, src, r.stdout.decode(errors='replace')[:1500]))
    d = subprocess.run([OD, '-dlr', '--no-show-raw-insn', o], stdout=subprocess.PIPE, check=True).stdout.decode(errors='replace')
    t = subprocess.run([OD, '-t', o], stdout=subprocess.PIPE, check=True).stdout.decode(errors='replace')
    syms = {}
    for l in t.split('\n'):
        m = re.match(r'^([0-9a-f]{8}) (.{7}) (\S+)\s+[0-9a-f]+ (\S+)$', l)
        if m and m.group(3) == '.text' and not m.group(4).startswith(('$', '.')):
            syms[m.group(4)] = (int(m.group(1), 16), m.group(2)[0] == 'g')
    d = d.replace(dest + '/', '')
    return d, syms


def link(prog, mods):
    """give the assembly functions the prototypes that the C code declares and note which ones C code calls"""
    protos = {}
    called = set()
    for m in prog.mods:
        if isinstance(m, AsmMod):
            continue
        for n, d in m.decls.items():
            protos.setdefault(n, d)
        for f in m.funcs.values():
            called |= f.refs()
    for m in prog.mods:
        if isinstance(m, AsmMod):
            for n, f in m.funcs.items():
                f.abi = n in called
                m.protos[n] = protos.get(n)


# ---------------------------------------------------------------- execution

class Regs:
    __slots__ = ('r', 'flags', 'st')


def fresh_regs(X, args):
    R = Regs()
    R.r = [X.undef(('i', 32)) for _ in range(13)] + [None, None, None]
    for i, a in enumerate(args):
        if i > 3:
            raise Unsupported('stack arguments')
        R.r[i] = a
    R.flags = None
    return R


def run_func(X, f, args):
    """call from C"""
    R = fresh_regs(X, args)
    o = X.new_obj('stack', STACK, 8, 'stack')
    R.st = o.id
    R.r[SP] = Ptr(o.id, STACK)
    saved = R.r[4:12]
    body(X, f, R)
    if f.abi:
        X.count('abi')
        bad = [i for i in range(4, 12) if R.r[i] is not saved[i - 4]]
        if bad or not (R.r[SP].__class__ is Ptr and R.r[SP].obj == o.id and R.r[SP].off == STACK):
            raise Violation('abi', 'callee-saved registers changed: %s' % (['r%d' % i for i in bad] or 'sp'), X.loc())
    elif not (R.r[SP].__class__ is Ptr and R.r[SP].obj == o.id and R.r[SP].off == STACK):
        raise Violation('abi', 'sp changed', X.loc())
    X.st.objs.pop(o.id, None)
    return R.r[0]


class Frm:
    def __init__(self, f):
        self.f = f
        self.line = 0
        self.code = None


def body(X, f, R):
    if len(X.stack) > 40:
        raise Unsupported('recursion')
    ret = X.fresh('lr', 32)
    R.r[LR] = ret
    code = f.mod.code
    fr = Frm(f)
    X.stack.append(fr)
    pc = f.start
    cond = []
    n = 0
    try:
        while True:
            i = code.get(pc)
            if i is None:
                raise Unsupported('execution leaves the code of %s' % f.name)
            nxt, mn, ops, s, line = i
            fr.line = line
            n += 1
            if n > 400000:
                raise Unsupported('too many instructions')
            base = mn.split('.')[0]
            if cond:
                c = cond.pop(0)
                if base.endswith(c):
                    base = base[:-len(c)]
                elif base.endswith({'hs': 'cs', 'lo': 'cc'}.get(c, c)):
                    base = base[:-2]
                else:
                    raise Unsupported('conditional %s' % mn)
                if not holds(R, c):
                    pc = nxt
                    continue
            if base[:2] == 'it' and set(base[2:]) <= set('te') and len(base) <= 5:
                c = ops
                cond = [c] + [c if x == 't' else inverse(c) for x in base[2:]]
                pc = nxt
                continue
            if base == 'bl':
                call(X, f, s, R)
                pc = nxt
                continue
            if base == 'bx' or base == 'mov' and ops.startswith('pc,'):
                v = R.r[reg(ops.split(',')[-1].strip())]
                if v is ret:
                    return
                raise Violation('abi', 'return to another address', X.loc(line))
            if base in ('pop', 'ldmia', 'ldm') and 'pc}' in ops:
                multi(X, base, ops, R, line)
                if R.r[PC] is ret:
                    return
                raise Violation('abi', 'return to another address', X.loc(line))
            if base == 'b' or base[0] == 'b' and base[1:] in CONDS:
                if base == 'b' or holds(R, base[1:]):
                    pc = int(ops.split()[0], 16)
                    if not f.start <= pc < f.end:
                        g = [h for h in f.mod.funcs.values() if h.start == pc]
                        if not g:
                            raise Unsupported('branch out of the function')
                else:
                    pc = nxt
                continue
            if base in ('cbz', 'cbnz'):
                a, t = [x.strip() for x in ops.split(',')]
                v = R.r[reg(a)]
                if v.__class__ is not int:
                    raise Unsupported('symbolic branch in assembly')
                pc = int(t.split()[0], 16) if (v == 0) == (base == 'cbz') else nxt
                continue
            op = OPS.get(base)
            if op is None:
                raise Unsupported('instruction %s' % mn)
            op(X, base, ops, R, line)
            pc = nxt
    finally:
        X.stack.pop()


def call(X, f, name, R):
    h = X.prog.func('@' + name, f.mod)
    if isinstance(h, AsmFn):
        H = X.hook
        c = H.table.get(name) if H is not None else None
        if c is not None and name not in H.inline and len(c.params) <= 4:
            args = R.r[:len(c.params)]
            tys = [('ptr',) if a.__class__ is Ptr else ('i', 32) for a in args]
            ok, r = H(X, symex.Fn('@' + name, f.mod), args, tys, None, 0)
            if ok:
                clobber(X, R, r, range(13))
                return
        sp = R.r[SP]
        body(X, h, R)
        if R.r[SP].__class__ is not Ptr or R.r[SP].off != sp.off:
            raise Violation('abi', '%s changes sp' % name, X.loc())
        return
    sp = R.r[SP]
    nargs = {'memset': 3, 'memcpy': 3, 'memmove': 3}.get(name)
    if nargs is None:
        if h is None:
            raise Unsupported('call of %s from assembly' % name)
        nargs = len(h.params)
    args = R.r[:nargs]
    if h is None:
        b = getattr(X, 'lib_' + name)
        r = b(args, 0)
        r = args[0]
    else:
        r = X.call(symex.Fn('@' + name, f.mod), args, h.ptypes(), h.ret, 0)
    clobber(X, R, r, (0, 1, 2, 3, 12))


def clobber(X, R, r, which):
    for i in which:
        R.r[i] = X.undef(('i', 32))
    R.r[LR] = X.undef(('i', 32))
    R.flags = None
    if r is not None:
        R.r[0] = r


def reg(s):
    s = s.strip()
    if s not in NAMES:
        raise Unsupported('register %s' % s)
    return NAMES[s]


INV = {'eq': 'ne', 'cs': 'cc', 'hs': 'lo', 'mi': 'pl', 'vs': 'vc', 'hi': 'ls', 'ge': 'lt', 'gt': 'le'}
INV.update({v: k for k, v in list(INV.items())})


def inverse(c):
    return INV[c]


def holds(R, c):
    """flags are kept as the operands of the comparison that set them"""
    f = R.flags
    if f is None:
        raise Unsupported('branch on unknown flags')
    a, b = f
    if a.__class__ is Ptr and b.__class__ is Ptr and a.obj == b.obj:
        a, b = a.off, b.off
        if a.__class__ is not int or b.__class__ is not int:
            raise Unsupported('symbolic branch in assembly')
        if c in ('cs', 'hs', 'cc', 'lo', 'hi', 'ls', 'eq', 'ne'):
            return {'eq': a == b, 'ne': a != b, 'cs': a >= b, 'hs': a >= b, 'cc': a < b, 'lo': a < b, 'hi': a > b, 'ls': a <= b}[c]
        raise Unsupported('signed comparison of pointers')
    if a.__class__ is not int or b.__class__ is not int:
        raise Unsupported('symbolic branch in assembly')
    sa, sb = sx(a, 32), sx(b, 32)
    if c in ('eq', 'ne'):
        return (a == b) == (c == 'eq')
    if c in ('mi', 'pl'):
        return ((a - b) >> 31 & 1) == (c == 'mi')
    if c in ('vs', 'vc'):
        raise Unsupported('overflow flag')
    return {'cs': a >= b, 'hs': a >= b, 'cc': a < b, 'lo': a < b, 'hi': a > b, 'ls': a <= b, 'ge': sa >= sb, 'lt': sa < sb, 'gt': sa > sb, 'le': sa <= sb}[c]


def split(ops):
    out = []
    d = 0
    cur = ''
    for ch in ops:
        if ch in '[{':
            d += 1
        if ch in ']}':
            d -= 1
        if ch == ',' and not d:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def num(s):
    return int(s.lstrip('#'), 0)


def val(R, s):
    if s[0] == '#':
        return num(s) & 0xFFFFFFFF
    return R.r[reg(s)]


def shifted(v, sh):
    k, n = sh.split()
    n = num(n)
    if v.__class__ is Ptr:
        raise Unsupported('shift of a pointer')
    if k == 'lsl':
        return shlc(32, v, n)
    if k == 'lsr':
        return lshrc(32, v, n)
    if k == 'asr':
        return ashrc(32, v, n)
    if k == 'ror':
        return cat([(ext(v, n, 32 - n), 32 - n), (ext(v, 0, n), n)]) if n else v
    raise Unsupported('shift ' + sh)


def plus(X, a, b, sign=1):
    if a.__class__ is Ptr and b.__class__ is int:
        return Ptr(a.obj, a.off + sign * sx(b, 32)) if a.off.__class__ is int else X.padd(a, sign * sx(b, 32))
    if b.__class__ is Ptr and a.__class__ is int and sign == 1:
        return plus(X, b, a)
    if a.__class__ is Ptr and b.__class__ is Ptr and sign == -1 and a.obj == b.obj and a.off.__class__ is int and b.off.__class__ is int:
        return (a.off - b.off) & 0xFFFFFFFF
    if a.__class__ is Ptr or b.__class__ is Ptr:
        raise Unsupported('pointer arithmetic in assembly')
    return add(32, a, b) if sign == 1 else sub(32, a, b)


def arith(sign):
    def g(X, mn, ops, R, line):
        o = split(ops)
        sh = None
        if len(o) > 2 and re.match(r'(lsl|lsr|asr|ror) ', o[-1]):
            sh = o.pop()
        d = reg(o[0])
        a, b = (R.r[d], val(R, o[1])) if len(o) == 2 else (R.r[reg(o[1])], val(R, o[2]))
        if sh:
            b = shifted(b, sh)
        if mn == 'rsb' or mn == 'rsbs':
            a, b = b, a
        R.r[d] = plus(X, a, b, sign)
        if mn.endswith('s'):
            # flags as of a comparison: exact for subs; for adds only zero/negative are meaningful
            R.flags = (a, b) if sign == -1 else None
    return g


def o_cmp(X, mn, ops, R, line):
    o = split(ops)
    R.flags = (R.r[reg(o[0])], val(R, o[1]))


def o_mov(X, mn, ops, R, line):
    o = split(ops)
    v = val(R, o[1])
    if len(o) == 3:
        v = shifted(v, o[2])
    if mn == 'mvn':
        v = bnot(32, v)
    R.r[reg(o[0])] = v


def o_movt(X, mn, ops, R, line):
    o = split(ops)
    d = reg(o[0])
    R.r[d] = cat([(lo(R.r[d]), 16), (num(o[1]), 16)])


def o_shift(X, mn, ops, R, line):
    o = split(ops)
    d = reg(o[0])
    a, b = (R.r[d], o[1]) if len(o) == 2 else (R.r[reg(o[1])], o[2])
    if b[0] != '#':
        v = R.r[reg(b)]
        if v.__class__ is not int:
            raise Unsupported('shift by a register')
        b = '#%d' % (v & 255)
        if v & 255 > 31:
            raise Unsupported('shift amount')
    R.r[d] = shifted(a, mn[:3] + ' ' + b)
    R.flags = None if mn.endswith('s') else R.flags


def logic(fn):
    def g(X, mn, ops, R, line):
        o = split(ops)
        sh = None
        if len(o) > 2 and re.match(r'(lsl|lsr|asr|ror) ', o[-1]):
            sh = o.pop()
        d = reg(o[0])
        a, b = (R.r[d], val(R, o[1])) if len(o) == 2 else (R.r[reg(o[1])], val(R, o[2]))
        if sh:
            b = shifted(b, sh)
        if a.__class__ is Ptr or b.__class__ is Ptr:
            raise Unsupported('bit operation on a pointer')
        R.r[d] = fn(a, b)
        if mn.endswith('s'):
            R.flags = None
    return g


def lo(v):
    if v.__class__ is Ptr:
        raise Unsupported('half of a pointer')
    return ext(v, 0, 16) if v.__class__ is not int else v & 0xFFFF


def hi(v):
    if v.__class__ is Ptr:
        raise Unsupported('half of a pointer')
    return ext(v, 16, 16) if v.__class__ is not int else v >> 16


def par16(fn):
    def g(X, mn, ops, R, line):
        o = split(ops)
        a, b = R.r[reg(o[-2])], R.r[reg(o[-1])]
        R.r[reg(o[0])] = cat([(fn(16, lo(a), lo(b)), 16), (fn(16, hi(a), hi(b)), 16)])
    return g


def pkh(tb):
    def g(X, mn, ops, R, line):
        o = split(ops)
        sh = o.pop() if re.match(r'(lsl|asr) ', o[-1]) else None
        a, b = R.r[reg(o[-2])], R.r[reg(o[-1])]
        if sh:
            b = shifted(b, sh)
        R.r[reg(o[0])] = cat([(lo(b), 16), (hi(a), 16)]) if tb else cat([(lo(a), 16), (hi(b), 16)])
    return g


def s16(h):
    return sext(h, 32, 16) if h.__class__ is not int else sx(h, 16) & 0xFFFFFFFF


def o_mulh(X, mn, ops, R, line):
    o = split(ops)
    a, b = R.r[reg(o[1])], R.r[reg(o[2])]
    x, y = mn[4], mn[5]
    v = mul(32, s16(hi(a) if x == 't' else lo(a)), s16(hi(b) if y == 't' else lo(b)))
    if mn[:4] == 'smla':
        v = add(32, v, nop_(R.r[reg(o[3])]))
    R.r[reg(o[0])] = v


def nop_(v):
    if v.__class__ is Ptr:
        raise Unsupported('arithmetic on a pointer')
    return v


def o_smad(X, mn, ops, R, line):
    o = split(ops)
    a, b = R.r[reg(o[1])], R.r[reg(o[2])]
    x, y = (hi(b), lo(b)) if mn.endswith('x') else (lo(b), hi(b))
    v = add(32, mul(32, s16(lo(a)), s16(x)), mul(32, s16(hi(a)), s16(y)))
    if mn[:5] == 'smlad':
        v = add(32, v, nop_(R.r[reg(o[3])]))
    R.r[reg(o[0])] = v


def o_mul(X, mn, ops, R, line):
    o = split(ops)
    d = reg(o[0])
    a, b = (R.r[reg(o[1])], R.r[reg(o[2])]) if len(o) == 3 else (R.r[d], R.r[reg(o[1])])
    v = mul(32, nop_(a), nop_(b))
    if mn in ('mla', 'mls'):
        c = nop_(R.r[reg(o[3])])
        v = add(32, c, v) if mn == 'mla' else sub(32, c, v)
    R.r[d] = v


def o_bfx(X, mn, ops, R, line):
    o = split(ops)
    l, w = num(o[2]), num(o[3])
    v = ext(nop_(R.r[reg(o[1])]), l, w)
    R.r[reg(o[0])] = zext(v, 32) if mn == 'ubfx' else sext(v, 32, w)


def o_xt(X, mn, ops, R, line):
    o = split(ops)
    w = 8 if mn.endswith('b') else 16
    v = ext(nop_(R.r[reg(o[1])]), 0, w)
    R.r[reg(o[0])] = zext(v, 32) if mn[0] == 'u' else sext(v, 32, w)


def touch(X, R, p, line):
    if p.__class__ is not Ptr:
        if p.__class__ is int:
            raise Violation('memory', 'access at constant address %#x' % p, X.loc(line))
        raise Unsupported('access through a computed address')
    if p.obj == R.st and R.r[SP].__class__ is Ptr and p.off.__class__ is int and p.off < R.r[SP].off:
        raise Violation('stack', 'access below the stack pointer', X.loc(line))


def ld(X, R, p, n, line, signed=False):
    touch(X, R, p, line)
    if n == 4:
        o, off = X.acc(p, 4, line, False)
        if off.__class__ is int:
            c = o.cells.get(off)
            if c is not None and c[1] == 4 and c[0].__class__ is Ptr:
                return c[0]
    v = X.load(p, n, 8 * n, line)
    if n < 4:
        v = sext(v, 32, 8 * n) if signed else zext(v, 32)
    return v


def stv(X, R, p, v, n, line):
    touch(X, R, p, line)
    if n < 4:
        v = ext(nop_(v), 0, 8 * n)
    X.store(p, v, n, line)


def mem(X, mn, ops, R, line):
    o = split(ops)
    load = mn[:2] == 'ld'
    sg = mn.startswith('ldrs')
    k = mn[4:] if sg else mn[3:]
    n = {'': 4, 'h': 2, 'b': 1, 'd': 8}[k]
    regs = [reg(o[0])]
    if n == 8:
        regs.append(reg(o.pop(1)))
    a = o[1]
    m = re.match(r'^\[(.*)\](!?)$', a)
    if not m:
        raise Unsupported('addressing ' + ops)
    parts = split(m.group(1))
    base = reg(parts[0])
    p = R.r[base]
    if base == PC:
        raise Unsupported('literal pool')
    offs = 0
    if len(parts) > 1:
        x = val(R, parts[1])
        if len(parts) > 2:
            x = shifted(x, parts[2])
        offs = x
    q = plus(X, p, offs) if offs.__class__ is not int or offs else p
    vals = None if load else [R.r[r] for r in regs]
    if m.group(2):
        R.r[base] = q
    for i, r in enumerate(regs):
        w = min(n, 4)
        at = plus(X, q, 4 * i) if i else q
        if load:
            v = ld(X, R, at, w, line, sg)
            if len(o) > 2 and i == len(regs) - 1:
                R.r[base] = plus(X, p, val(R, o[2]))
            R.r[r] = v
        else:
            stv(X, R, at, vals[i], w, line)
    if len(o) > 2 and not load:
        R.r[base] = plus(X, p, val(R, o[2]))


def reglist(s):
    out = []
    for x in s.strip('{}').split(','):
        x = x.strip()
        if '-' in x:
            a, b = x.split('-')
            out += range(reg(a), reg(b) + 1)
        else:
            out.append(reg(x))
    return sorted(out)


def multi(X, mn, ops, R, line):
    o = split(ops)
    if mn in ('push', 'pop'):
        base, wb, l = SP, True, reglist(o[0])
        mn = {'push': 'stmdb', 'pop': 'ldmia'}[mn]
    else:
        wb = o[0].endswith('!')
        base = reg(o[0].rstrip('!'))
        l = reglist(o[1])
        mn = {'stm': 'stmia', 'ldm': 'ldmia'}.get(mn, mn)
    p = R.r[base]
    n = 4 * len(l)
    if p.__class__ is not Ptr or p.off.__class__ is not int:
        raise Unsupported('multiple access')
    if base != SP:
        X.chk_align(X.st.objs[p.obj], p.off, 4, line)
    q = plus(X, p, -n & 0xFFFFFFFF) if mn.endswith('db') else p
    if mn.startswith('stm'):
        vals = [R.r[r] for r in l]
        if wb and mn.endswith('db'):
            R.r[base] = q
        for i, v in enumerate(vals):
            if v is None:
                raise Unsupported('store of pc')
            stv(X, R, plus(X, q, 4 * i), v, 4, line)
        if wb and mn.endswith('ia'):
            R.r[base] = plus(X, p, n)
    else:
        vals = [ld(X, R, plus(X, q, 4 * i), 4, line) for i in range(len(l))]
        if wb:
            R.r[base] = q if mn.endswith('db') else plus(X, p, n)
        for r, v in zip(l, vals):
            R.r[r] = v


def o_nop(X, mn, ops, R, line):
    pass


OPS = {}
for _n in ('add', 'adds', 'addw'):
    OPS[_n] = arith(1)
for _n in ('sub', 'subs', 'subw', 'rsb', 'rsbs'):
    OPS[_n] = arith(-1)
for _n in ('mov', 'movs', 'movw', 'mvn'):
    OPS[_n] = o_mov
for _n in ('lsl', 'lsr', 'asr', 'ror', 'lsls', 'lsrs', 'asrs', 'rors'):
    OPS[_n] = o_shift
for _n, _f in (('and', lambda a, b: band(32, a, b)), ('orr', lambda a, b: bor(32, a, b)), ('eor', lambda a, b: bxor(32, a, b)),
               ('bic', lambda a, b: band(32, a, bnot(32, b)))):
    OPS[_n] = OPS[_n + 's'] = logic(_f)
for _a in 'bt':
    for _b in 'bt':
        OPS['smul' + _a + _b] = OPS['smla' + _a + _b] = o_mulh
for _n in ('smuad', 'smuadx', 'smlad', 'smladx'):
    OPS[_n] = o_smad
for _n in ('mul', 'muls', 'mla', 'mls'):
    OPS[_n] = o_mul
for _n in ('ldr', 'ldrh', 'ldrb', 'ldrsh', 'ldrsb', 'ldrd', 'str', 'strh', 'strb', 'strd'):
    OPS[_n] = mem
for _n in ('push', 'pop', 'stm', 'ldm', 'stmia', 'stmdb', 'ldmia', 'ldmdb'):
    OPS[_n] = multi
for _n in ('uxtb', 'uxth', 'sxtb', 'sxth'):
    OPS[_n] = o_xt
OPS.update({'cmp': o_cmp, 'movt': o_movt, 'uadd16': par16(add), 'usub16': par16(sub), 'sadd16': par16(add), 'ssub16': par16(sub),
            'pkhbt': pkh(False), 'pkhtb': pkh(True), 'ubfx': o_bfx, 'sbfx': o_bfx, 'nop': o_nop})
