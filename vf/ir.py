"""Parser for the textual LLVM IR that clang-18 prints (the subset the extraction produces)."""
import re

TOK = re.compile(r'''\s+|(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%[-a-zA-Z$._0-9]+|%"[^"]*")|(?P<glob>@[-a-zA-Z$._0-9]+|@"[^"]*")|(?P<md>![-a-zA-Z$._0-9]*)|(?P<attr>\#[0-9]+)|(?P<num>-?(?:0x[KLMH]?[0-9A-Fa-f]+|[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?))|(?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)|(?P<p>\.\.\.|[][(){}<>=,*:;|])''')


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise ParseError('token at %r' % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k is None:
            continue
        t = m.group()
        if k == 'p' and t == ';':
            break
        out.append(t)
    return out


class P:
    """token stream"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError('expected %r got %r in %s' % (x, y, ' '.join(self.t)[:200]))

    # ---- types
    def type(self):
        t = self.next()
        if t == 'void':
            r = ('void',)
        elif t == 'ptr':
            r = ('ptr',)
            if self.peek() == 'addrspace':
                raise ParseError('addrspace')
        elif t == 'label':
            r = ('label',)
        elif t == 'metadata':
            r = ('metadata',)
        elif t in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
            r = ('fp', {'double': 64, 'float': 32, 'x86_fp80': 80, 'half': 16, 'fp128': 128}[t])
        elif re.fullmatch(r'i[0-9]+', t):
            r = ('i', int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = ('struct', self._fields(), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t == '{':
            r = ('struct', self._fields(), False)
        elif t[0] == '%':
            r = self.mod.types.get(t, ('named', t))
        else:
            raise ParseError('type %r in %s' % (t, ' '.join(self.t)[:200]))
        while self.peek() == '(' and False:
            pass
        return r

    def _fields(self):
        fs = []
        if self.accept('}'):
            return ()
        while True:
            fs.append(self.type())
            if self.accept('}'):
                return tuple(fs)
            self.expect(',')

    # ---- values
    def value(self, ty):
        """returns ('r',name) | ('c',int) | ('g',name) | ('undef',) | ('zero',) | ('agg',[(ty,val)..]) | ('ce',...) """
        t = self.next()
        c = t[0]
        if c == '%':
            return ('r', t)
        if c == '@':
            return ('g', t)
        if c == '-' or c.isdigit():
            if ty[0] == 'fp':
                return ('c', fpbits(t, ty[1]))
            return ('c', int(t, 0) & ((1 << ty[1]) - 1))
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef', t)
        if t == 'zeroinitializer':
            return ('zero',)
        if c == 'c' and t[1:2] == '"':
            return ('str', cstr(t[2:-1]))
        if t in ('[', '<', '{'):
            close = {'[': ']', '<': '>', '{': '}'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                r = self._agg('}')
                self.expect('>')
                return r
            return self._agg(close)
        if t == 'getelementptr':
            inb = self.accept('inbounds')
            self.expect('(')
            base = self.type()
            self.expect(',')
            ops = [self.tv()]
            while self.accept(','):
                self.accept('inrange')
                ops.append(self.tv())
            self.expect(')')
            return ('cgep', base, ops)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            v = self.tv()
            self.expect('to')
            ty2 = self.type()
            self.expect(')')
            return ('ccast', t, v, ty2)
        if t in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            a = self.tv()
            self.expect(',')
            b = self.tv()
            self.expect(')')
            return ('cbin', t, a, b)
        raise ParseError('value %r in %s' % (t, ' '.join(self.t)[:200]))

    def _agg(self, close):
        es = []
        if self.accept(close):
            return ('agg', es)
        while True:
            es.append(self.tv())
            if self.accept(close):
                return ('agg', es)
            self.expect(',')

    def tv(self):
        ty = self.type()
        self.attrs()
        return (ty, self.value(ty))

    def attrs(self):
        while True:
            t = self.peek()
            if t in PATTR:
                self.next()
                if t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'range', 'memory', 'captures'):
                    if self.accept('('):
                        d = 1
                        while d:
                            x = self.next()
                            d += (x == '(') - (x == ')')
                    elif t == 'align':
                        self.next()
            else:
                return


PATTR = set('noundef zeroext signext nocapture readonly writeonly immarg noalias nonnull align dereferenceable dereferenceable_or_null returned readnone inreg byval sret noreturn nofree nosync dso_local elementtype writable nest swiftself initializes range memory captures dead_on_unwind dead_on_return'.split())


def fpbits(t, n):
    import struct
    if t.startswith('0x') and n == 64:
        return int(t, 16)
    if n == 64:
        return struct.unpack('<Q', struct.pack('<d', float(t)))[0]
    return int(t, 16) if t.startswith('0x') else struct.unpack('<I', struct.pack('<f', float(t)))[0]


def cstr(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func:
    def __init__(self):
        self.name = None
        self.params = []        # [(type, name)]
        self.ret = None
        self.blocks = {}        # label -> [instr tuples]
        self.entry = None
        self.text = ''
        self.linkage = ''
        self.vararg = False
        self.mod = None
        self._refs = None

    def ptypes(self):
        return [t for t, n in self.params]

    def refs(self):
        """names of the globals and functions mentioned in the body"""
        if self._refs is None:
            self._refs = set(re.findall(r'@(?:[-\w.$]+|"[^"]*")', self.text))
        return self._refs


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}       # name -> (type, init or None, const?, align, linkage)
        self.funcs = {}
        self.decls = {}
        self.ptrbits = 64
        self.dbg = {}
        self.source = ''


def resolve(ty, types, seen=()):
    k = ty[0]
    if k == 'named':
        if ty[1] in seen or ty[1] not in types:
            return ty
        return resolve(types[ty[1]], types, seen + (ty[1],))
    if k == 'arr' or k == 'vec':
        return (k, ty[1], resolve(ty[2], types, seen))
    if k == 'struct':
        return ('struct', tuple(resolve(f, types, seen) for f in ty[1]), ty[2])
    return ty


LINK = set('private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external dso_local dso_preemptable default hidden protected unnamed_addr local_unnamed_addr externally_initialized thread_local'.split())
FMF = set('fast nnan ninf nsz arcp contract afn reassoc'.split())


def parse(text, source=''):
    mod = Module()
    mod.source = source
    lines = text.split('\n')
    # pass 1: types
    raw = {}
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            name, rest = ln.split(' = type ', 1)
            if rest.strip() == 'opaque':
                raw[name] = ('opaque',)
            else:
                raw[name] = rest
        elif ln.startswith('target datalayout'):
            m = re.search(r'"([^"]*)"', ln)
            dl = m.group(1)
            mod.ptrbits = 32 if '-p:32:32' in dl else 64
        elif ln.startswith('!'):
            m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+), column: (\d+)(?:, scope: !(\d+))?', ln)
            if m:
                mod.dbg[m.group(1)] = int(m.group(2))
    for n, r in raw.items():
        if isinstance(r, str):
            mod.types[n] = P(tokenize(r), mod).type()
        else:
            mod.types[n] = r
    for _ in range(8):
        mod.types = {n: resolve(t, mod.types) for n, t in mod.types.items()}
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('@'):
            parse_global(mod, ln)
        elif ln.startswith('declare'):
            f = parse_header(mod, ln)
            mod.decls[f.name] = f
        elif ln.startswith('define'):
            f = parse_header(mod, ln)
            body = []
            i += 1
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            f.text = ln + '\n' + '\n'.join(body)
            f.body_lines = body
            f.mod = mod
            mod.funcs[f.name] = f
        i += 1
    return mod


def parse_global(mod, ln):
    p = P(tokenize(ln), mod)
    name = p.next()
    p.expect('=')
    linkage = []
    const = False
    while True:
        t = p.next()
        if t in LINK:
            linkage.append(t)
            if t == 'thread_local' and p.peek() == '(':
                while p.next() != ')':
                    pass
        elif t == 'global':
            break
        elif t == 'constant':
            const = True
            break
        elif t == 'alias':
            raise ParseError('alias')
        else:
            raise ParseError('global %r' % t)
    ty = p.type()
    init = None
    if p.peek() not in (None, ','):
        init = p.value(ty)
    align = 1
    while p.accept(','):
        if p.accept('align'):
            align = int(p.next())
        else:
            while p.peek() not in (None, ','):
                p.next()
    mod.globals[name] = (ty, init, const, align, linkage)


def parse_header(mod, ln):
    toks = tokenize(re.sub(r'!dbg !\d+ ?', '', ln))
    p = P(toks, mod)
    f = Func()
    p.next()
    while p.peek() in LINK or p.peek() in PATTR or p.peek() in ('fastcc', 'ccc', 'coldcc') or p.peek() in ('arm_aapcscc', 'arm_apcscc', 'arm_aapcs_vfpcc'):
        t = p.next()
        f.linkage += ' ' + t
        if t in ('align', 'dereferenceable') and p.accept('('):
            while p.next() != ')':
                pass
    f.ret = p.type()
    f.name = p.next()
    p.expect('(')
    k = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                f.vararg = True
                p.expect(')')
                break
            ty = p.type()
            if ty[0] == 'metadata':
                nm = None
                while p.peek() not in (',', ')'):
                    p.next()
            else:
                p.attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()
            if nm is None:
                nm = '%' + str(k)
            f.params.append((ty, nm))
            k += 1
            if p.accept(')'):
                break
            p.expect(',')
    return f


def parse_body(f):
    """fill f.blocks lazily"""
    if f.blocks:
        return f
    mod = f.mod
    label = None
    blocks = {}
    cur = None
    # entry label: unnamed => number of params (if numbered)
    for raw in f.body_lines:
        if not raw.strip():
            continue
        if raw[0] != ' ' and raw[0] != '\t':
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', raw)
            if not m:
                raise ParseError('label ' + raw)
            label = '%' + m.group(1)
            cur = blocks[label] = []
            if f.entry is None:
                f.entry = label
            continue
        if cur is None:
            label = '%<entry>'
            cur = blocks[label] = []
            f.entry = label
            f.entry_unnamed = True
        if '#dbg_' in raw:
            continue
        s = raw
        line = 0
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            line = mod.dbg.get(m.group(1), 0)
        # strip metadata attachments
        k = s.find(', !')
        if k >= 0:
            s = s[:k]
        if s.lstrip().startswith('switch'):
            pass
        toks = tokenize(s)
        if not toks:
            continue
        cur.append((toks, line))
    # join multi-line switch: "[", cases..., "]"
    for lb, ins in blocks.items():
        out = []
        j = 0
        while j < len(ins):
            toks, line = ins[j]
            if toks[0] == 'switch' and ']' not in toks:
                toks = list(toks)
                while ']' not in toks:
                    j += 1
                    toks += ins[j][0]
            out.append(parse_instr(toks, line, mod))
            j += 1
        blocks[lb] = out
    f.blocks = blocks
    return f


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
CAST = set('trunc zext sext bitcast ptrtoint inttoptr fptoui fptosi uitofp sitofp fptrunc fpext'.split())


def parse_instr(toks, line, mod):
    """-> dict instruction"""
    p = P(toks, mod)
    dst = None
    if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
        dst = p.next()
        p.next()
    op = p.next()
    I = {'op': op, 'dst': dst, 'line': line}
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
        I['op'] = op
    if op in BIN:
        fl = []
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
            fl.append(p.next())
        I['flags'] = fl
        I['ty'] = p.type()
        I['a'] = p.value(I['ty'])
        p.expect(',')
        I['b'] = p.value(I['ty'])
    elif op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        I['ty'] = p.type()
        I['a'] = p.value(I['ty'])
        p.expect('to')
        I['to'] = p.type()
    elif op == 'alloca':
        p.accept('inalloca')
        I['ty'] = p.type()
        I['n'] = None
        I['align'] = 1
        while p.accept(','):
            if p.accept('align'):
                I['align'] = int(p.next())
            else:
                I['n'] = p.tv()
    elif op == 'load':
        I['volatile'] = False
        while p.peek() in ('volatile', 'atomic'):
            I['volatile'] = True
            p.next()
        I['ty'] = p.type()
        p.expect(',')
        I['p'] = p.tv()
        I['align'] = 1
        if p.accept(','):
            p.expect('align')
            I['align'] = int(p.next())
    elif op == 'store':
        I['volatile'] = False
        while p.peek() in ('volatile', 'atomic'):
            I['volatile'] = True
            p.next()
        I['v'] = p.tv()
        p.expect(',')
        I['p'] = p.tv()
        I['align'] = 1
        if p.accept(','):
            p.expect('align')
            I['align'] = int(p.next())
    elif op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        I['base'] = p.type()
        p.expect(',')
        I['p'] = p.tv()
        I['idx'] = []
        while p.accept(','):
            I['idx'].append(p.tv())
    elif op == 'icmp':
        p.accept('samesign')
        I['pred'] = p.next()
        I['ty'] = p.type()
        I['a'] = p.value(I['ty'])
        p.expect(',')
        I['b'] = p.value(I['ty'])
    elif op == 'br':
        if p.accept('label'):
            I['t'] = p.next()
            I['c'] = None
        else:
            I['c'] = p.tv()
            p.expect(',')
            p.expect('label')
            I['t'] = p.next()
            p.expect(',')
            p.expect('label')
            I['f'] = p.next()
    elif op == 'switch':
        I['v'] = p.tv()
        p.expect(',')
        p.expect('label')
        I['d'] = p.next()
        p.expect('[')
        cs = []
        while not p.accept(']'):
            ty, v = p.tv()
            p.expect(',')
            p.expect('label')
            cs.append((v[1], p.next()))
        I['cases'] = cs
    elif op == 'ret':
        if p.accept('void'):
            I['v'] = None
        else:
            I['v'] = p.tv()
    elif op == 'phi':
        I['ty'] = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(I['ty'])
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.accept(','):
                break
        I['inc'] = inc
    elif op == 'select':
        I['c'] = p.tv()
        p.expect(',')
        I['a'] = p.tv()
        p.expect(',')
        I['b'] = p.tv()
    elif op == 'call':
        while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.attrs()
        I['ty'] = p.type()
        if p.peek() == '(':
            # function type given explicitly (varargs)
            d = 0
            while True:
                x = p.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        if p.peek() == 'asm':
            I['asm'] = ' '.join(toks)
            I['callee'] = None
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect'):
                p.next()
            I['asmstr'] = p.next()
            p.expect(',')
            I['cons'] = p.next()
        else:
            I['callee'] = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                if p.peek() == 'metadata':
                    while p.peek() not in (',', ')'):
                        p.next()
                    args.append((('metadata',), None))
                else:
                    args.append(p.tv())
                if p.accept(')'):
                    break
                p.expect(',')
        I['args'] = args
    elif op == 'extractelement':
        I['v'] = p.tv()
        p.expect(',')
        I['i'] = p.tv()
    elif op == 'insertelement':
        I['v'] = p.tv()
        p.expect(',')
        I['e'] = p.tv()
        p.expect(',')
        I['i'] = p.tv()
    elif op == 'shufflevector':
        I['a'] = p.tv()
        p.expect(',')
        I['b'] = p.tv()
        p.expect(',')
        I['m'] = p.tv()
    elif op in ('unreachable', 'fence'):
        pass
    elif op == 'freeze':
        I['a'] = p.tv()
    elif op == 'extractvalue':
        I['a'] = p.tv()
        I['idx'] = []
        while p.accept(','):
            I['idx'].append(int(p.next()))
    elif op == 'insertvalue':
        I['a'] = p.tv()
        p.expect(',')
        I['b'] = p.tv()
        I['idx'] = []
        while p.accept(','):
            I['idx'].append(int(p.next()))
    else:
        raise ParseError('instr %s: %s' % (op, ' '.join(toks)))
    return I


# ---------------------------------------------------------------- layout

def sizeof(ty, pb):
    k = ty[0]
    if k == 'i':
        n = (ty[1] + 7) // 8
        if n == 1 or n == 2 or n == 4 or n == 8 or n == 16:
            return n
        p = 1
        while p < n:
            p *= 2
        return p
    if k == 'ptr':
        return pb // 8
    if k == 'fp':
        return 16 if ty[1] == 80 else ty[1] // 8
    if k == 'arr':
        return ty[1] * sizeof(ty[2], pb)
    if k == 'vec':
        return ty[1] * (ty[2][1] if ty[2][0] in ('i', 'fp') else pb) // 8
    if k == 'struct':
        off = 0
        al = 1
        for f in ty[1]:
            a = 1 if ty[2] else alignof(f, pb)
            al = max(al, a)
            off = (off + a - 1) // a * a + sizeof(f, pb)
        return (off + al - 1) // al * al
    raise ParseError('sizeof %r' % (ty,))


def alignof(ty, pb):
    k = ty[0]
    if k == 'arr':
        return alignof(ty[2], pb)
    if k == 'struct':
        if ty[2]:
            return 1
        return max([1] + [alignof(f, pb) for f in ty[1]])
    return sizeof(ty, pb)


def field_off(ty, i, pb):
    off = 0
    for j, f in enumerate(ty[1]):
        a = 1 if ty[2] else alignof(f, pb)
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += sizeof(f, pb)
    raise ParseError('field')
