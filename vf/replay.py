"""Replays a counterexample on the real code: compiles the configuration natively with gcc, calls the function
with the recorded inputs in a process of its own and compares with the specification.
usage: replay.py FILE (the file a VIOLATION line names)"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import build
import contracts as C
import spec

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']


def ints_of(c, key):
    it = iter(key)
    return {p.name: next(it) for p in c.params if isinstance(p, C.Int)}


def concrete(c, P, key, alias, env):
    """argument values of the instance under an assignment of its symbols"""
    ints = ints_of(c, key)
    vals = {}
    for p in c.params:
        if isinstance(p, C.Int):
            if p.values:
                ints[p.name] = env.get(p.name, 0) & (1 if p.values == 'bool' else 0xFFFF)
            continue
        n = p.count(P, ints)
        b = p.nbits(P)
        if p.mode == 'out':
            vals[p.name] = [0xA5 & ((1 << p.ew) - 1)] * n
        else:
            vals[p.name] = [env.get('%s[%d]' % (p.name, i), 0) & ((1 << b) - 1) for i in range(n)]
    return ints, vals


def to_bytes(p, vals):
    return b''.join(v.to_bytes(p.ew // 8, 'little') for v in vals)


def from_bytes(p, data):
    es = p.ew // 8
    return [int.from_bytes(data[i:i + es], 'little') for i in range(0, len(data), es)]


def expected(c, P, ints, vals, env):
    a = C.NS()
    a.P = P
    for k, v in list(ints.items()) + list(vals.items()):
        setattr(a, k, v)
    d = {}

    def drw(n, stream=0):
        k = d.get(stream, 0)
        d[stream] = k + 1
        tag = 'rnd%d' % k if not stream else 'rnd%s_%d' % (stream, k)
        return [env.get('%s[%d]' % (tag, i), 0) & 255 for i in range(n)]
    a.draw = drw
    return c.defn(P, a)


def rnd_table(env):
    """{stream: [[bytes of draw 0], ...]}"""
    out = {}
    for k, v in env.items():
        m = re.fullmatch(r'rnd(?:(\w+)_)?(\d+)\[(\d+)\]', k)
        if m:
            s = m.group(1) or ''
            out.setdefault(s, {}).setdefault(int(m.group(2)), {})[int(m.group(3))] = v & 255
    return out


def driver_source(c, P, key, alias, widths, rnd=True):
    """C program: reads input records from stdin; for each, exact-size heap buffers, one call, the outputs in hex"""
    ints = ints_of(c, key)
    L = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', '#include <stdint.h>']
    group = {}
    for g in alias:
        for n in g:
            group[n] = g[0]
    bufs = [p for p in c.params if isinstance(p, C.Buf)]
    nbytes = {p.name: p.count(P, ints) * p.ew // 8 for p in bufs}
    size = {}
    for p in bufs:
        g = group.get(p.name, p.name)
        size[g] = max(size.get(g, 0), nbytes[p.name])
    L.append('static uint32_t u32(void) { unsigned char b[4]; if (fread(b, 1, 4, stdin) != 4) exit(0); return b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24; }')
    L.append('static void rd(void *p, size_t n) { if (n && fread(p, 1, n, stdin) != n) exit(7); }')
    L.append('static unsigned char *T[64]; static uint32_t TN[64]; static uint32_t tn, td;')
    if rnd:
        L.append('int randombytes(unsigned char *x, unsigned long long n) { memset(x, 0, n); if (td < tn) { size_t m = TN[td]; if (m > n) m = n; memcpy(x, T[td], m); } td++; return 0; }')
    args = []
    protos = []
    for p, w in zip(c.params, widths):
        if isinstance(p, C.Int):
            t = {8: 'uint8_t', 16: 'uint16_t', 32: 'uint32_t', 64: 'uint64_t'}[w]
            protos.append(t)
            args.append('(%s)V_%s' % (t, p.name) if p.values else '(%s)%dULL' % (t, ints[p.name]))
        else:
            protos.append('void *')
            args.append('B_' + group.get(p.name, p.name))
    ret = {None: 'void', 8: 'uint8_t', 16: 'uint16_t', 32: 'uint32_t', 64: 'uint64_t'}[c.ret]
    L.append('%s %s(%s);' % (ret, c.name, ', '.join(protos)))
    L.append('static void hex(const char *n, const unsigned char *b, size_t k) { printf("%s ", n); for (size_t i = 0; i < k; i++) printf("%02x", b[i]); printf("\\n"); }')
    L.append('int main(void) { for (;;) {')
    L.append('  uint32_t i; tn = u32(); td = 0; if (tn > 64) exit(8); for (i = 0; i < tn; i++) { TN[i] = u32(); T[i] = malloc(TN[i] + 1); rd(T[i], TN[i]); }')
    for p in c.params:
        if isinstance(p, C.Int) and p.values:
            L.append('  uint32_t V_%s = u32();' % p.name)
    for p in bufs:
        if p.mode != 'out':
            L.append('  unsigned char *I_%s = malloc(%d); rd(I_%s, %d);' % (p.name, nbytes[p.name] + 1, p.name, nbytes[p.name]))
    for g, n in size.items():
        L.append('  unsigned char *B_%s = malloc(%d); memset(B_%s, 0xA5, %d);' % (g, max(n, 1), g, n))
    for p in bufs:
        if p.mode != 'out':
            L.append('  memcpy(B_%s, I_%s, %d);' % (group.get(p.name, p.name), p.name, nbytes[p.name]))
    call = '%s(%s);' % (c.name, ', '.join(args))
    if c.ret is not None:
        L.append('  uint64_t ret = %s' % call)
        L.append('  printf("ret %llx\\n", (unsigned long long)ret);')
    else:
        L.append('  ' + call)
    for p in bufs:
        if p.mode != 'in':
            L.append('  hex("%s", B_%s, %d);' % (p.name, group.get(p.name, p.name), nbytes[p.name]))
        else:
            g = group.get(p.name, p.name)
            if g == p.name and not any(group.get(q.name, q.name) == g and q.mode != 'in' for q in bufs):
                L.append('  if (memcmp(B_%s, I_%s, %d)) printf("frame %s changed\\n");' % (g, p.name, nbytes[p.name], p.name))
    for g in size:
        L.append('  free(B_%s);' % g)
    L.append('  printf("end\\n"); fflush(stdout); } }')
    return '\n'.join(L) + '\n'


class Native:
    """the configuration compiled natively around one function"""

    def __init__(self, cfg, P, c, f, key, alias):
        self.cfg, self.P, self.c, self.f, self.key, self.alias = cfg, P, c, f, key, alias
        self.scratch = tempfile.mkdtemp(prefix='vfr.')
        self.static = 'internal' in f.linkage
        self.exes = {}
        widths = [t[1] if t[0] == 'i' else 0 for t in f.ptypes()]
        self.src = driver_source(c, P, key, alias, widths, cfg.family != 'rng')

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def exe(self, tool, san):
        k = (tool, tuple(san))
        if k not in self.exes:
            self.exes[k] = self.build(tool, san)
        return self.exes[k]

    def build(self, tool, san):
        tag = str(len(self.exes))
        d = os.path.join(self.scratch, 'n')
        if not os.path.isdir(d):
            os.makedirs(d)
            build.prepare(self.cfg, d)
            with open(os.path.join(d, 'vf_driver.c'), 'w') as f:
                f.write(self.src)
            if self.cfg.family == 'm0':
                shutil.copy(os.path.join(build.HERE, 'stubs', 'host', 'm0_host.c'), d)
            elif self.cfg.lang == 'arm':
                h = os.path.join(build.HERE, 'stubs')
                shutil.copy(os.path.join(h, 'host', 'm4_host.c'), d)
                for n in os.listdir(os.path.join(h, 'pqm4')):
                    shutil.copy(os.path.join(h, 'pqm4', n), d)
        flags = ['-march=native', '-w', '-fno-strict-aliasing', '-fcommon', '-g', '-I', d] + san
        if self.cfg.family == 'm0':
            flags += ['-I', os.path.join(d, 'include')]
        flags += ['-O0', '-fno-inline'] if self.static else ['-O2']
        srcs = [s for s in dict.fromkeys(build.sources(self.cfg, d) + ['vf_driver.c']) if s.endswith('.c') and os.path.basename(s) not in (('PQCgenKAT_kem.c',) if self.cfg.family == 'rng' else ('rng.c', 'PQCgenKAT_kem.c'))]

        def one(s):
            o = os.path.join(d, s.replace('/', '_')[:-2] + '.' + tag + '.o')
            r = subprocess.run([tool] + flags + ['-c', os.path.join(d, s), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 0 and self.static:
                subprocess.run(['objcopy', '--globalize-symbol=' + self.c.name, o], stderr=subprocess.DEVNULL)
            return o, r
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, srcs))
        for o, r in rs:
            if r.returncode:
                return None, 'does not compile natively: ' + r.stdout.decode(errors='replace')[:600]
        exe = os.path.join(d, 'vf_driver.' + tag)
        r = subprocess.run([tool] + san + ['-Wl,-z,muldefs', '-o', exe] + [o for o, _ in rs] + ['-lcrypto', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return None, 'does not link natively: ' + r.stdout.decode(errors='replace')[:600]
        return exe, ''

    def record(self, env):
        c = self.c
        ints, vals = concrete(c, self.P, self.key, self.alias, env)
        # aliased inputs share memory: the later parameter's bytes win, as in the symbolic setup
        for g in self.alias:
            ps = [p for p in c.params if p.name in g and p.mode != 'out']
            if len(ps) > 1:
                q = ps[-1]
                m = to_bytes(q, vals[q.name])
                for p in ps[:-1]:
                    x = to_bytes(p, vals[p.name])
                    vals[p.name] = from_bytes(p, (m + x[len(m):])[:len(x)])
        draws = rnd_table(env).get('', {})
        n = min(max(draws) + 1 if draws else 0, 64)
        b = n.to_bytes(4, 'little')
        for k in range(n):
            m = draws.get(k, {})
            x = bytes(m.get(i, 0) for i in range(max(m) + 1 if m else 0))
            b += len(x).to_bytes(4, 'little') + x
        for p in c.params:
            if isinstance(p, C.Int) and p.values:
                b += ints[p.name].to_bytes(4, 'little')
        for p in c.params:
            if isinstance(p, C.Buf) and p.mode != 'out':
                b += to_bytes(p, vals[p.name])
        return ints, vals, b

    def run(self, envs, tool, san):
        """-> (index of the first deviating input or None, text); index -1: could not run"""
        c = self.c
        nm = tool + (' ' + san[0] if san else '')
        exe, err = self.exe(tool, san)
        if exe is None:
            return -1, '%s: %s' % (nm, err)
        recs = [self.record(e) for e in envs]
        late = False
        try:
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0')
            r = subprocess.run([exe], input=b''.join(x[2] for x in recs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60 + len(envs), cwd=self.scratch, env=env)
            out, code, errt = r.stdout, r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            out, code, errt, late = e.stdout or b'', 0, b'', True
        blocks = out.decode(errors='replace').split('end\n')
        for k, (ints, vals, _) in enumerate(recs):
            if k >= len(blocks) - 1:
                if late:
                    return k, nm + ': the call does not return within the time limit'
                return k, '%s: the call ends with status %d: %s' % (nm, code, errt.decode(errors='replace')[:1500])
            t = self.compare(expected(c, self.P, ints, vals, envs[k]), blocks[k])
            if t:
                return k, nm + ': ' + t
        return None, '%s: the result agrees with the specification on %d input%s' % (nm, len(envs), '' if len(envs) == 1 else 's')

    def compare(self, exp, block):
        c = self.c
        got = {}
        for l in block.splitlines():
            w = l.split(' ', 1)
            if w[0] == 'frame':
                return 'an input buffer is modified: ' + l
            got[w[0]] = w[1] if len(w) > 1 else ''
        if c.ret is not None:
            g = int(got.get('ret', '0'), 16)
            if g != exp['ret']:
                return 'returns %#x, specification %#x' % (g, exp['ret'])
        for p in c.params:
            if not isinstance(p, C.Buf) or p.mode == 'in':
                continue
            gv = from_bytes(p, bytes.fromhex(got.get(p.name, '')))
            ev = exp[p.name]
            m = (1 << p.ew) - 1
            if isinstance(ev, C.Low):
                m = (1 << ev.bits) - 1
                ev = ev.vals
            for i, (x, y) in enumerate(zip(gv, ev)):
                if (x & m) != (y & m):
                    return '%s[%d] is %#x, specification %#x' % (p.name, i, x & m, y & m)
        return ''


def replay(cfg, P, c, f, key, alias, env, kind, before=(), prog=None):
    """-> (confirmed, text)"""
    if cfg.lang == 'arm':
        ok, text = (False, 'assembly') if f.__class__.__name__ == 'AsmFn' else replay1(cfg, P, c, f, key, alias, env, kind, before)
        if not ok and prog is not None:
            ok, t2 = emulate(prog, cfg, P, c, f, key, alias, env)
            text += '; ' + t2
        return ok, text
    return replay1(cfg, P, c, f, key, alias, env, kind, before)


def replay1(cfg, P, c, f, key, alias, env, kind, before=()):
    N = Native(cfg, P, c, f, key, alias)
    try:
        plans = [('gcc', SAN), ('gcc', [])] if kind != 'post' else [('gcc', []), ('gcc', SAN)]
        if kind == 'uninit':
            plans = [('clang-18', ['-fsanitize=memory', '-fno-sanitize-recover=memory'])] + plans
        text = []
        for tool, san in plans:
            k, t = N.run(list(before) + [env], tool, san)
            if k is not None and k >= 0:
                return True, t
            text.append(t)
        return False, '; '.join(text)
    finally:
        N.close()


def emulate(prog, cfg, P, c, f, key, alias, env, limit=150):
    """one run on the given input, callees included, of the extracted code (for assembly: of the assembled object code, the
    instructions executed one by one) -> (deviates, text).  For the Cortex-M4, for which no hardware or emulator is here."""
    import contracts
    import symex
    import terms
    import unit
    conc = lambda n, w: env.get(n, 0) & ((1 << w) - 1)
    table = contracts.table(cfg)
    what = 'the assembled object code, executed instruction by instruction'

    def late(*_):
        raise TimeoutError
    old = signal.signal(signal.SIGALRM, late)
    mods = [m for m in (unit, contracts, symex) if hasattr(m, 'sym')]
    keep = [m.sym for m in mods]
    signal.alarm(limit)
    try:
        for m in mods:
            m.sym = conc
        try:
            X, H, a, lay, ret = unit.execute(prog, cfg, P, c, f, key, alias, table, tuple(table), contracts.externals(cfg), 32)
        except symex.Violation as e:
            return True, '%s: %s at %s' % (what, e.msg, e.loc)
        for kind, cond, pc, loc, msg in X.obl:
            if cond.__class__ is int and not cond:
                return True, '%s: %s at %s: %s' % (what, kind, loc, msg)
        ints, vals = concrete(c, P, key, alias, env)
        exp = expected(c, P, ints, vals, env)
        for l, x, y, w in unit.goals_of(X, c, lay, ret, exp):
            x = terms.evaluate([x], lambda s: 0)[x] if x.__class__ is not int else x
            y = terms.evaluate([y], lambda s: 0)[y] if y.__class__ is not int else y
            if (x ^ y) & ((1 << w) - 1):
                return True, '%s: %s is %#x, specification %#x' % (what, l, x, y & ((1 << w) - 1))
        return False, what + ': agrees with the specification'
    except TimeoutError:
        return False, what + ': not finished in %d s' % limit
    except (symex.Unsupported, symex.PathDead) as e:
        return False, '%s: %s' % (what, e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        for m, k in zip(mods, keep):
            m.sym = k


def search(cfg, P, c, f, key, alias, envs):
    """-> (sequence of inputs whose last one deviates, or None; text).  All inputs are given to one process, in order,
    so that a deviation which needs a history of calls shows."""
    N = Native(cfg, P, c, f, key, alias)
    try:
        k, t = N.run(envs, 'gcc', [])
        if k is not None and k >= 0:
            for m in (0, 1, 2, 4, 8, 16):
                h = envs[max(k - m, 0):k + 1]
                if N.run(h, 'gcc', [])[0] == len(h) - 1:
                    return h, t + ('' if m == 0 else ' (after %d preceding calls)' % (len(h) - 1))
            return envs[:k + 1], t + ' (after %d preceding calls)' % k
        k, t2 = N.run(envs[:40], 'gcc', SAN)
        if k is not None and k >= 0:
            return envs[:k + 1][-1:], t2
        return None, t + '; ' + t2
    finally:
        N.close()


def arr(name, vals):
    return {'%s[%d]' % (name, i): v for i, v in enumerate(vals)}


def structured(c, P, key, rng, n):
    """inputs for a guided search: honest objects and small deviations from them"""
    if c.lanes == 1 or c.name == 'crypto_kem_keypair':
        return structured1(c, P, key, rng, n)
    one = structured1(c, P, key, rng, n)
    size = {'pk': P.pk, 'sk': P.sk, 'ct': P.ct}
    out = []
    for i in range(n):
        e = {}
        for l in range(c.lanes):
            # mostly honest lanes (the first input of a block of 64 is honest) next to one that is not
            b = one[i] if l == i % c.lanes or i % 7 == 0 else one[i // 64 * 64] if i % 2 else one[rng.randrange(n)]
            for k, v in b.items():
                nm, j = k[:-1].split('[')
                if nm in size:
                    e['%s[%d]' % (nm, int(j) + l * size[nm])] = v
                elif nm.startswith('rnd'):
                    e['rnd%d[%s]' % (int(nm[3:]) + l, j)] = v
        out.append(e)
    return out


def structured1(c, P, key, rng, n):
    by = lambda k: [rng.getrandbits(8) for _ in range(k)]
    envs = []
    if c.name in ('crypto_kem_dec', 'indcpa_kem_dec'):
        key_ = ct = None
        for i in range(n):
            if i % 64 == 0:
                pk, sk = spec.kem_keypair(P, by(32), by(32), by(32))
                if i and i % 128 == 0:
                    sk = sk[:P.indcpa_sk + P.indcpa_pk] + by(64)
                ct, _ = spec.kem_enc(P, by(32), pk)
            x = list(ct)
            m = i % 64
            if m == 1:
                x = by(P.ct)
            elif 2 <= m < 10:
                x[(0, 1, P.ct - 1, P.ct - 2, P.pvc - 1, P.pvc, P.ct // 2, 31)[m - 2]] ^= 1 << rng.randrange(8)
            elif m < 24:
                x[rng.randrange(P.ct)] ^= 1 << rng.randrange(8)
            elif m < 44:
                b = 1 << rng.randrange(8) if m % 2 else rng.randrange(1, 256)
                p, q = rng.sample(range(P.ct), 2) if m % 4 else (lambda z: (z, z + 1))(rng.randrange(P.ct - 1))
                x[p] ^= b
                x[q] ^= b
            elif m < 50:
                p, q = rng.sample(range(P.ct), 2)
                x[p] = (x[p] + 1) & 255
                x[q] = (x[q] - 1) & 255
            elif m < 52:
                p, q = rng.sample(range(P.ct), 2)
                x[p], x[q] = x[q], x[p]
            elif m < 55:
                # operands with zero polynomials
                z = (range(P.pvc // P.k), range((P.k - 1) * (P.pvc // P.k), P.pvc), range(P.ct))[m - 52]
                for q in z:
                    x[q] = 0
            else:
                p = rng.randrange(P.ct)
                for q in range(p, min(P.ct, p + rng.choice((2, 4, 8, 16, 32, 64, 128, 256)))):
                    x[q] ^= 0x80 if m % 2 else 0xff
            e = arr('ct', x)
            e.update(arr('sk', sk if c.name[0] == 'c' else sk[:P.indcpa_sk]))
            envs.append(e)
    elif c.name in ('crypto_kem_enc', 'indcpa_kem_enc'):
        for i in range(n):
            if i % 32 == 0:
                pk, sk = spec.kem_keypair(P, by(32), by(32), by(32))
            x = list(pk)
            if i % 4 == 1:
                x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
            elif i % 4 == 2:
                x = by(len(x))
            e = arr('pk', x)
            e.update(arr('rnd0', by(32)))
            e.update(arr('m', by(32)))
            e.update(arr('seed', by(32)))
            envs.append(e)
    else:
        ints = ints_of(c, key)
        for i in range(n):
            e = {}
            for p in c.params:
                if isinstance(p, C.Int):
                    if p.values:
                        e[p.name] = rng.getrandbits(1 if p.values == 'bool' else 16)
                elif p.mode != 'out':
                    k = p.count(P, ints)
                    b = p.nbits(P)
                    if i % 5 == 0:
                        v = [rng.choice((0, (1 << b) - 1, 1 << (b - 1), 1)) ] * k
                    elif i % 5 == 1:
                        v = [rng.choice((0, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, 1)) for _ in range(k)]
                    elif i % 5 == 2:
                        v = [0] * k
                        if k:
                            v[rng.randrange(k)] = rng.getrandbits(b)
                    else:
                        v = [rng.getrandbits(b) for _ in range(k)]
                    e.update(arr(p.name, v))
            for k in range(12):
                e.update(arr('rnd%d' % k, by(64)))
            envs.append(e)
    return envs


def main():
    with open(sys.argv[1]) as f:
        j = json.load(f)
    import ir
    import symex
    cfg = {c.id: c for c in build.configurations()}[j['configuration']]
    scratch = tempfile.mkdtemp(prefix='vfr.')
    d, lls = build.extract(cfg, scratch)
    prog = build.program(cfg, lls)
    shutil.rmtree(scratch, ignore_errors=True)
    P = spec.params(cfg.k, cfg.eq, cfg.uniform, cfg.nineties, cfg.first)
    c = C.table(cfg)[j['function']]
    fn = prog.find('@' + c.name)
    key = tuple(k for k in j['sizes'] if not isinstance(k, list))
    alias = tuple(tuple(a) for a in j['aliasing'])
    ok, text = replay(cfg, P, c, fn, key, alias, {k: int(v, 16) for k, v in j['input'].items()}, j['kind'],
                      [{k: int(v, 16) for k, v in e.items()} for e in j.get('preceding_inputs', [])], prog)
    print('reproduced' if ok else 'not reproduced', '-', text)
    sys.exit(1 if ok else 0)


if __name__ == '__main__':
    main()
