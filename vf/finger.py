"""Fingerprint of a contract instance: everything its verification reads.  Two instances with the same fingerprint
(the same function text after preprocessing, the same callees, globals, contract and parameters, typically one
function compiled for two configurations) generate the same obligations; a run discharges them once.  The parameters
read are recorded while an instance is verified (spec.Recorded) and compared when its result is shared."""
import hashlib
import re
import contracts as C

def norm(f):
    t = getattr(f, '_norm', None)
    if t is None:
        out = []
        for l in f.text.split('\n'):
            if '#dbg_' in l or not l.strip():
                continue
            k = l.find(', !')
            if k >= 0 and not l.lstrip().startswith('switch'):
                l = l[:k]
            l = re.sub(r' !dbg !\d+', '', l)
            l = re.sub(r' ; preds.*', '', l)
            out.append(re.sub(r' #\d+', '', l))
        t = f._norm = '\n'.join(out)
    return t


def fingerprint(ctx, t):
    cfg, prog, table = ctx.cfg, ctx.prog, ctx.table
    h = []
    f = prog.find('@' + t.name)
    if f is None:
        return None
    seen = set()
    st = [(f, True)]
    while st:
        f, body = st.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        h.append(norm(f))
        for ty in sorted(set(re.findall(r'%(?:struct|union)[-\w.$]*', f.text))):
            h.append('%s=%r' % (ty, f.mod.types.get(ty)))
        work = sorted(f.refs())
        gs = set()
        while work:
            n = work.pop(0)
            if n in gs:
                continue
            gs.add(n)
            g = prog.glob(n, f.mod)
            if g is not None:
                if not g[2][2]:
                    h.append('%s = %r' % (n, (g[2][0], g[2][3])))       # mutable: arbitrary at entry
                    continue
                h.append('%s = %r' % (n, g[2]))
                work += sorted(set(re.findall(r"'(@[-\w.$]+)'", repr(g[2][1]))))
                continue
            nm = n[1:]
            if nm in ctx.ext:
                h.append('assumed ' + nm)
            d = prog.func(n, f.mod)
            if d is None:
                h.append('external ' + n)
            elif nm in table and nm not in t.inline:
                h.append('contract %s %r %r' % (nm, sorted(k.split(':')[-1] for k in C.mutable_globals(prog, d)), sorted(k.split(':')[-1] for k in C.written_globals(prog, d))))
            else:
                st.append((d, True))
    h.append(repr((cfg.lang, cfg.family in ('ref', 'uref'), cfg.family in ('avx', 'uavx'), cfg.family if cfg.family not in ('ref', 'uref', 'avx', 'uavx') else '',
                   t.name, t.key, t.alias, t.inline)))
    return hashlib.sha256('\0'.join(h).encode()).hexdigest()
