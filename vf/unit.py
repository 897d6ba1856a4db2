"""Verification of one contract instance: symbolic execution of the body from arbitrary inputs, then the
postcondition, the frame and the safety obligations."""
import os
import pickle
import random
import time
import traceback
from terms import *
import terms as TM
import spec
import symex
import contracts as C
import prover
import sweep


class Unit:
    """result of one instance"""

    def __init__(self, cid, name, key, alias):
        self.cfg = cid
        self.name = name
        self.key = key
        self.alias = alias
        self.status = None          # ok | fail | unsupported
        self.post = []              # (label, status, method, detail)
        self.safety = []            # (kind, status, method, loc, msg)
        self.ct = []                # leaks (kind, loc, msg)
        self.counts = {}
        self.fail = []              # failed obligations: dict(kind, label, detail, env)
        self.instances = {}
        self.time = {}
        self.error = None
        self.assumed = []
        self.skipped = {}
        self.deps = None
        self.same_as = None

    def label(self):
        s = '%s %s' % (self.cfg, self.name)
        if self.key:
            s += '(' + ','.join(str(k) for k in self.key) + ')'
        if self.alias:
            s += ' aliased ' + ' '.join('='.join(g) for g in self.alias)
        return s


def setup(X, c, P, key, alias):
    """objects and symbolic inputs of an instance -> (args, namespace, layout)"""
    ints = {}
    it = iter(key)
    for p in c.params:
        if isinstance(p, C.Int):
            k = next(it)
            ints[p.name] = k
    for k in key:
        if isinstance(k, C.Globals):
            X.gvals = dict(k)
    a = C.NS()
    a.P = P
    group = {}
    for g in alias:
        for n in g:
            group[n] = g[0]
    sizes = {}
    writ = {}
    algn = {}
    for p in c.params:
        if isinstance(p, C.Buf):
            n = p.count(P, {k: v for k, v in ints.items()})
            g = group.get(p.name, p.name)
            sizes[g] = max(sizes.get(g, 0), n * p.ew // 8)
            writ[g] = writ.get(g, False) or p.mode != 'in'
            algn[g] = max(algn.get(g, 1), p.align or p.ew // 8)
    objs = {}
    args = []
    lay = []
    for p in c.params:
        if isinstance(p, C.Int):
            if p.values == 'w16':
                v = sym(p.name, 16)
                args.append(v)
                setattr(a, p.name, v)
            elif p.values == 'bool':
                s = sym(p.name, 1)
                v = zext(s, 8)
                args.append(v)
                setattr(a, p.name, v)
            else:
                args.append(ints[p.name])
                setattr(a, p.name, ints[p.name])
            continue
        g = group.get(p.name, p.name)
        o = objs.get(g)
        if o is None:
            o = objs[g] = X.new_obj(p.name, sizes[g], algn[g], 'arg', writ[g])
        n = p.count(P, ints)
        es = p.ew // 8
        if p.mode != 'out':
            bits = p.nbits(P)
            vals = []
            for i in range(n):
                s = sym('%s[%d]' % (p.name, i), bits)
                v = s if bits == p.ew else zext(s, p.ew)
                vals.append(v)
                o.cells[i * es] = (v, es)
            setattr(a, p.name, vals)
        args.append(symex.Ptr(o.id, 0))
        lay.append((p, o.id, n))
    # aliased inputs see the last writer of the cells; re-read so that all views agree
    for p, oid, n in lay:
        if p.mode != 'out':
            es = p.ew // 8
            setattr(a, p.name, [X.gather(X.st.objs[oid], i * es, es) for i in range(n)])
    return args, a, lay


def execute(prog, cfg, P, c, f, key, alias, table, inline, ext, pb=64):
    X = symex.Executor(prog, pb, None)
    H = C.Hook(cfg, P, {k: v for k, v in table.items()}, inline, ext)
    X.hook = H
    X.ginit = 'havoc'
    args, a, lay = setup(X, c, P, key, alias)
    ret = X.run_func(f, args)
    return X, H, a, lay, ret


def spec_side(P, c, a):
    d = {}

    def drw(n, stream=0):
        k = d.get(stream, 0)
        d[stream] = k + 1
        tag = 'rnd%d' % k if not stream else 'rnd%s_%d' % (stream, k)
        return [sym('%s[%d]' % (tag, i), 8) for i in range(n)]
    a.draw = drw
    return c.defn(P, a), d


def goals_of(X, c, lay, ret, out):
    goals = []
    for p, oid, n in lay:
        if p.mode == 'in':
            continue
        es = p.ew // 8
        o = X.st.objs[oid]
        v = out[p.name]
        vals = v.vals if isinstance(v, C.Low) else v
        bits = v.bits if isinstance(v, C.Low) else p.ew
        if not bits:
            continue
        for i in range(n):
            x = X.gather(X.st.objs[oid], i * es, es)
            if bits != p.ew:
                x = ext(x, 0, bits)
            goals.append(('%s[%d]' % (p.name, i), x, vals[i], bits))
    if c.ret is not None:
        goals.append(('result', ret, out['ret'], c.ret))
    return goals


def public(c, P):
    """which symbols are public in this contract instance (only the KEM functions know: elsewhere all data are secret)"""
    n = c.name
    lo, hi = P.indcpa_sk, P.indcpa_sk + P.indcpa_pk + 32     # the copy of the public key and of its hash

    seeds = set('rnd%d' % (3 * l) for l in range(c.lanes))

    def pub(s):
        if s.startswith(('cycles', 'addr:')):
            return True
        v = s.split('[')[0]
        if n == 'crypto_kem_enc':
            return v == 'pk'
        if n == 'crypto_kem_dec':
            return v == 'ct' or v == 'sk' and lo <= int(s.split('[')[1][:-1]) % P.sk < hi
        if n == 'crypto_kem_keypair':
            return v in seeds       # hashed to the published matrix seed and used for nothing else
        return False
    return pub


def honest(c, P):
    """values of the symbols in an honest run: the first of the two executions compared"""
    if c.name != 'crypto_kem_dec':
        return {}
    pk, sk = spec.kem_keypair(P, [1] * 32, [2] * 32, [3] * 32)
    ct, _ = spec.kem_enc(P, [4] * 32, pk)
    e = {'ct[%d]' % i: v for i, v in enumerate(ct * c.lanes)}
    e.update({'sk[%d]' % i: v for i, v in enumerate(sk * c.lanes)})
    return e


def two_values(t, pub, seed, hon):
    """two inputs equal in public data that give the expression different values"""
    rng = random.Random(seed)
    base = {}
    first = None
    t0 = time.time()
    for i in range(60):
        mode = i % 4

        def env(x):
            if i == 0 and x.a[0] in hon:
                base[x] = hon[x.a[0]]
                return base[x]
            if pub(x.a[0]):
                if x not in base:
                    base[x] = rng.getrandbits(x.w)
                return base[x]
            return 0 if i == 0 else M(x.w) if i == 1 else rng.getrandbits(x.w) if mode != 3 else rng.getrandbits(x.w) & rng.getrandbits(x.w) & rng.getrandbits(x.w)
        vals = {}
        for x in symbols([t]):
            vals[x] = env(x)
        v = evaluate([t], vals.__getitem__)[t]
        if first is None:
            first = v, vals
        elif first[0] != v:
            d = [x for x in vals if vals[x] != first[1][x]][:6]
            return 'value %#x with %s; value %#x with %s' % (first[0], fmt(first[1], d), v, fmt(vals, d))
        if time.time() - t0 > 20:
            break
    return ''


def fmt(vals, xs):
    return ', '.join('%s=%#x' % (x.a[0], vals[x]) for x in xs) + ', ...'


def constant(t, pub):
    """is the expression independent of its inputs? -> (proved, pair of inputs)"""
    v = evaluate([t], lambda x: 0)[t]
    st, me, env = prover.prove_cond(eq(t.w, t, v), [])
    if st == 'cex' and not any(pub(x.a[0]) for x in symbols([t])):
        return False, 'value %#x with all inputs 0; another value with %s' % (v, fmt(env, list(env)[:6]))
    return st == 'proved', ''


def verify(prog, cfg, P, c, f, key, alias, table, inline=(), ext=None, opts=None):
    opts = opts or {}
    want = opts.get('want', ('post', 'safety', 'ct'))
    u = Unit(cfg.id, c.name, key, alias)
    u.inline = tuple(inline)
    t0 = time.time()
    pb = 32 if cfg.lang == 'arm' else 64
    sweep.FREE = cfg.family == 'rng'
    try:
        X, H, a, lay, ret = execute(prog, cfg, P, c, f, key, alias, table, inline, ext or {}, pb)
    except symex.Violation as e:
        u.status = 'fail'
        u.fail.append({'kind': e.kind, 'label': e.kind, 'detail': '%s at %s' % (e.msg, e.loc), 'env': {}, 'definite': True})
        u.time['exec'] = time.time() - t0
        return u
    except (symex.Unsupported, symex.PathDead) as e:
        u.status = 'unsupported'
        u.error = '%s: %s' % (e.__class__.__name__, e)
        u.time['exec'] = time.time() - t0
        return u
    u.time['exec'] = time.time() - t0
    u.instances = {k: None for k in H.instances}
    u.assumed = sorted(H.assumed)
    u.skipped = dict(H.skipped)
    u.counts = dict(X.counts)
    t1 = time.time()
    # safety obligations that interval reasoning did not settle during execution
    if 'safety' in want:
        refuted = set()
        for kind, cond, pc, loc, msg in X.obl:
            if (kind, loc) in refuted:
                continue
            st, me, env = prover.prove_cond(cond, pc)
            if st == 'cex':
                refuted.add((kind, loc))
            u.safety.append((kind, st, me, loc, msg))
            if st != 'proved':
                u.fail.append({'kind': kind, 'label': '%s at %s' % (kind, loc), 'detail': msg, 'env': envout(env), 'status': st})
        un = uninit_roots(X, c, lay, ret)
        for lb in un:
            u.fail.append({'kind': 'uninit', 'label': lb, 'detail': 'depends on uninitialised memory', 'env': {}, 'status': 'unknown'})
    if 'ct' in want:
        leaks = {}
        pub = public(c, P)
        hon = None
        for kind, t, loc in X.events:
            if t.__class__ is int:
                continue
            sec = [x for x in symbols([t]) if not pub(x.a[0])]
            if sec:
                leaks.setdefault((kind, loc), []).append((t, sec))
        for (kind, loc), ts in leaks.items():
            st, pair = 'unknown', ''
            open_ = []
            if hon is None:
                hon = honest(c, P)
            for t, sec in ts[:400]:
                pair = two_values(t, pub, opts.get('seed', 1), hon)
                if pair:
                    st = 'cex'
                    break
                open_.append((t, sec))
            else:
                # the expression may be constant in the secret all the same
                left = None
                for t, sec in open_[:40]:
                    ok, pair = constant(t, pub)
                    if pair:
                        st = 'cex'
                    if not ok:
                        left = sec
                        break
                if left is None:
                    continue
                sec = left
            names = ', '.join(x.a[0] for x in sec[:4])
            u.ct.append((kind, loc, names))
            u.fail.append({'kind': 'ct', 'label': 'secret-dependent %s at %s' % (kind, loc), 'detail': 'depends on ' + names, 'env': {}, 'status': st, 'pair': pair})
        u.nevents = len(X.events)
    if 'post' in want:
        out, d = spec_side(P, c, a)
        xd = getattr(X, 'draws', {})
        if c.draws and xd != d:
            u.fail.append({'kind': 'post', 'label': 'random draws', 'detail': 'code draws %r, specification %r' % (xd, d), 'env': {}, 'status': 'definite'})
        goals = goals_of(X, c, lay, ret, out)
        u.time['spec'] = time.time() - t1
        t1 = time.time()
        for r in prove_split(goals, opts):
            u.post.append((r.label, r.status, r.method))
            if r.status != 'proved':
                u.fail.append({'kind': 'post', 'label': r.label, 'detail': r.detail, 'env': envout(r.env), 'status': r.status})
    u.time['prove'] = time.time() - t1
    u.status = 'fail' if u.fail else 'ok'
    return u


def prove_split(goals, opts):
    """prove_equal, in several processes if asked to"""
    kw = dict(seed=opts.get('seed', 1), z3_timeout=opts.get('z3', 20))
    n = opts.get('split', 1)
    hard = [i for i, g in enumerate(goals) if g[1] is not g[2]]
    if n < 2 or len(hard) < 64:
        return prover.prove_equal(goals, **kw)
    res = [None] * len(goals)
    easy = [i for i, g in enumerate(goals) if g[1] is g[2]]
    for i, r in zip(easy, prover.prove_equal([goals[i] for i in easy], **kw)):
        res[i] = r
    jobs = []
    for k in range(n):
        part = hard[len(hard) * k // n:len(hard) * (k + 1) // n]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                prover.STATS.clear()
                rs = prover.prove_equal([goals[i] for i in part], **kw)
                for x in rs:
                    x.env = envout(x.env)
                with os.fdopen(w, 'wb') as g:
                    pickle.dump((rs, dict(prover.STATS)), g)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        jobs.append((part, pid, r))
    for part, pid, r in jobs:
        with os.fdopen(r, 'rb') as g:
            data = g.read()
        os.waitpid(pid, 0)
        rs, st = pickle.loads(data)
        for i, x in zip(part, rs):
            res[i] = x
        for k, v in st.items():
            prover.stat(k, v)
    return res


def uninit_roots(X, c, lay, ret):
    bad = []
    un = X.uninit
    if not un:
        return bad
    names = set(id(t) for t in un)
    roots = []
    for p, oid, n in lay:
        if p.mode == 'in':
            continue
        es = p.ew // 8
        for i in range(n):
            roots.append(('%s[%d]' % (p.name, i), X.gather(X.st.objs[oid], i * es, es)))
    if ret is not None and ret.__class__ is T:
        roots.append(('result', ret))
    un = X.uninit
    rs = [r for _, r in roots if r.__class__ is not int]
    dirty = {}
    for t in topo(rs):
        dirty[t] = t in un or any(dirty[x] for x in children(t))
    for l, r in roots:
        if r.__class__ is not int and dirty[r]:
            bad.append(l)
    for kind, t, loc in X.events:
        if t.__class__ is not int and any(s in un for s in symbols([t])):
            bad.append('%s at %s' % (kind, loc))
    return bad


def envout(env):
    if not env:
        return {}
    return {t if t.__class__ is str else t.a[0]: v for t, v in env.items()}
