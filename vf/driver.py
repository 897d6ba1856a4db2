"""Decides a property: builds the IR of every configuration it covers from the working tree, verifies the
contract instances its roots depend on, and escalates a failed internal contract to its callers (a contract on
an internal function is only a means: if the function's own contract fails, it is inlined into its callers,
and only a public contract that then fails is a violation)."""
import copy
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
import build
import ir
import symex
import spec
import contracts as C
import unit
import prover
import terms
import finger

JOBS = int(os.environ.get('VF_JOBS', '8'))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx:
    """one configuration, extracted and parsed"""

    def __init__(self, cfg, d, lls):
        self.cfg = cfg
        self.dir = d
        self.prog = build.program(cfg, lls)
        self.P = spec.params(cfg.k, cfg.eq, cfg.uniform, cfg.nineties, cfg.first)
        self.table = C.table(cfg)
        self.ext = C.externals(cfg)
        self.reachc = {}

    def reach(self, name):
        """names of the functions reachable from a function in the static call graph"""
        r = self.reachc.get(name)
        if r is None:
            seen = set()
            f = self.prog.find('@' + name)
            st = [f] if f else []
            ids = set()
            while st:
                f = st.pop()
                if id(f) in ids:
                    continue
                ids.add(id(f))
                for n in f.refs():
                    h = self.prog.func(n, f.mod)
                    if h is not None:
                        seen.add(n[1:])
                        st.append(h)
            r = self.reachc[name] = seen
        return r


class Task:
    __slots__ = ('cid', 'name', 'key', 'alias', 'inline')

    def __init__(self, cid, name, key, alias, inline):
        self.cid, self.name, self.key, self.alias, self.inline = cid, name, key, alias, inline

    def id(self):
        return (self.cid, self.name, self.key, self.alias, self.inline)


class Driver:
    def __init__(self, want, seed=1, deadline=None, unit_limit=420, z3=20):
        self.want = want
        self.seed = seed
        self.ctx = {}
        self.done = {}
        self.t0 = time.time()
        self.deadline = self.t0 + (deadline or 800)
        self.unit_limit = unit_limit
        self.z3 = z3
        self.scratch = tempfile.mkdtemp(prefix='vf.')
        self.stats = {}
        self.lead = {}          # fingerprint -> [(task, unit)] verified in this run
        self.fps = {}
        so = os.path.join(self.scratch, 'ring.so')
        prover.build_ring(so)
        os.environ['VF_RING'] = so

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def load(self, cfgs):
        t = time.time()
        with ThreadPoolExecutor(JOBS) as ex, ThreadPoolExecutor(4) as ex2:
            outs = list(ex2.map(lambda c: build.extract(c, self.scratch, ex), cfgs))
        for c, (d, lls) in zip(cfgs, outs):
            self.ctx[c.id] = Ctx(c, d, lls)
        log('extracted %d configurations in %.1fs' % (len(cfgs), time.time() - t))

    # ---- one unit, in a child process
    def child(self, task):
        c = self.ctx[task.cid]
        f = c.prog.find('@' + task.name)
        opts = {'want': self.want, 'seed': self.seed, 'z3': self.z3, 'split': 4 if c.cfg.family == 'x4' and task.name.startswith('indcpa') else 1}
        P = spec.Recorded(c.P)
        u = unit.verify(c.prog, c.cfg, P, c.table[task.name], f, task.key, task.alias, c.table, task.inline, c.ext, opts)
        u.stats = dict(prover.STATS)
        u.deps = {k: v for k, v in P._r.items() if k != 'tag'}
        # the names of the opaque functions carry the parameter set; with none unfolded the names do not matter
        if 'tag' in P._r and u.stats.get('unfolded'):
            u.deps['*'] = c.P.key()
        return u

    def shared(self, t):
        """the result of an identical instance of another configuration"""
        c = self.ctx[t.cid]
        for lt, u in self.lead.get(self.fp(t), ()):
            if u.skipped or u.deps is None:
                continue
            if all((c.P.key() if k == '*' else getattr(c.P, k)) == v for k, v in u.deps.items()):
                v = copy.copy(u)
                v.cfg = t.cid
                v.stats = {}
                v.same_as = u.cfg
                return v
        return None

    def fp(self, t):
        r = self.fps.get(t.id())
        if r is None:
            r = self.fps[t.id()] = finger.fingerprint(self.ctx[t.cid], t) or repr(t.id())
        return r

    def run(self, tasks, new):
        """run tasks (and those new(unit) returns) in forked children; fills self.done"""
        queue = []
        seen = set()

        def push(ts):
            for t in ts:
                if t.id() not in seen:
                    seen.add(t.id())
                    if t.id() in self.done:
                        push(new(t, self.done[t.id()]))
                    else:
                        queue.append(t)
        push(tasks)
        running = {}
        waiting = []
        while queue or running:
            while queue and len(running) < JOBS:
                queue.sort(key=lambda t: -weight(t))
                t = queue.pop(0)
                u = self.shared(t)
                if u is not None:
                    self.finish(t, u, 0)
                    push(new(t, u))
                    continue
                if self.fp(t) in [self.fp(x[0]) for x in running.values()]:
                    waiting.append(t)
                    continue
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        os.close(r)
                        signal.signal(signal.SIGINT, signal.SIG_DFL)
                        try:
                            u = self.child(t)
                        except MemoryError:
                            u = unit.Unit(t.cid, t.name, t.key, t.alias)
                            u.status, u.error = 'unsupported', 'out of memory'
                        except RecursionError as e:
                            u = unit.Unit(t.cid, t.name, t.key, t.alias)
                            u.status, u.error = 'unsupported', 'recursion'
                        except Exception as e:
                            u = unit.Unit(t.cid, t.name, t.key, t.alias)
                            u.status, u.error = 'unsupported', 'internal: ' + traceback.format_exc()[-1500:]
                        with os.fdopen(w, 'wb') as g:
                            pickle.dump(u, g)
                    except BaseException:
                        code = 1
                    os._exit(code)
                try:
                    os.setpgid(pid, pid)
                except OSError:
                    pass
                os.close(w)
                running[r] = (t, pid, time.time(), bytearray())
            if not running:
                continue
            now = time.time()
            rs, _, _ = select.select(list(running), [], [], 1.0)
            for r in rs:
                t, pid, st, buf = running[r]
                data = os.read(r, 1 << 20)
                if data:
                    buf.extend(data)
                    continue
                os.close(r)
                del running[r]
                os.waitpid(pid, 0)
                try:
                    u = pickle.loads(bytes(buf))
                except Exception:
                    u = unit.Unit(t.cid, t.name, t.key, t.alias)
                    u.status, u.error = 'unsupported', 'the verifier process ended early (memory?)'
                self.finish(t, u, now - st)
                self.lead.setdefault(self.fp(t), []).append((t, u))
                queue += waiting
                waiting = []
                push(new(t, u))
            for r in list(running):
                t, pid, st, buf = running[r]
                lim = min(st + self.unit_limit, self.deadline)
                if now > lim:
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del running[r]
                    u = unit.Unit(t.cid, t.name, t.key, t.alias)
                    u.status, u.error = 'timeout', 'no answer in %d s' % (now - st)
                    self.finish(t, u, now - st)
                    queue += waiting
                    waiting = []
                    push(new(t, u))
            if now > self.deadline and queue:
                for t in queue:
                    u = unit.Unit(t.cid, t.name, t.key, t.alias)
                    u.status, u.error = 'timeout', 'not started before the deadline'
                    self.finish(t, u, 0)
                queue = []

    def finish(self, t, u, dt):
        u.inline = t.inline
        u.wall = dt
        self.done[t.id()] = u
        for k, v in getattr(u, 'stats', {}).items():
            self.stats[k] = self.stats.get(k, 0) + v
        if u.status != 'ok' or dt > 20 or os.environ.get('VF_VERBOSE'):
            log('%7.1fs %s %s %.1fs%s%s' % (time.time() - self.t0, u.label(), u.status, dt, ' inline ' + ','.join(t.inline) if t.inline else '', ' ' + u.error[-300:] if u.error else ''))
            for x in u.fail[:3]:
                log('          %s %s %s %s' % (x['kind'], x['label'], x.get('status'), x['detail'][:300]))

    def mk(self, cid, name, key, alias, inline):
        c = self.ctx[cid]
        r = c.reach(name)
        return Task(cid, name, key, alias, tuple(sorted(n for n in inline if n in r)))

    def closure(self, roots, inline):
        """roots: (cid, name, key); inline: {cid: set of names}.  -> tasks of the closure"""
        used = {}

        def new(t, u):
            used[t.id()] = t
            return [self.mk(t.cid, n, k, a, inline.get(t.cid, ())) for (n, k, a) in u.instances]
        ts = [self.mk(cid, n, k, (), inline.get(cid, ())) for cid, n, k in roots]
        self.run(ts, new)
        # reachable from the roots only
        out = {}
        st = ts[:]
        while st:
            t = st.pop()
            if t.id() in out or t.id() not in self.done:
                continue
            out[t.id()] = t
            u = self.done[t.id()]
            st.extend(self.mk(t.cid, n, k, a, inline.get(t.cid, ())) for (n, k, a) in u.instances)
        return out

    def decide(self, roots, tops, own=False):
        """roots: (cid, name, key) to prove.  tops: {cid: [(name, key)]} the public functions an internal contract
        is escalated to.  -> (list of proved tasks, list of failed tasks)"""
        inline = {}
        kem = lambda t: (t.name, t.key) in tops[t.cid] and t.name.startswith('crypto_kem')
        ownr = set((cid, n) for cid, n, k in roots) if own else set()

        def hard(t):
            """is a failure of this contract a violation by itself?"""
            if 'ct' in self.want or 'safety' in self.want:
                return kem(t)       # callers may supply public data, or buffers with slack
            if self.ctx[t.cid].table[t.name].hard:
                return True
            # a function the property is about, with a concrete input on which it deviates
            return (t.cid, t.name) in ownr and any(x.get('status') == 'cex' for x in self.done[t.id()].fail)
        present = []
        esc = set()
        for cid, n, k in roots:
            c = self.ctx[cid]
            f = c.prog.find('@' + n)
            if f is None or not C.ok_sig(c.table[n], f.ptypes()):
                if c.table[n].hard:
                    present.append((cid, n, k))
                esc.add(cid)
                continue
            present.append((cid, n, k))
        missing = [(cid, n) for cid, n, k in roots if (cid, n, k) not in present]
        roots = present + [(cid, n, k) for cid in esc for n, k in tops[cid]]
        soft_failed = {}
        for rnd in range(12):
            ts = self.closure(roots, inline)
            bad = [t for t in ts.values() if self.done[t.id()].status != 'ok']
            softbad = [t for t in bad if not hard(t)]
            if not softbad:
                break
            if time.time() > self.deadline - 5:
                break
            for t in softbad:
                soft_failed[(t.cid, t.name)] = self.done[t.id()]
                inline.setdefault(t.cid, set()).add(t.name)
                esc.add(t.cid)
            drop = set((t.cid, t.name) for t in softbad)
            roots = [r for r in roots if (r[0], r[1]) not in drop]
            for cid in sorted(esc):
                for n, k in tops[cid]:
                    if (cid, n, k) not in roots:
                        roots.append((cid, n, k))
        good = [t for t in ts.values() if self.done[t.id()].status == 'ok']
        bad = [t for t in ts.values() if self.done[t.id()].status != 'ok']
        return good, bad, soft_failed, missing


HEAVY = {'indcpa_kem_enc': 9, 'indcpa_kem_keypair': 8, 'indcpa_kem_dec': 6, 'poly_mul_acc': 5, 'MatrixVectorMul': 4, 'verify': 3, 'cbd': 3}


def weight(t):
    return HEAVY.get(t.name, 0) + 10 * len(t.inline) + (4 if 'FireSaber' in t.cid else 0)
