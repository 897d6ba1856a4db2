"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree.
exit 0: every obligation discharged; exit 1 and a VIOLATION line: one failed."""
import argparse
import json
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build
import contracts as C
import spec
import replay as R
import selftest
from driver import Driver, Task, log
from props import PROPS, TOPS

ROOT = os.path.dirname(HERE)

TRUSTED = [
    'clang-18 front end (C to LLVM IR at -O1 -disable-llvm-passes) and opt-18 always-inline; the shipped compiler is gcc',
    'vf/ir.py, vf/symex.py: IR parser and symbolic executor (semantics of the IR and of the x86 vector intrinsics)',
    'vf/terms.py normal forms, vf/ring.cpp (polynomials modulo 2^k), truth tables, z3 4.x python binding',
    'vf/spec.py: the specification (validated on every run against published test vectors)',
]


def findings():
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('known', [])


NATIVE = ('ref', 'uref', 'avx', 'uavx', 'x4', 'rng', 'm4', 'm0')     # configurations whose C code is also compiled natively to replay


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    prop = PROPS[a.property]
    selftest.run(full=True)
    D = Driver(prop.want, seed=seed, deadline=720 if tier == 'quick' else 5400, unit_limit=420 if tier == 'quick' else 1800,
               z3=20 if tier == 'quick' else 120)
    try:
        return run(a, prop, D, tier, seed, t0)
    finally:
        D.close()


def run(a, prop, D, tier, seed, t0):
    cfgs = [c for c in build.configurations() if prop.covers(c) and a.only in c.id]
    try:
        D.load(cfgs)
    except build.ExtractionError as e:
        return undecided(a.property, 'extraction: every translation unit of every configuration is translated', str(e))
    roots = []
    tops = {}
    for c in cfgs:
        P = D.ctx[c.id].P
        for n, k in prop.roots(c, P):
            roots.append((c.id, n, k))
        tops[c.id] = TOPS(c, P, prop.want)
    lem = None
    if prop.lemmas:
        import lemmas
        import multiprocessing
        pool = multiprocessing.get_context('fork').Pool(1)
        lem = pool.apply_async(lemmas.run, ([P.key() for P in dict.fromkeys(D.ctx[c.id].P for c in cfgs)],))
    good, bad, soft, missing = D.decide(roots, tops, prop.own)
    if lem is not None:
        lem = lem.get()
        pool.terminate()
        left = [x for x in lem if x[2] != 'proved']
        if left:
            raise Exception('lemma over the specification left open: %r' % left[:3])
    known = findings()
    viol = []
    bounded = []
    kf = []
    for t in sorted(bad, key=lambda t: (t.name.startswith('crypto'), t.name, t.cid)):
        u = D.done[t.id()]
        fails = [x for x in u.fail if prop.relevant(x)]
        if u.status == 'fail':
            if not fails:
                bounded.append((t, u, 'stopped at an obligation of another property: ' + u.fail[0]['label']))
                continue
            k = [x for x in known if x['property'] == a.property and match(x, t, fails)]
            if k:
                kf.append((t, k[0]))
                continue
            viol.append((t, u, fails))
        else:
            bounded.append((t, u, u.status + ': ' + (u.error or '')))
    # functions outside the verifier's reach: bounded stand-in on the compiled code
    stand = []
    for t, u, why in bounded:
        if u.status == 'fail':
            continue
        if time.time() - t0 > (790 if tier == 'quick' else 6000):
            stand.append({'function': u.label(), 'why': why[:600], 'bounded_check': 'not reached in the time of this run: neither proved nor sampled'})
            continue
        ok, text, env = stand_in(D, t, seed, 128 if tier == 'quick' else 1024)
        stand.append({'function': u.label(), 'why': why[:600], 'bounded_check': text})
        sf = [x for (cid, n), x in soft.items() if cid == t.cid and any(prop.relevant(y) and y.get('status') in ('cex', 'definite') or y.get('definite') for y in x.fail)]
        if ok and sf:
            # undecided here, but a contract below is violated
            x = sf[0]
            viol.append((Task(t.cid, x.name, x.key, x.alias, x.inline), x, [y for y in x.fail if prop.relevant(y)]))
        if not ok:
            viol.append((t, u, [{'kind': 'post', 'label': 'bounded check', 'detail': text, 'env': env, 'status': 'cex'}]))
    for t, k in kf:
        print('KNOWN-FINDING: property=%s %s' % (a.property, k['what']))
    rc = 0
    out = []
    if viol:
        rc = 1
        out = report(a.property, D, viol, soft)
    evidence(a.property, prop, D, tier, seed, t0, good, bad, soft, missing, stand, viol, kf, cfgs, lem)
    nob = sum(nobl(D.done[t.id()]) for t in good)
    if rc == 0 and not good:
        return undecided(a.property, 'coverage: at least one contract is discharged', 'no obligation was generated: ' + json.dumps([(u.label(), w[:300]) for t, u, w in bounded][:20]))
    log('%s: %d contract instances proved, %d obligations, %.1fs' % (a.property, len(good), nob, time.time() - t0))
    for l in out:
        print(l)
    return rc


def undecided(pid, obligation, text):
    """nothing could be proved: reported as a failed obligation without an input"""
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + '.json')
    with open(p, 'w') as f:
        json.dump({'property': pid, 'obligation': obligation, 'verifier_output': text, 'confirmed': False}, f, indent=1)
    print(text, file=sys.stderr)
    print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    return 1


def match(k, t, fails):
    return k.get('configuration') in (None, t.cid) and k['function'] == t.name and all(any(s in x['label'] + ' ' + x['detail'] for s in k['obligations']) for x in fails)


def nobl(u):
    return len(u.post) + sum(u.counts.values()) + len(u.safety)


def stand_in(D, t, seed, rounds):
    import random
    c = D.ctx[t.cid]
    con = c.table[t.name]
    f = c.prog.find('@' + t.name)
    if f is None or c.cfg.family not in NATIVE or f.__class__.__name__ == 'AsmFn' or not C.ok_sig(con, f.ptypes()) or any(isinstance(k, C.Globals) for k in t.key):
        return True, 'not run (no native build of this function)', {}
    rng = random.Random(seed)
    env, text = R.search(c.cfg, c.P, con, f, t.key, t.alias, R.structured(con, c.P, t.key, rng, rounds))
    if env is not None:
        return False, text, env[-1]
    return True, 'bounded: ' + text, {}


def report(pid, D, viol, soft):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    lines = []
    done = []
    tries = 0
    best = None
    for t, u, fails in viol:
        c = D.ctx[t.cid]
        con = c.table[t.name]
        f = c.prog.find('@' + t.name)
        # definite ones first
        fails = sorted(fails, key=lambda x: {'cex': 0, 'definite': 1}.get(x.get('status'), 1 if x.get('definite') else 2))
        rec = {'property': pid, 'configuration': t.cid, 'function': t.name, 'sizes': list(t.key), 'aliasing': [list(g) for g in t.alias],
               'inlined': list(t.inline), 'kind': fails[0]['kind'], 'obligation': '%s: %s: %s' % (u.label(), fails[0]['kind'], fails[0]['label']),
               'verifier_output': fails[0]['detail'], 'failed_obligations': len(fails),
               'others': ['%s: %s (%s)' % (x['kind'], x['label'], x['detail'][:200]) for x in fails[1:20]],
               'input': {k: hex(v) for k, v in (fails[0].get('env') or {}).items()}, 'confirmed': False}
        if tries < 4 and not (best and best['confirmed']) and fails[0]['kind'] != 'ct' and c.cfg.family in NATIVE and f is not None and not any(isinstance(k, C.Globals) for k in t.key):
            tries += 1
            env = fails[0].get('env') or {}
            try:
                ok, text = R.replay(c.cfg, c.P, con, f, t.key, t.alias, env, fails[0]['kind'], (), c.prog)
            except Exception as e:
                ok, text = False, 'replay failed: %r' % e
            if not ok and fails[0]['kind'] == 'post' and f.__class__.__name__ != 'AsmFn':
                # left open by the solvers, or it needs a history: guided search on the compiled code
                import random
                try:
                    e2, t2 = R.search(c.cfg, c.P, con, f, t.key, t.alias, R.structured(con, c.P, t.key, random.Random(1), 256))
                except Exception as e:
                    e2, t2 = None, 'search failed: %r' % e
                text += '; guided search: ' + t2
                if e2 is not None:
                    ok = True
                    rec['input'] = {k: hex(v) for k, v in e2[-1].items()}
                    if len(e2) > 1:
                        rec['preceding_inputs'] = [{k: hex(v) for k, v in e.items()} for e in e2[:-1]]
            rec['confirmed'] = ok
            rec['replay_on_real_code'] = text
        elif fails[0]['kind'] == 'ct' and fails[0].get('pair'):
            rec['confirmed'] = True
            rec['replay_on_real_code'] = 'two inputs that differ in secret data only give different values of the leaking expression: ' + fails[0]['pair']
        done.append(rec)
        if best is None or rec['confirmed'] and not best['confirmed']:
            best = rec
    best['also'] = [r['obligation'] for r in done if r is not best][:60]
    best['internal_contracts_that_failed_first'] = ['%s: %s' % (u.label(), (u.fail[0]['label'] + ': ' + u.fail[0]['detail'][:300]) if u.fail else u.error) for u in list(soft.values())[:20]]
    best['rerun'] = 'cd /verif && python3-vt vf/replay.py evidence/replay/%s.json' % pid
    p = os.path.join(d, pid + '.json')
    with open(p, 'w') as f:
        json.dump(best, f, indent=1)
    log(json.dumps({k: v for k, v in best.items() if k not in ('input',)}, indent=1)[:3000])
    lines.append('VIOLATION property=%s replay=%s%s' % (pid, p, '' if best['confirmed'] else ' no-failing-input-found'))
    return lines


def evidence(pid, prop, D, tier, seed, t0, good, bad, soft, missing, stand, viol, kf, cfgs, lem=None):
    post = {}
    kinds = {}
    funcs = {}
    zs = 0
    assumed = set()
    per = {}
    for t in good + bad:
        u = D.done[t.id()]
        for l, st, me in u.post:
            if st == 'proved':
                post[me] = post.get(me, 0) + 1
        for k, v in u.counts.items():
            kinds[k] = kinds.get(k, 0) + v
        for s in u.safety:
            if s[1] == 'proved':
                kinds['z3:' + s[0]] = kinds.get('z3:' + s[0], 0) + 1
        assumed |= set(u.assumed)
        funcs.setdefault(t.cid, set()).add(t.name)
    ob = sum(nobl(D.done[t.id()]) for t in good) + sum(max(nobl(D.done[t.id()]), 1) for t in bad)
    nb = sum(max(len(D.done[t.id()].fail), 1) for t in bad)
    slow = sorted(((round(D.done[t.id()].wall, 1), D.done[t.id()].label()) for t in good), reverse=True)[:8]
    cov = {
        'obligations': ob, 'discharged': ob - nb,
        'checker_cmd': 'python3-vt vf/check.py %s --tier %s' % (pid, tier),
        'trusted_base': TRUSTED,
        'facet': list(prop.want),
        'configurations': [c.id for c in cfgs],
        'contract_instances_proved': len(good),
        'of_which_identical_to_one_of_another_configuration': sum(1 for t in good if D.done[t.id()].same_as),
        'functions_under_contract': {k: sorted(v) for k, v in sorted(funcs.items())},
        'postconditions_by_back_end': post,
        'obligations_settled_during_execution': kinds,
        'solver_seconds': {k: round(v, 2) for k, v in D.stats.items() if k.endswith('_s')},
        'back_end_counts': {k: v for k, v in D.stats.items() if not k.endswith('_s')},
        'slowest': slow,
        'internal_contracts_discharged_by_inlining': sorted('%s %s' % k for k in soft),
        'roots_missing_and_replaced_by_their_callers': sorted('%s %s' % k for k in missing),
        'bounded_stand_ins': stand,
    }
    if lem is not None:
        d = {}
        for _, l, _, me in lem:
            k = l.split(':')[0]
            d.setdefault(k, {})
            d[k][me] = d[k].get(me, 0) + 1
        cov['lemmas_over_the_contracts'] = d
        cov['obligations'] += len(lem)
        cov['discharged'] += len(lem)
    ass = ['external function assumed: ' + x for x in sorted(assumed)] + prop.assumptions
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level, 'coverage': cov, 'assumptions': ass,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol), 'known_findings': [k['what'] for t, k in kf]}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
