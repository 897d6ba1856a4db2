"""one.py CONFIG FUNCTION [sizes...] [--want post,safety,ct] [--inline a,b] : verifies one contract instance (development)"""
import sys, os, time, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vf'))
sys.setrecursionlimit(20000)
import build, prover, spec, unit
from driver import Ctx
import tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('cfg'); ap.add_argument('fn'); ap.add_argument('key', nargs='*')
ap.add_argument('--want', default='post'); ap.add_argument('--inline', default=''); ap.add_argument('--alias', default=''); ap.add_argument('--prof', action='store_true')
a = ap.parse_args()
d = tempfile.mkdtemp(prefix='vf.')
try:
    c = [c for c in build.configurations() if c.id == a.cfg][0]
    with ThreadPoolExecutor(8) as ex:
        dd, lls = build.extract(c, d, ex)
    X = Ctx(c, dd, lls)
    prover.build_ring(d + '/ring.so'); os.environ['VF_RING'] = d + '/ring.so'
    key = tuple(int(k) if k.isdigit() else k for k in a.key)
    t = time.time()
    def go():
        alias = tuple(tuple(g.split('=')) for g in a.alias.split(',') if g)
        return unit.verify(X.prog, c, X.P, X.table[a.fn], X.prog.find('@' + a.fn), key, alias, X.table, tuple(x for x in a.inline.split(',') if x), X.ext, {'want': a.want.split(','), 'seed': 1, 'z3': 20})
    if a.prof:
        import cProfile, pstats
        pr = cProfile.Profile(); u = pr.runcall(go); pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
    else:
        u = go()
    print(u.label(), u.status, '%.1fs' % (time.time() - t), u.time, u.error, prover.STATS)
    print('instances', list(u.instances), 'skipped', getattr(u, 'skipped', None), 'counts', u.counts)
    m = {}
    for l, st, me in u.post: m[(st, me)] = m.get((st, me), 0) + 1
    print(m)
    for f in u.fail[:6]: print(f['kind'], f['label'], f.get('status'), f['detail'][:600])
finally:
    shutil.rmtree(d)
