"""Maintenance helper (not used by any check): seed.py make ID... writes seeded/ID/patch.diff from tools/seeds.py;
seed.py test ID... confirms in scratch copies that the patch builds, passes the stable tests, and that the demonstration
separates it; seed.py check ID... runs the property's check with the patch.  Uses user-namespace bind mounts, /repo is untouched."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, 'seeded')
sys.path.insert(0, os.path.join(ROOT, 'tools'))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(i):
    import seeds
    b = seeds.SEEDS[i]
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='sd.')
    sh('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm a' % (w, w))
    for f, old, new in b['edits']:
        p = os.path.join(w, f)
        t = open(p, encoding='utf-8', errors='surrogateescape', newline='').read()
        o2 = old.replace('\n', '\r\n') if '\r\n' in t and old not in t else old
        n2 = new.replace('\n', '\r\n') if o2 != old else new
        assert t.count(o2) == 1, (i, f, t.count(o2), old)
        open(p, 'w', encoding='utf-8', errors='surrogateescape', newline='').write(t.replace(o2, n2))
    r = subprocess.run(['git', '-C', w, 'diff', '--binary'], stdout=subprocess.PIPE)
    open(os.path.join(d, 'patch.diff'), 'wb').write(r.stdout)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write(seeds.DEMO[b['impl']].replace('@ARGS@', b.get('args', '')).replace('@CF@', b.get('cf', '')).replace('@RUN@', b.get('run', '"$d/demo"')))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.c'), 'w').write(b['demo'])
    if b['impl'] == 'm4':
        h = os.path.join(d, 'host')
        shutil.rmtree(h, ignore_errors=True)
        os.makedirs(h)
        for x in ('host/m4_host.c', 'pqm4/fips202.h', 'pqm4/randombytes.h'):
            shutil.copy(os.path.join(ROOT, 'vf', 'stubs', x), h)
    if b['impl'] == 'm0':
        h = os.path.join(d, 'host')
        shutil.rmtree(h, ignore_errors=True)
        os.makedirs(h)
        shutil.copy(os.path.join(ROOT, 'vf', 'stubs', 'host', 'm0_host.c'), h)
    shutil.rmtree(w)


def copy(i, patched):
    w = tempfile.mkdtemp(prefix='sd.')
    sh('cp -a %s %s/r' % (os.environ.get('SEED_BASE', '/repo'), w))
    if patched:
        r = sh('git -C %s/r apply %s/%s/patch.diff' % (w, S, i))
        assert r.returncode == 0, r.stdout
    return w


def inside(w, cmd):
    return sh("unshare -Urm bash -c 'mount --bind %s/r /repo && cd /repo && %s'" % (w, cmd))


def test(i):
    out = []
    for patched in (False, True):
        w = copy(i, patched)
        dd = os.path.join(w, 'demo')
        shutil.copytree(os.path.join(S, i), dd)
        r = inside(w, 'bash /opt/vp/build.sh >/dev/null 2>&1; echo build $?; bash %s/demo.sh; echo demo $?' % dd)
        o = r.stdout.decode(errors='replace')
        out.append((patched, o[-600:]))
        if patched and '--notest' not in sys.argv:
            r = inside(w, 'bash /opt/vp/test.sh %s/out.json >/dev/null 2>&1' % w)
            j = json.load(open(w + '/out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            st = set(base)
            passed = j.get('passed') or []
            out.append(('stable tests failing with patch', sorted(st - set(passed))[:5]))
        shutil.rmtree(w)
    return i, out


def check(i, prop=None):
    p = prop or json.load(open(os.path.join(S, i, 'meta.json')))['property']
    w = copy(i, True)
    v = tempfile.mkdtemp(prefix='sv.')
    sh('cp -a %s/. %s/v' % (ROOT, v))
    env = dict(os.environ, VF_REPO=w + '/r', VERIF_SEED='1', VERIF_TIER='quick')
    r = subprocess.run(['python3-vt', 'vf/check.py', p], cwd=v + '/v', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(w)
    shutil.rmtree(v)
    o = r.stdout.decode(errors='replace')
    return i, p, r.returncode, '\n'.join(o.splitlines()[-45:]) if '-v' in sys.argv else [l for l in o.splitlines() if l.startswith('VIOLATION')] + o.splitlines()[-1:]


if __name__ == '__main__':
    ids = [x for x in sys.argv[2:] if not x.startswith('-')]
    if not ids:
        import seeds
        ids = sorted(seeds.SEEDS)
    if sys.argv[1] == 'make':
        for i in ids:
            make(i)
    elif sys.argv[1] == 'test':
        with ThreadPoolExecutor(4) as ex:
            for i, o in ex.map(test, ids):
                print(i)
                for x in o:
                    print('   ', x, flush=True)
    else:
        for i in ids:
            prop = None
            if ':' in i:
                i, prop = i.split(':')
            r = check(i, prop)
            print(*r[:3])
            print(r[3], flush=True)
