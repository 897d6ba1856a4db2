"""Extraction: the configurations of the repository and their LLVM IR, made from /repo's working tree.

Each implementation chooses its parameter set by #define lines.  A configuration is a scratch copy of
the implementation directory with exactly those lines set; every translation unit is compiled with
clang-18 (front end only: no optimisation pass runs except always-inline, which expands the vector
intrinsics) and the IR is what the verifier reads."""
import os
import re
import shutil
import subprocess
import arm
import ir
import symex
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = 'clang-18'
OPT = 'opt-18'


class ExtractionError(Exception):
    pass


def choose(text, macro, value):
    found = 0

    def line(m):
        nonlocal found
        on = m.group(2) == value
        found += on
        return ("" if on else "// ") + "#define " + macro + " " + m.group(2) + m.group(3)
    text = re.sub(r"^[ \t]*(//[ \t]*)?#define[ \t]+%s[ \t]+(\w+)(.*)$" % macro, line, text, flags=re.M)
    if found != 1:
        raise ExtractionError("expected one '#define %s %s' line, found %d" % (macro, value, found))
    return text


def switch(text, macro, on):
    text, n = re.subn(r"^[ \t]*(?://[ \t]*)?#define[ \t]+%s[ \t]*$" % macro,
                      ("" if on else "// ") + "#define " + macro, text, flags=re.M)
    if n != 1:
        raise ExtractionError("expected one '#define %s' line, found %d" % (macro, n))
    return text


LEVELS = {'LightSaber': 2, 'Saber': 3, 'FireSaber': 4}
AVXFLAGS = ['-mavx2', '-maes', '-mbmi2', '-mpclmul', '-msse4.1', '-mssse3']


class Config:
    def __init__(self, ident, src, edits, family, k, eq=13, nineties=False, uniform=False, flags=(), lang='x86', only=None, ghost=()):
        self.id = ident
        self.src = src
        self.edits = edits
        self.family = family        # ref | uref | avx | uavx | x4 | m0 | m4s | m4t
        self.k = k
        self.eq = eq
        self.nineties = nineties
        self.uniform = uniform
        self.first = family == 'm0'     # the parameter set as first submitted
        self.flags = list(flags)
        self.lang = lang
        self.only = only            # source files to take (None: all)
        self.ghost = list(ghost)    # files of vf/ghost compiled with them; left out if they do not compile

    def __repr__(self):
        return self.id


def configurations():
    out = []
    for name, k in LEVELS.items():
        out.append(Config('Reference/' + name, 'Reference_Implementation_KEM',
                          {'SABER_params.h': [(choose, 'SABER_L', str(k))]}, 'ref', k))
        out.append(Config('AVX/' + name, 'AVX_Implementation_KEM',
                          {'api.h': [(choose, 'SABER_TYPE', name)]}, 'avx', k, flags=AVXFLAGS))
        for n in (False, True):
            alg = name + ('-90s' if n else '')
            out.append(Config('uSaber-90s-avx2/' + alg, 'Variants/uSaber-90s/avx2',
                              {'api.h': [(choose, 'SABER_TYPE', name)], 'SABER_params.h': [(switch, 'Saber90s', n)]},
                              'uavx', k, nineties=n, flags=AVXFLAGS + ['-fcommon']))
            for u in (False, True):
                out.append(Config('uSaber-90s-ref/' + ('u' if u else '') + alg, 'Variants/uSaber-90s/ref',
                                  {'SABER_params.h': [(choose, 'SABER_L', str(k)), (switch, 'uSaber', u), (switch, 'Saber90s', n)]},
                                  'uref', k, eq=12 if u else 13, nineties=n, uniform=u))
    out.append(Config('SaberX4-avx2/Saber', 'Variants/SaberX4_avx2', {}, 'x4', 3, flags=AVXFLAGS + ['-fcommon']))
    for name, src in (('Reference', 'Reference_Implementation_KEM'), ('AVX', 'AVX_Implementation_KEM'), ('uSaber-90s-ref', 'Variants/uSaber-90s/ref'),
                      ('uSaber-90s-avx2', 'Variants/uSaber-90s/avx2'), ('SaberX4-avx2', 'Variants/SaberX4_avx2')):
        out.append(Config(name + '/rng', src, {}, 'rng', 3, only=['rng.c'],
                          ghost=['vf_rng_public.c', 'vf_rng_state.c', 'vf_rng_hist.c', 'vf_rng_expander.c'] + (['vf_rng_x4.c'] if 'X4' in name else [])))
    out.append(Config('Cortex-M0/Saber', 'Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem', {}, 'm0', 3, lang='arm'))
    for name, k in LEVELS.items():
        for v in ('striding', 'tc4kara'):
            out.append(Config('Cortex-M4-%s/%s' % (v, name),
                              'Cortex-M_Implementation_KEM/Cortex-M4/src/%s/m4-%s' % (name.lower(), v), {}, 'm4', k, lang='arm'))
    return out


SKIP_DIRS = {'test', 'obj', '.git', 'polymul'}
SKIP_SUFFIX = ('.o', '.a', '.d', '.elf', '.bin', '.hex', '.map', '.lst', '.req', '.rsp', '.pyc')


def prepare(cfg, dest):
    """scratch copy of the implementation with its parameter lines set"""
    root = os.path.join(REPO, cfg.src)
    if not os.path.isdir(root):
        raise ExtractionError(root + ' is missing')
    for base, dirs, names in os.walk(root):
        rel = os.path.relpath(base, root)
        os.makedirs(os.path.join(dest, rel), exist_ok=True)
        for n in names:
            p = os.path.join(base, n)
            if n.startswith('._') or n.endswith(SKIP_SUFFIX) or not os.path.isfile(p) or os.path.getsize(p) > 4 << 20:
                continue
            with open(p, 'rb') as f:
                data = f.read()
            r = os.path.normpath(os.path.join(rel, n))
            if r in cfg.edits:
                text = data.decode('utf-8', 'surrogateescape')
                for fn, *args in cfg.edits[r]:
                    text = fn(text, *args)
                data = text.encode('utf-8', 'surrogateescape')
            with open(os.path.join(dest, rel, n), 'wb') as f:
                f.write(data)
    for g in cfg.ghost:
        shutil.copy(os.path.join(HERE, 'ghost', g), dest)


def sources(cfg, dest):
    """the translation units of the implementation (test drivers excluded)"""
    if cfg.only is not None:
        return sorted([s for s in cfg.only if os.path.exists(os.path.join(dest, s))] + [g for g in cfg.ghost if os.path.exists(os.path.join(dest, g))])
    out = []
    for base, dirs, names in os.walk(dest):
        dirs[:] = [d for d in dirs if d not in SKIP_DIRS]
        rel = os.path.relpath(base, dest)
        for n in names:
            if n.endswith('.c') or cfg.family == 'm4' and n.endswith(('.s', '.S')):
                out.append(os.path.normpath(os.path.join(rel, n)))
    if cfg.family == 'm0':
        out = [s for s in out if os.path.basename(s) not in ('main.c', 'benchmark.c', 'uart.c', 'init.c', 'prng.c')]
    return sorted(out)


def compile_ll(cfg, dest, src):
    o = os.path.join(dest, src[:-2].replace('/', '_') + '.ll')
    flags = list(cfg.flags)
    if cfg.lang == 'arm':
        flags += ['--target=armv7em-none-eabi' if cfg.family.startswith('m4') else '--target=armv6m-none-eabi',
                  '-mfloat-abi=soft', '-isystem', os.path.join(HERE, 'stubs', 'libc'), '-ffreestanding', '-fno-builtin']
        if cfg.family == 'm0':
            flags += ['-I', os.path.join(dest, 'include'), '-Wno-error=implicit-function-declaration']
        if cfg.family == 'm4':
            flags += ['-I', os.path.join(HERE, 'stubs', 'pqm4')]
    else:
        flags += ['-fno-builtin']
    cmd = [CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-gline-tables-only', '-w', '-S', '-emit-llvm',
           '-I', dest] + flags + ['-o', '-', os.path.join(dest, src)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise ExtractionError('%s: %s does not compile: %s' % (cfg.id, src, r.stderr.decode(errors='replace')[:2000]))
    r2 = subprocess.run([OPT, '-S', '-passes=always-inline', '-o', '-'], input=r.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r2.returncode:
        raise ExtractionError('opt: ' + r2.stderr.decode(errors='replace')[:2000])
    return r2.stdout.decode('utf-8', 'replace')


def extract(cfg, scratch, pool=None):
    """-> (dir, {source: ir text})"""
    dest = os.path.join(scratch, re.sub(r'[^A-Za-z0-9]', '_', cfg.id))
    if os.path.isdir(dest):
        shutil.rmtree(dest)
    os.makedirs(dest)
    prepare(cfg, dest)
    srcs = sources(cfg, dest)
    ex = pool or ThreadPoolExecutor(8)

    def one(s):
        try:
            if not s.endswith('.c'):
                return arm.assemble(cfg, dest, s, 'cortex-m4')
            return compile_ll(cfg, dest, s)
        except ExtractionError:
            if s in cfg.ghost:
                os.remove(os.path.join(dest, s))
                return None
            raise
    res = list(ex.map(one, srcs))
    return dest, {s: r for s, r in zip(srcs, res) if r is not None}


def program(cfg, lls):
    """the linked program of a configuration"""
    prog = symex.Program([ir.parse(x, cfg.src + '/' + s) if x.__class__ is str else arm.AsmMod(cfg.src + '/' + s, *x) for s, x in lls.items()])
    arm.link(prog, prog.mods)
    return prog
