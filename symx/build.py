"""Builds /repo's current tree: LLVM IR for the symbolic executor, and native objects for replays."""
import hashlib
import os
import pickle
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from . import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
BUILD = os.environ.get('SYMX_BUILD', os.path.join(VERIF, 'build'))
VENV = '/opt/vp/venv'

EXCL = {'profilers.c', 'profilers_impl.c', 'profilers_itt.c', 'profilers_nvtx.c', 'profilers_omnitrace.c', 'profilers_roctx.c', 'profilers_terminal.c', 'timing_macos.c', 'timing_windows.c', 'interrupt_windows.c', 'interrupt_win.c', 'memory_cuda.c'}

VARIANTS = {
    # the configuration /opt/vp/build.sh builds
    'mkl': dict(algebra='mkl', defs=['OSQP_ALGEBRA_MKL', 'OSQP_ENABLE_PRINTING', 'OSQP_ENABLE_PROFILING', 'OSQP_ENABLE_INTERRUPT', 'OSQP_USE_LONG']),
    'builtin': dict(algebra='builtin', defs=['OSQP_ALGEBRA_BUILTIN', 'OSQP_ENABLE_PRINTING', 'OSQP_ENABLE_PROFILING', 'OSQP_ENABLE_INTERRUPT', 'OSQP_USE_LONG', 'OSQP_CODEGEN', 'OSQP_ENABLE_DERIVATIVES']),
}


def repo_sources(variant):
    out = []
    for f in sorted(os.listdir(REPO + '/src')):
        if f.endswith('.c') and f not in EXCL:
            out.append('src/' + f)
    if variant == 'mkl':
        out = [f for f in out if os.path.basename(f) not in ('codegen.c', 'derivative.c')]
    for root in ('algebra/_common', 'algebra/' + VARIANTS[variant]['algebra']):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            for f in sorted(fs):
                if f.endswith('.c'):
                    out.append(os.path.relpath(os.path.join(d, f), REPO))
    if variant == 'mkl':
        out = [f for f in out if '_common/lin_sys/' not in f]
    return out


def include_flags(variant):
    a = VARIANTS[variant]['algebra']
    incs = [BUILD + '/inc-' + variant, VERIF + '/csrc', REPO + '/include/public', REPO + '/include/private',
            REPO + '/algebra/_common', REPO + '/algebra/' + a]
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'algebra', a))):
        if any(f.endswith('.h') for f in fs) and d not in incs:
            incs.append(d)
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'algebra', '_common'))):
        if any(f.endswith('.h') for f in fs) and d not in incs:
            incs.append(d)
    if a == 'mkl':
        incs.append(VENV + '/include')
    else:
        incs.append(VERIF + '/csrc/qdldl')
    fl = ['-I' + i for i in incs]
    if a == 'mkl':
        fl += ['-DMKL_LINK_SDL=1', '-DMKL_ILP64']
    fl += ['-m64', '-ffp-contract=off', '-fno-builtin', '-Wno-everything', '-DVARIANT_' + variant]
    return fl


def tree_hash():
    h = hashlib.sha256()
    for root in ('include', 'algebra', 'src'):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.c')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    for root in ('csrc', 'harness'):
        for d, ds, fs in sorted(os.walk(os.path.join(VERIF, root))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.h'):
                    h.update(open(os.path.join(d, f), 'rb').read())
    h.update(open(__file__, 'rb').read())
    h.update(open(ir.__file__, 'rb').read())
    return h.hexdigest()


_TH = {}


def hdr_hash():
    if 'h' not in _TH:
        _TH['h'] = tree_hash()
    return _TH['h']


def prepare(variant):
    d = BUILD + '/inc-' + variant
    os.makedirs(d, exist_ok=True)
    txt = '#ifndef OSQP_CONFIGURE_H\n# define OSQP_CONFIGURE_H\n#define IS_LINUX\n'
    for x in VARIANTS[variant]['defs']:
        txt += '#define %s\n' % x
    txt += '#endif\n#ifndef OSQP_VERSION\n#define OSQP_VERSION "0.0.0"\n#endif\n'
    p = d + '/osqp_configure.h'
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(txt)
        os.replace(tmp, p)


def key(path, extra):
    h = hashlib.sha256()
    h.update(open(path, 'rb').read())
    h.update(hdr_hash().encode())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(cmd[-3] + "\n" + (lambda o: o[max(0, o.find("error:") - 120):][:500])(r.stdout))


def ir_one(variant, path, defs=()):
    fl = include_flags(variant) + ['-D' + d for d in defs]
    k = key(path, ('ir', variant, fl, path))
    base = os.path.join(BUILD, 'ir', os.path.basename(path)[:-2] + '-' + k)
    pk = base + '.pkl'
    if os.path.exists(pk):
        try:
            return pickle.load(open(pk, 'rb'))
        except Exception:
            pass
    os.makedirs(os.path.dirname(base), exist_ok=True)
    t = base + '.%d' % os.getpid()
    run(['clang', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone'] + fl + [path, '-o', t + '.ll'])
    run(['opt', '-S', '-passes=sroa,simplifycfg,instsimplify,simplifycfg', t + '.ll', '-o', t + '.o.ll'])
    M = ir.parse_module(open(t + '.o.ll').read(), path)
    sys.setrecursionlimit(100000)
    with open(t + '.pkl', 'wb') as f:
        pickle.dump(M, f)
    os.replace(t + '.pkl', pk)
    os.unlink(t + '.ll')
    os.unlink(t + '.o.ll')
    return M


def load_modules(variant, harness, extra=(), real_timing=False, skip=(), only=None, defs=(), model=True):
    """IR modules for a harness: the library + the environment models + the harness"""
    prepare(variant)
    files = []
    for s in repo_sources(variant):
        b = os.path.basename(s)
        if b == 'timing_linux.c' and not real_timing:
            continue
        if s in skip or b in skip:
            continue
        if only is not None and b not in only:
            continue
        files.append(os.path.join(REPO, s))
    if not real_timing:
        files.append(VERIF + '/csrc/timing_stub.c')
    files.append(VERIF + '/csrc/hooks.c')
    if model:
        files.append(VERIF + '/csrc/sigmodel.c')
    if model:
        files.append(VERIF + ('/csrc/mklmodel.c' if variant == 'mkl' else '/csrc/qdldl/qdldl.c'))
    files += [VERIF + '/' + e for e in extra]
    files.append(VERIF + '/harness/' + harness)
    with ThreadPoolExecutor(8) as ex:
        mods = list(ex.map(lambda f: ir_one(variant, f, defs), files))
    return mods


NATIVE_REN = ['-Dmalloc=symw_malloc', '-Dcalloc=symw_calloc', '-Dfree=symw_free', '-Drealloc=symw_realloc',
              '-DMKL_malloc=symw_mkl_malloc', '-DMKL_calloc=symw_mkl_calloc', '-DMKL_free=symw_mkl_free',
              '-DPARDISO=sym_PARDISO']


def obj_one(variant, path, san, ren, defs=()):
    fl = include_flags(variant) + ['-O1', '-g', '-fno-omit-frame-pointer'] + ['-D' + d for d in defs]
    fl = [f for f in fl if f != '-fno-builtin']
    if san:
        fl += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow,function']
    if ren:
        fl += NATIVE_REN
    k = key(path, ('obj', variant, fl, path))
    o = os.path.join(BUILD, 'obj', os.path.basename(path)[:-2] + '-' + k + '.o')
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        t = o + '.%d.o' % os.getpid()
        run(['clang', '-c'] + fl + [path, '-o', t])
        os.replace(t, o)
    return o


def native(variant, harness, extra=(), real_timing=False, san=True, skip=(), defs=()):
    prepare(variant)
    jobs = []
    for s in repo_sources(variant):
        b = os.path.basename(s)
        if b == 'timing_linux.c' and not real_timing:
            continue
        if s in skip or b in skip:
            continue
        jobs.append((os.path.join(REPO, s), True))
    if not real_timing:
        jobs.append((VERIF + '/csrc/timing_stub.c', True))
    jobs.append((VERIF + '/csrc/hooks.c', False))
    if variant == 'mkl':
        jobs.append((VERIF + '/csrc/pardiso_native.c', False))
    else:
        jobs.append((VERIF + '/csrc/qdldl/qdldl.c', False))
    jobs.append((VERIF + '/csrc/sym_native.c', False))
    for e in extra:
        jobs.append((VERIF + '/' + e, True))
    jobs.append((VERIF + '/harness/' + harness, True))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: obj_one(variant, j[0], san, j[1], defs), jobs))
    h = hashlib.sha256(repr(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, 'bin', harness[:-2] + '-' + variant + '-' + h)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        t = exe + '.%d' % os.getpid()
        cmd = ['clang', '-o', t] + objs
        if san:
            cmd += ['-fsanitize=address,undefined']
        if variant == 'mkl':
            cmd += [VENV + '/lib/libmkl_rt.so.2', '-Wl,-rpath,' + VENV + '/lib']
        cmd += ['-lm', '-ldl', '-lpthread', '-lrt']
        run(cmd)
        os.replace(t, exe)
    return exe
