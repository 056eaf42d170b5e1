"""Builds the simulator with the library's sources from /repo's working tree, one executable per variant."""
import hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VARIANTS = {'kd': ('KISS', 0), 'ks': ('KISS', 1), 'wd': ('FFTW3', 0), 'ws': ('FFTW3', 1), 'md': ('MKL', 0), 'vs': ('FFTW2', 1)}
STANDIN = ('md', 'vs')                                # with a stand-in for a 1d library that is not installed
ASAN = ['-fsanitize=address', '-fsanitize-recover=address']
REDIR = {
    'malloc': 'sim_malloc', 'free': 'sim_free', 'calloc': 'sim_calloc', 'realloc': 'sim_realloc',
    'reallocarray': 'sim_reallocarray', 'aligned_alloc': 'sim_aligned_alloc', 'memalign': 'sim_memalign',
    'posix_memalign': 'sim_posix_memalign', 'strdup': 'sim_strdup', 'exit': 'sim_exit', '_exit': 'sim_exit1',
    'quick_exit': 'sim_exit2', 'abort': 'sim_abort',
    '_Znwm': 'sim_new', '_Znam': 'sim_newa', '_ZnwmRKSt9nothrow_t': 'sim_new_nt', '_ZnamRKSt9nothrow_t': 'sim_newa_nt',
    '_ZnwmSt11align_val_t': 'sim_new_al', '_ZnamSt11align_val_t': 'sim_newa_al',
    '_ZdlPv': 'sim_delete', '_ZdaPv': 'sim_deletea', '_ZdlPvm': 'sim_delete_sz', '_ZdaPvm': 'sim_deletea_sz',
    '_ZdlPvSt11align_val_t': 'sim_delete_al', '_ZdaPvSt11align_val_t': 'sim_deletea_al',
    '_ZdlPvmSt11align_val_t': 'sim_delete_sz_al', '_ZdaPvmSt11align_val_t': 'sim_deletea_sz_al',
}
for p in ('fftw', 'fftwf'):
    for f in ('plan_many_dft', 'plan_dft_1d', 'plan_dft', 'destroy_plan'):
        REDIR['%s_%s' % (p, f)] = 'sim_%s_%s' % (p, f)


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in (SRC, os.path.join(VERIF, 'sim'), os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'tools'), os.path.join(VERIF, 'fft1d')):
        for n in sorted(os.listdir(d)):
            if n.endswith(('.cpp', '.h', '.hpp', '.f90', '.c')) or n in ('build.py', 'pyglue.py', 'fftmpi.py'):
                fs.append(os.path.join(d, n))
    for f in fs:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as g:
            h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()[:20]


def build(variants, out=None):
    """returns {variant: executable}"""
    key = tree_hash()
    root = out or os.path.join(VERIF, 'build')
    d = os.path.join(root, key)
    exe = {v: os.path.join(d, v, 'harness') for v in variants}
    todo = [v for v in variants if not os.path.exists(exe[v])]
    if not todo:
        return exe, key
    os.makedirs(root, exist_ok=True)
    for n in os.listdir(root):                    # one tree at a time
        if n != key:
            shutil.rmtree(os.path.join(root, n), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'redir'), 'w') as f:
        for a, b in sorted(REDIR.items()):
            f.write('%s %s\n' % (a, b))
    S, H = os.path.join(VERIF, 'sim'), os.path.join(VERIF, 'harness')
    base = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-I' + S, '-I' + H]
    pool = ThreadPoolExecutor(os.cpu_count() or 8)
    host = []
    jobs = []
    made = {}
    for f, fl in (('sim/sim.cpp', ['-O2']), ('harness/scn.cpp', ['-O1']), ('harness/harness.cpp', ['-O2'])):
        o = os.path.join(d, os.path.basename(f)[:-4] + '.o')
        host.append(o)
        if not os.path.exists(o):
            jobs.append(pool.submit(lambda f=f, fl=fl, o=o: (sh(['g++'] + base + fl + ['-c', os.path.join(VERIF, f), '-o', o + '.tmp.o']), os.rename(o + '.tmp.o', o))))
    objs = {v: [] for v in todo}

    def cxx(src, obj, flags, redirect):
        sh(['g++', '-std=c++11'] + flags + ['-c', src, '-o', obj])
        if redirect:
            sh(['objcopy', '--redefine-syms=' + os.path.join(d, 'redir'), obj])

    def fortran(vd, names, flags):
        for n in names + [os.path.join(H, 'drvf.f90')]:
            o = os.path.join(vd, os.path.basename(n)[:-4] + '_f90.o')
            sh(['gfortran', '-cpp', '-O1', '-g1', '-fPIC', '-frecursive', '-J' + vd, '-I' + vd] + flags + ['-c', n, '-o', o])

    made[''] = jobs
    for v in todo:
        jobs = []
        lib, single = VARIANTS[v]
        vd = os.path.join(d, v)
        os.makedirs(vd, exist_ok=True)
        fl = ['-g1', '-O1', '-fno-omit-frame-pointer', '-fPIC', '-I' + S, '-I' + SRC, '-I' + H, '-DFFT_MEMALIGN=64', '-DFFT_' + lib, '-DFFT_SINGLE' if single else '-DFFT_DOUBLE'] + ASAN
        # what the stack holds at first must not matter: all bits set in two variants, zero in the others (and the same in every execution)
        fl = ['-ftrivial-auto-var-init=' + ('pattern' if v in ('kd', 'ws') else 'zero')] + fl
        if v in STANDIN:
            fl = ['-I' + os.path.join(VERIF, 'fft1d')] + fl
        names = sorted(n for n in os.listdir(SRC) if n.endswith('.cpp'))
        for n in names:
            o = os.path.join(vd, n[:-4] + '.o')
            objs[v].append(o)
            jobs.append(pool.submit(cxx, os.path.join(SRC, n), o, fl, True))
        o = os.path.join(vd, 'drv.o')
        objs[v].append(o)
        jobs.append(pool.submit(cxx, os.path.join(H, 'drv.cpp'), o, fl, True))
        if v in STANDIN:
            o = os.path.join(vd, 'fft1d.o')
            objs[v].append(o)
            jobs.append(pool.submit(sh, ['g++', '-std=c++11', '-O2', '-I' + os.path.join(VERIF, 'fft1d')] + fl + ['-O2', '-c', os.path.join(VERIF, 'fft1d', 'fft1d.cpp'), '-o', o]))
        if lib == 'FFTW3':
            o = os.path.join(vd, 'fftwcount.o')
            objs[v].append(o)
            jobs.append(pool.submit(sh, ['gcc', '-g1', '-O1', '-fPIC', '-DFFT_SINGLE' if single else '-DFFT_DOUBLE', '-c', os.path.join(H, 'fftwcount.c'), '-o', o]))
        mods = [os.path.join(SRC, n) for n in sorted(os.listdir(SRC)) if n.endswith('_wrap.f90')]
        objs[v] += [os.path.join(vd, os.path.basename(n)[:-4] + '_f90.o') for n in mods + ['drvf.f90']]
        jobs.append(pool.submit(fortran, vd, mods, ['-DFFT_SINGLE' if single else '-DFFT_DOUBLE']))
        made[v] = jobs
        jobs = made['']
    for j in jobs:
        j.result()
    for v in list(todo):
        try:
            for j in made[v]:
                j.result()
        except BuildError:
            if v not in STANDIN:
                raise
            todo.remove(v); del exe[v]            # the project's own build does not compile this code either

    def link(v):
        lib, single = VARIANTS[v]
        vd = os.path.join(d, v)
        so = os.path.join(vd, 'librepo_%s.so' % v)
        libs = ['-lfftw3f' if single else '-lfftw3'] if lib == 'FFTW3' else ['-lfftw3', '-lfftw3f'] if v in STANDIN else []
        sh(['g++', '-shared', '-o', so] + ASAN + objs[v] + libs + ['-lgfortran', '-Wl,-z,now', '-Wl,-z,relro'])
        sh(['g++', '-rdynamic', '-o', exe[v] + '.tmp'] + ASAN + host + [so, '-Wl,-rpath,' + vd, '-Wl,--allow-shlib-undefined'])
        if v in STANDIN:
            sh([exe[v] + '.tmp', 'names'])        # a function the stand-in lacks
        os.rename(exe[v] + '.tmp', exe[v])
    for v, j in [(v, pool.submit(link, v)) for v in todo]:
        try:
            j.result()
        except BuildError:
            if v not in STANDIN:
                raise
            del exe[v]
    return exe, key


def build_python(d):
    """the Python interpreter's side of the simulator, next to the variants in the build folder"""
    so, H = os.path.join(d, 'libdrvpy.so'), os.path.join(VERIF, 'harness')
    shutil.copy(os.path.join(SRC, 'fftmpi.py'), os.path.join(d, 'fftmpi.py'))
    shutil.copy(os.path.join(H, 'pyglue.py'), os.path.join(d, 'pyglue.py'))
    if not os.path.exists(so):
        sh(['g++', '-std=c++17', '-g1', '-O1', '-fPIC', '-shared', '-I/usr/include/python3.12', os.path.join(H, 'drvpy.cpp'), '-o', so + '.tmp', '-lpython3.12'])
        os.rename(so + '.tmp', so)


if __name__ == '__main__':
    try:
        exe, key = build(sys.argv[1:] or list(VARIANTS))
        build_python(os.path.join(VERIF, 'build', key))
        print(exe)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
