"""Build the real acados C library from the /repo working tree, with the
simulation runtime linked in front of clock, heap, OpenMP, QP solver and stdio.

Everything lands in $DST_BUILD (default /verif/.build), keyed by content hash.
"""
import hashlib, os, shutil, subprocess, sys, json, fcntl, stat
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
BUILD = os.environ.get('DST_BUILD', os.path.join(VERIF, '.build'))
PY = '/opt/acados-env/venv/bin/python'
SKIP = ('ooqp', 'qore', 'hpmpc', 'qpdunes', 'clarabel', 'qpoases', 'daqp', 'osqp')

WRAP = ['malloc', 'calloc', 'realloc', 'free', 'gettimeofday', 'clock_gettime', 'time', 'memcpy', 'memmove', 'memset',
        'fopen', 'exit', '__assert_fail']
GOMP = ['GOMP_parallel', 'GOMP_barrier', 'GOMP_critical_start', 'GOMP_critical_end', 'GOMP_critical_name_start',
        'GOMP_critical_name_end', 'GOMP_atomic_start', 'GOMP_atomic_end', 'GOMP_single_start', 'GOMP_loop_end',
        'GOMP_loop_end_nowait', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_num_procs',
        'omp_in_parallel', 'omp_set_num_threads', 'omp_set_dynamic', 'omp_get_wtime']
for k in ('dynamic', 'guided', 'nonmonotonic_dynamic', 'nonmonotonic_guided', 'runtime', 'nonmonotonic_runtime', 'maybe_nonmonotonic_runtime'):
    GOMP += [f'GOMP_loop_{k}_start', f'GOMP_loop_{k}_next', f'GOMP_parallel_loop_{k}']
WRAPFLAGS = ['-Wl,' + ','.join('--wrap=' + w for w in WRAP + GOMP)]
TSAN = ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0']
CFLAGS = ['-O2', '-g1', '-fPIC', '-fopenmp', '-DACADOS_WITH_OPENMP', '-w', '-fno-builtin-malloc']


def casadi_dir():
    import casadi
    return os.path.dirname(casadi.__file__)


def sources():
    out = []
    for root in ('acados', 'interfaces/acados_c'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if f.endswith(('.c', '.h')):
                    out.append(os.path.join(d, f))
    return sorted(out)


def hsh(files, extra=''):
    h = hashlib.sha1(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def own_files():
    out = []
    for d in ('csrc', 'shim'):
        p = os.path.join(VERIF, d)
        out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(('.c', '.h'))]
    out.append(os.path.abspath(__file__))
    return out


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:400] + '\n' + r.stdout[-4000:])


class BuildError(Exception):
    pass


def build(verbose=False):
    """returns the root dir (usable as ACADOS_SOURCE_DIR)"""
    os.makedirs(BUILD, exist_ok=True)
    src = sources()
    key = hsh(src + own_files())
    root = os.path.join(BUILD, 'lib-' + key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(root, 'ok')):
            return root
        # keep at most a few builds
        olds = sorted((d for d in os.listdir(BUILD) if d.startswith('lib-')), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in olds[:-6]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        shutil.rmtree(root, ignore_errors=True)
        ci = casadi_dir()
        inc = os.path.join(root, 'include')
        for d in ('hpipm/include', 'obj', 'lib', 'bin'):
            os.makedirs(os.path.join(inc if d.startswith('hp') else root, d))
        os.makedirs(os.path.join(inc, 'blasfeo'))
        os.symlink(os.path.join(ci, 'include'), os.path.join(inc, 'blasfeo', 'include'))
        for f in os.listdir(os.path.join(ci, 'include')):
            if f.startswith('hpipm_') and f.endswith('.h'):
                with open(os.path.join(inc, 'hpipm/include', f), 'w') as o:
                    o.write(f'#include "{ci}/include/{f}"\n#include "hpipm_compat.h"\n')
        for f in ('hpipm_d_ocp_qp_seed.h', 'hpipm_d_dense_qp_seed.h'):
            with open(os.path.join(inc, 'hpipm/include', f), 'w') as o:
                o.write('#include "hpipm_compat.h"\n')
        os.symlink(os.path.join(REPO, 'acados'), os.path.join(inc, 'acados'))
        os.symlink(os.path.join(REPO, 'interfaces/acados_c'), os.path.join(inc, 'acados_c'))
        for f in os.listdir(os.path.join(VERIF, 'shim')):
            if f.endswith('.h'):
                os.symlink(os.path.join(VERIF, 'shim', f), os.path.join(inc, f))
        os.symlink(os.path.join(REPO, 'interfaces'), os.path.join(root, 'interfaces'))
        I = ['-I' + inc, '-I' + REPO, '-I' + os.path.join(REPO, 'interfaces'), '-I' + os.path.join(ci, 'include')]
        lib = os.path.join(root, 'lib')
        for l in ('libhpipm.so', 'libblasfeo.so'):
            os.symlink(os.path.join(ci, l), os.path.join(lib, l))
        run(['gcc', '-O2', '-g', '-fPIC', '-shared', '-Wall', '-o', lib + '/libsimrt.so', VERIF + '/csrc/simrt.c', VERIF + '/shim/hpipm_compat.c', VERIF + '/shim/blasfeo_wrap.c',
             '-I' + VERIF + '/shim', '-I' + ci + '/include', '-L' + lib, '-lhpipm', '-lblasfeo', '-lm', '-ldl', '-Wl,-rpath,' + lib])
        cs = [s for s in src if s.endswith('.c') and not any(k in os.path.basename(s) for k in SKIP)]
        objs = []

        def comp(s):
            o = os.path.join(root, 'obj', os.path.relpath(s, REPO).replace('/', '_') + '.o')
            run(['gcc', '-c'] + CFLAGS + TSAN + I + ['-o', o, s])
            return o
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            objs = list(ex.map(comp, cs))
        run(['gcc', '-shared', '-o', lib + '/libacados.so'] + objs + WRAPFLAGS +
            ['-L' + lib, '-lsimrt', '-lhpipm', '-lblasfeo', '-lm', '-Wl,-rpath,' + lib, '-Wl,-z,defs', '-fopenmp'])
        with open(lib + '/link_libs.json', 'w') as f:
            json.dump({'openmp': '-fopenmp', 'qpoases': '', 'daqp': '', 'osqp': '', 'hpmpc': '', 'qpdunes': '', 'ooqp': '', 'clarabel': ''}, f)
        tr = os.path.join(root, 'bin', 't_renderer')
        with open(tr, 'w') as f:
            f.write(f'#!/bin/sh\nexec {sys.executable} {VERIF}/dst/tera.py "$@"\n')
        os.chmod(tr, 0o755)
        cc = os.path.join(root, 'bin', 'simcc')
        with open(cc, 'w') as f:
            f.write(f'#!/bin/sh\nexec {sys.executable} {VERIF}/dst/simcc.py {root} "$@"\n')
        os.chmod(cc, 0o755)
        shutil.rmtree(os.path.join(root, 'obj'))
        open(os.path.join(root, 'ok'), 'w').close()
    return root


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(), round(time.time() - t, 1), 's')
