"""Saved iterates and QPs load back exactly; failed or repeated saves destroy nothing."""
import contextlib
import datetime as DT
import io
import json
import os
import resource
import shutil
import signal
import tempfile
import numpy as np
from dst import zoo, world as W

PROBLEMS = list(zoo.REG)
RUNS = {'quick': 2400, 'thorough': 30000}
LIMIT = {'quick': 105, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a history of data and iterate changes (any floating-point values), solves under faults, and saves, loads and dumps in a scratch folder with failing opens, writes that fail after some bytes, truncated files and clock steps; non-trivial if a file was written and one was read'
REAL = ['Python interface', 'acados C library (QP dump)', 'generated solver C code', 'HPIPM/BLASFEO numerics', 'file system calls within a scratch folder']
STUB = ['wall clock of file names', 'OpenMP runtime', 'fault seams around model functions, the QP solver and fopen']
ASSUMPTIONS = ['file system faults: failing open, writes failing after n bytes, full device, truncated files; a write that reports success is not lost']
NAMES = ['', 'a.json', 'b.json', 'b.txt', 'c', 'd.v1', 'sub.dir/a.json', 'sub.dir/e']
QPF = ('A', 'B', 'b', 'Q', 'R', 'S', 'q', 'r', 'C', 'D', 'lg', 'ug', 'lbx', 'ubx', 'lbu', 'ubu', 'zl', 'zu', 'Zl', 'Zu', 'lls', 'lus',
       'lg_mask', 'ug_mask', 'lbx_mask', 'ubx_mask', 'lbu_mask', 'ubu_mask', 'lls_mask', 'lus_mask', 'idxb', 'idxs_rev', 'idxe')


def setup(tier):
    zoo.prepare(PROBLEMS)


def plan(seed, tier):
    r = W.rnd(seed, 'p07')
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    ops = []
    names = r.sample(NAMES, r.choice([1, 2, 3]))
    for _ in range(r.randint(4, 10)):
        for _ in range(r.randint(0, 2)):
            q = r.random()
            if q < .5:
                ops.append(W.gen_iter_op(r, m, r.choice([.1, 1., 1e6])))
            elif q < .65:
                f = r.choice(['x', 'u', 'pi', 'lam', 'sl', 'su', 'z'])
                ks = [k for k in range(m.N + (f not in ('u', 'pi', 'z'))) if m.dim(f, k)]
                if ks:
                    ops.append(['setv', f, r.choice(ks), r.choice(['nan', 'inf', '-inf', '5e-324', '-0.0', '1.7976931348623157e308', '0.1', '1e-17'])])
            elif q < .8:
                ops.append(W.gen_data_op(r, m, scale=.3))
            else:
                ops.append(['step'])
        q = r.random()
        fault = None
        if r.random() < .25:
            fault = r.choice([['open', 0], ['size', int(2 ** r.uniform(0, 14))], ['size', int(2 ** r.uniform(0, 14))]])
        if q < .35:
            ops.append(['store', r.choice(names), r.random() < .3, r.random() < .3, fault])
        elif q < .55:
            ops.append(['load', r.choice(names), r.randrange(3)])
        elif q < .85:
            ops.append(['dump', r.choice(names), r.random() < .3, r.choice(['C', 'C', 'Python']), fault])
        elif q < .92:
            ops.append(['obj', r.randrange(4), r.randrange(2)])
        else:
            ops.append(['trunc', r.choice(names), r.random()])
        if r.random() < .3:
            ops.append(['clock', r.choice([0, -1, 1, -1000000, 1000000, 10**9])])
    return {'seed': seed, 'tier': tier, 'problem': name, 'ops': ops, 'faults': W.gen_faults(r, .5), 'tick': r.choice([0, 0, 1, 1000]), 'scramble': 1}


class Clock:
    """datetime of the modules under test"""
    def __init__(self, tick):
        self.us, self.tick = 0, tick

    def now(self, tz=None):
        self.us += self.tick
        return DT.datetime(2024, 3, 1, 12, 0, 0) + DT.timedelta(microseconds=self.us)

    def __getattr__(self, n):
        return getattr(DT.datetime, n)


def tree(d):
    o = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, 'rb') as h:
                o[os.path.relpath(p, d)] = h.read()
    return o


def same_iterate(a, b):
    for f in W.OUT:
        if len(a[f]) != len(b[f]):
            return f'{f}: {len(a[f])} vs {len(b[f])} stages'
        for k, (x, y) in enumerate(zip(a[f], b[f])):
            if W.canon(x).tobytes() != W.canon(y).tobytes() or f != 'lam' and np.any((np.signbit(np.asarray(x)) != np.signbit(np.asarray(y))) & ~np.isnan(np.asarray(x))):
                return f'{f}[{k}]: {np.asarray(x).tolist()} vs {np.asarray(y).tolist()}'
    return None


def parse_iterate(raw, m):
    d = json.loads(raw)
    w = len(str(m.N + 1))
    return {f: [np.array(d.get(f'{f}_{k:0{w}d}', []), float) for k in range(m.N + (f not in ('u', 'z', 'pi')))] for f in W.OUT}


def masked(I, it):
    it = {f: [np.array(v) for v in it[f]] for f in W.OUT}
    for k in range(I.m.N + 1):
        if len(it['lam'][k]):
            mk = np.asarray(I.lam_mask(k), float)
            it['lam'][k] = np.where(mk == 0, 0., it['lam'][k])
    return it


class Files:
    def __init__(self, d):
        self.d, self.know = d, {}


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


def get_qp(I):
    o = {}
    for f in QPF:
        for k in range(I.m.N + (f not in 'ABb')):
            v = np.array(I.s.get_from_qp_in(k, f))
            if v.size:
                o[f'{f}_{k}'] = v
    return o


def check_qp(raw, qp, m, exact_width=True):
    from acados_template import AcadosOcpQp
    d = json.loads(raw)
    q = AcadosOcpQp.from_json(json_data=d)
    if q.N != m.N:
        return f'N = {q.N} instead of {m.N}'
    for key, v in qp.items():
        f, k = key.rsplit('_', 1)
        x = getattr(q, f)[int(k)]
        x = np.array([] if x is None else x, float)
        if x.size != v.size:
            return f'{f}[{k}]: {x.size} values instead of {v.size}'
        y = np.asarray(v, float)
        x = x.reshape(y.shape)
        if W.canon(x).tobytes() != W.canon(y).tobytes():
            return f'{f}[{k}] differs by {W._mad(x, y):.3e}'
    for f in QPF:
        for k in range(m.N + (f not in 'ABb')):
            x = getattr(q, f)[k]
            if x is not None and np.size(x) and f'{f}_{k}' not in qp:
                return f'{f}[{k}] appeared'
    return None


@contextlib.contextmanager
def broken(s, fault, mod):
    """fault: None, ['open', n] or ['size', n]"""
    if fault and fault[0] == 'open':
        real = open

        def fopen(path, mode='r', *a, **k):
            if 'w' in mode or 'a' in mode or 'x' in mode or '+' in mode:
                raise OSError(28, 'No space left on device', str(path))
            return real(path, mode, *a, **k)
        s.io_cfg(0)
        mod.open = fopen
        try:
            yield
        finally:
            s.io_cfg(-1)
            del mod.open
    elif fault and fault[0] == 'size':
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        h = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (int(fault[1]), old[1]))
        try:
            yield
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
            signal.signal(signal.SIGXFSZ, h)
    else:
        yield


def do_save(A, F, op, ck, stat):
    """store or dump with all checks on the folder"""
    import acados_template.acados_ocp_solver as M
    kind, fn, ow = op[0], op[1], op[2]
    fault = op[4]
    before = tree(F.d)
    it0 = A.iterate()
    qp0 = get_qp(A) if kind == 'dump' else None
    arg = fn if kind == 'dump' or not (len(op) > 3 and op[3]) else (os.path.join(F.d, fn) if fn else '')
    base = fn or f'{A.s.ocp.name}_{"QP" if kind == "dump" else "iterate"}.json'
    base = os.path.normpath(base)
    err = None
    with contextlib.redirect_stdout(io.StringIO()), broken(A.sim, fault, M):
        try:
            if kind == 'dump':
                A.s.dump_last_qp_to_json(filename=arg, overwrite=ow, backend=op[3])
            else:
                A.s.store_iterate(filename=arg, overwrite=ow, verbose=bool(stat['n'] % 2))
        except Exception as e:
            err = e
    stat['n'] += 1
    if fault:
        stat[f'{fault[0]}_faults'] = stat.get(f'{fault[0]}_faults', 0) + 1
    after = tree(F.d)
    changed = [p for p in after if after[p] != before.get(p)]
    gone = [p for p in before if p not in after]
    t = f'{kind}({fn!r}, overwrite={ow}{", " + str(op[3]) if kind == "dump" else ""}) with fault {fault}: '
    if gone:
        raise Bad('file-lost', t + f'{gone} removed')
    other = [p for p in changed if p in before and not (ow and p == base)]
    if other:
        raise Bad('file-overwritten', t + f'existing file {other[0]} was changed')
    allowed = [p for p in changed if os.path.dirname(p) == os.path.dirname(base)]
    if len(allowed) != len(changed) or len(changed) > 1:
        raise Bad('stray-file', t + f'wrote {changed}')
    # the solver is not touched
    d = same_iterate(it0, A.iterate())
    if d:
        raise Bad('save-changes-solver', t + 'iterate changed: ' + d)
    if qp0 is not None:
        d = W.diff(qp0, get_qp(A))
        if d:
            raise Bad('save-changes-solver', t + 'QP changed: ' + d)
    if err is not None:
        if not fault:
            raise Bad('save-fails', t + f'{type(err).__name__}: {err}')
        for p in changed:
            F.know[p] = ('damaged',)
        stat['raised'] = stat.get('raised', 0) + 1
        return
    name = changed[0] if changed else base
    if base not in before and name != base:
        raise Bad('wrong-name', t + f'wrote {name}')
    if base in before and not ow and name == base:
        raise Bad('save-silent', t + 'no exception and no file')
    if name not in after:
        raise Bad('save-silent', t + 'no exception and no file')
    try:
        if kind == 'dump':
            d = check_qp(after[name].decode(), qp0, A.m)
        else:
            d = same_iterate(parse_iterate(after[name].decode(), A.m), it0)
    except Bad:
        raise
    except Exception as e:
        raise Bad('saved-unreadable', t + f'reported success, but the file does not load: {type(e).__name__}: {str(e)[:120]}')
    if d:
        raise Bad('saved-wrong', t + 'file does not hold the data of the solver: ' + d)
    F.know[name] = (kind, it0 if kind == 'store' else qp0)
    stat['saves'] = stat.get('saves', 0) + 1


def do_load(A, B, F, op, stat):
    """load a file into A (0), another solver (1), or an iterate object (2)"""
    from acados_template.acados_ocp_iterate import AcadosOcpIterate
    fn = os.path.normpath(op[1] or f'{A.s.ocp.name}_iterate.json')
    what = F.know.get(fn)
    I = (A, B, A)[op[2]]
    it0 = I.iterate()
    err = None
    t = f'load({fn}) into {("the solver", "another solver", "an iterate object")[op[2]]}: '
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            if op[2] == 2:
                obj = AcadosOcpIterate.from_json(filename=fn)
            else:
                I.s.load_iterate(fn, verbose=bool(stat['n'] % 2))
        except Exception as e:
            err = e
    if err is not None:
        if what and what[0] == 'store':
            raise Bad('load-fails', t + f'{type(err).__name__}: {err}')
        d = same_iterate(it0, I.iterate())
        if d:
            raise Bad('failed-load-changes-solver', t + f'{type(err).__name__}, but ' + d)
        stat['rejected'] = stat.get('rejected', 0) + 1
        return None
    if what and what[0] == 'dump' and op[2] == 2:
        return None
    if not what or what[0] == 'dump':
        raise Bad('load-silent', t + 'no such file or no iterate, but no exception')
    if what[0] == 'damaged':
        # accepted: only if nothing of the content is missing
        try:
            want = parse_iterate(open(fn).read(), A.m)
        except Exception:
            raise Bad('damaged-loaded', t + 'damaged file accepted')
    else:
        want = what[1]
    if op[2] == 2:
        d = same_iterate({f: list(getattr(obj, f)) for f in W.OUT}, want)
        if d:
            raise Bad('loaded-wrong', t + d)
        stat['loads'] = stat.get('loads', 0) + 1
        return None
    want = masked(I, want)
    d = same_iterate(I.iterate(), want)
    if d:
        raise Bad('loaded-wrong', t + d)
    stat['loads'] = stat.get('loads', 0) + 1
    return want if I is A else None


def do_obj(A, B, op, stat):
    from acados_template.acados_ocp_iterate import AcadosOcpIterate
    it0 = A.iterate()
    kind, dst = op[1], op[2]
    I = (A, B)[dst]
    t = f'{("get_iterate", "get_flat_iterate", "get_iterate().flatten", "to_json/from_json")[kind]} into {("the solver", "another solver")[dst]}: '
    o = A.s.get_flat_iterate() if kind == 1 else A.s.get_iterate()
    if kind == 2:
        o = o.flatten()
    if kind == 3:
        o = AcadosOcpIterate.from_json(json_data=json.loads(o.to_json()))
    # the object is a copy: later changes of the solver do not reach it
    for f in ('x', 'u'):
        for k in range(A.m.N + (f == 'x')):
            if A.m.dim(f, k):
                A.s.set(k, f, np.full(A.m.dim(f, k), 7.5))
    I.s.set_iterate(o)
    want = masked(I, it0)
    d = same_iterate(I.iterate(), want)
    if d:
        raise Bad('object-wrong', t + d)
    stat['objects'] = stat.get('objects', 0) + 1
    if I is not A:
        A.set_iterate(it0)
    return want if I is A else it0


def execute(p, trace=False):
    import acados_template.acados_ocp_solver as M
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    name = p['problem']
    A = W.Inst(name)
    A.sim = s
    B = W.Inst(name)
    s.faults_clear()
    W.arm(s, p['faults'])
    res = {'violation': None}
    stat = {'n': 0}
    shadow = []          # what the twin does instead
    d = tempfile.mkdtemp(prefix='dst-p07-')
    os.mkdir(d + '/sub.dir')
    F = Files(d)
    cwd = os.getcwd()
    ck = Clock(p['tick'])
    real = M.datetime
    M.datetime = ck
    log = []
    solved = False
    try:
        os.chdir(d)
        for op in p['ops']:
            if op[0] in ('store', 'dump'):
                if op[0] == 'dump' and not solved:
                    continue
                do_save(A, F, op, ck, stat)
            elif op[0] == 'load':
                w = do_load(A, B, F, op, stat)
                if w is not None:
                    shadow.append(w)
                    log.append(['it', len(shadow) - 1])
            elif op[0] == 'obj':
                shadow.append(do_obj(A, B, op, stat))
                log.append(['flatit' if op[2] == 0 and op[1] in (1, 2) else 'it', len(shadow) - 1])
            elif op[0] == 'clock':
                ck.us += op[1]
                stat['clock_steps'] = stat.get('clock_steps', 0) + 1
            elif op[0] == 'trunc':
                fn = os.path.normpath(op[1] or f'{A.s.ocp.name}_iterate.json')
                if os.path.isfile(fn):
                    os.truncate(fn, int(op[2] * os.path.getsize(fn)))
                    F.know[fn] = ('damaged',)
                    stat['truncated'] = stat.get('truncated', 0) + 1
            else:
                A.apply(op)
                solved = solved or op[0] == 'step'
                log.append(op)
        A.apply(['step'])
        log.append(['step'])
        T = W.Inst(name)
        s.faults_clear()
        W.arm(s, p['faults'])
        for op in log:
            if op[0] == 'it':
                T.set_iterate(shadow[op[1]])
            elif op[0] == 'flatit':
                for f in W.OUT:
                    v = shadow[op[1]][f]
                    T.s.set_flat(f, np.concatenate(v) if v else np.zeros(0))
            else:
                T.apply(op)
        df = W.diff(A.obs(), T.obs())
        if df:
            raise Bad('save-changes-solver', 'a solver that did not save or load behaves differently: ' + df)
    except Bad as e:
        res['violation'] = {'sig': e.sig, 'msg': f'{name}: {e.msg}'}
    finally:
        M.datetime = real
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    res['obs'] = W.dig(A.obs())
    if trace:
        res['trace'] = s.trace_text()
    W.add_stats(res, s, {'nontrivial': bool(stat.get('saves')) and bool(stat.get('loads') or stat.get('rejected')), 'states': {f'{name}/{len(F.know)}/{sorted(stat.items())}'[:80]}})
    for k in ('open_faults', 'size_faults', 'truncated', 'clock_steps'):
        if stat.get(k):
            res['stats']['faults']['io_' + k] = stat[k]
    return res
