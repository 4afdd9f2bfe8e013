"""Changing the discretization or the condensing horizon of a live solver is the same as generating it that way."""
import ctypes as ct
import numpy as np
from dst import zoo, kkt, world as W

VAR = {k: v for k, v in zoo.VREG.items() if v.base in zoo.REG}
PROBLEMS = sorted({v.base for v in VAR.values()})
RUNS = {'quick': 2400, 'thorough': 30000}
LIMIT = {'quick': 90, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run drives a solver through a random history of calls, time-step changes and condensing-horizon changes that ends in a configuration for which a separately generated solver exists; non-trivial if at least one change preceded the last one and a compared solve ran at least one QP; distinct by hash of the compared observations'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime (coroutines, seeded scheduler)', 'clock', 'heap (released memory scrambled)', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['the reference is a solver generated from the same description with the final time steps or condensing horizon']


def setup(tier):
    zoo.prepare(PROBLEMS + list(VAR))
    for n in PROBLEMS + list(VAR):
        W.meta(n)


def moves(r, m, n=3):
    ops = []
    for _ in range(r.randint(0, n)):
        ops.append(W.gen_data_op(r, m, scale=.3) if r.random() < .6 else W.gen_iter_op(r, m, .3))
    if r.random() < .3:
        if r.random() < .5 and m.nlp != 'SQP_RTI':
            ops.append(['opt', 'max_iter', r.randint(1, m.ocp.solver_options.nlp_solver_max_iter)])
        else:
            ops.append(r.choice([['opt', r.choice(W.TOLS), 10. ** r.uniform(-8, -1)], ['opt', 'levenberg_marquardt', r.uniform(0, .1)]]))
    if r.random() < .8:
        ops += [['step']] * r.choice([1, 1, 2])
    if r.random() < .1:
        ops.append(['reset', True, r.random() < .3, False, False])
    return ops


def plan(seed, tier):
    r = W.rnd(seed, 'p18')
    v = r.choice(list(VAR))
    base = VAR[v].base
    m = W.meta(base)
    pc = m.ocp.solver_options.qp_solver.startswith('PARTIAL') and v != 'erk_ts'     # (changing the condensing horizon drops given block sizes)
    others = [n for n in VAR if VAR[n].base == base]
    ops = []
    N = m.N
    for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
        if N == m.N:
            ops.append(['ops', moves(r, m)])
        elif r.random() < .6:
            ops.append(['run', r.randint(1, 2)])
        q = r.random()
        if pc and q < .35:
            ops.append(['cond', r.randint(1, N)])
            if r.random() < .25:
                ops.append(['ropts'])
        elif q < .6:
            o = r.choice(others + [base])
            n2 = W.meta(o).N
            ops.append(['var', o]); N = n2
        else:
            n2 = r.choice([N, N, m.N, r.randint(2, 14)])
            ops.append(['rnd', n2, r.getrandbits(30)]); N = n2
        if r.random() < .15:
            ops.append(['wrongN', r.choice([1, 2, 3, 25])])
    V = W.meta(v)
    ops.append(['final', v])
    if N == m.N == V.N:       # data survive changes that keep the number of shooting nodes
        ops.insert(-1, ['ops', moves(r, m)])
    faults = []
    if r.random() < .3 and not v.startswith('gnsf'):     # (gnsf evaluates its matrices at the first call after the change)
        a = r.randint(0, 80)
        faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 1, 5, 30]), 'kind': r.choice([1, 2, 5]), 'arg': 1e3, 'name': ''})
    if r.random() < .3:
        a = r.randint(0, 6)
        faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 1, 5]), 'kind': r.choice([1, 2, 3, 4, 6]), 'arg': r.randint(1, 4)})
    after = [o for o in moves(r, V, 4) if not (o[0] == 'reset' and o[2] and VAR[v].ts and V.N == m.N)] or [['step']]
    if not any(o[0] == 'step' for o in after):
        after.append(['step'])
    return {'seed': seed, 'tier': tier, 'problem': v, 'ops': ops, 'ops2': after, 'it': r.getrandbits(30), 'style': r.choice(['copy', 'copy', 'inplace', 'strided', 'reused']), 'faults': faults, 'scramble': 1}


class Live:
    def __init__(c, base, style):
        c.I = W.Inst(base)
        c.base = base
        c.style = style
        c.buf = None
        c.N = c.I.m.N
        c.ts = np.array(c.I.m.ts, float)
        c.kept = True       # problem data set so far are still there
        c.changes = 0

    def steps(c, ts):
        ts = np.array(ts, float)
        n = len(ts)
        a = ts.copy()
        if c.style == 'strided':
            b = np.full(2 * n, 1e3); b[::2] = ts; a = b[::2]
        elif c.style == 'reused' and c.buf is not None and len(c.buf) == n:
            c.buf[:] = ts; a = c.buf
        elif c.style == 'inplace':
            c.I.s.set_new_time_steps(a)
            a[:] = 77.          # the caller's array is the caller's
            a = None
        if a is not None:
            c.I.s.set_new_time_steps(a)
            c.buf = a
        c.changes += 1
        if n != c.N:
            c.kept = False
            c.N = n
            c.I.reset_model()
            c.I.opts = {}
        elif np.array_equal(ts, c.ts):
            return
        c.ts = ts
        for k in range(min(n, c.I.m.N)):
            c.I.d[k]['dt'] = c.I.d[min(k + 1, c.I.m.N)]['dt'] = float(ts[k])
            c.I.d[k]['scaling'] = np.array([float(ts[k])])


def execute(p, trace=False):
    s = W.begin(dict(p), trace)
    v = p['problem']
    base, V, m = VAR[v].base, W.meta(v), W.meta(VAR[v].base)
    res = {'violation': None}

    def viol(sig, msg):
        if not res['violation']:
            res['violation'] = {'sig': sig, 'msg': f'{base} -> {v}: {msg}'}

    b0 = s.live_bytes()
    W.arm(s, p['faults'])
    L = Live(base, p['style'])
    I = L.I
    lib = I.s.shared_lib
    for op in p['ops']:
        if op[0] == 'ops':
            if L.N == m.N:
                for o in op[1]:
                    I.apply(o)
                    if o[0] == 'reset' and o[2]:       # the discretization belongs to the numerical values
                        L.ts = np.array(m.ts, float)
        elif op[0] == 'run':
            for _ in range(op[1]):
                I.s.solve()
        elif op[0] == 'cond':
            if op[1] <= L.N:
                try:
                    I.s.update_qp_solver_cond_N(op[1]); L.changes += 1
                    if m.nlp == 'DDP' and op[1] != L.N:
                        viol('ddp-condensing-accepted', f'condensing horizon {op[1]} accepted by a DDP solver with N={L.N}')
                except ValueError:
                    if m.nlp != 'DDP' or op[1] == L.N:
                        raise
        elif op[0] == 'ropts':
            I.s.reset(True, False, True, False)
            I.opts = {}
        elif op[0] in ('var', 'rnd', 'final'):
            if op[0] == 'rnd':
                ts = W.rs(op[2]).uniform(.05, .3, op[1])
            else:
                ts = W.meta(op[1]).ts
            L.steps(ts)
            if op[0] == 'final':
                c = V.ocp.solver_options.qp_solver_cond_N
                if m.ocp.solver_options.qp_solver.startswith('PARTIAL'):
                    I.s.update_qp_solver_cond_N(min(c, V.N)); L.changes += 1
        elif op[0] == 'wrongN' and op[1] != L.N:
            a = np.full(op[1], .3)
            if getattr(lib, f'{I.ocp.name}_acados_update_time_steps')(I.s.capsule, op[1], a.ctypes.data_as(ct.POINTER(ct.c_double))) == 0:
                viol('wrong-length-accepted', f'update_time_steps with {op[1]} steps accepted by a solver with N={L.N}')
    s.faults_clear()
    if L.N != V.N:
        viol('horizon', f'N is {L.N}, expected {V.N}')
    F = W.Inst(v)
    # the live solver now is the variant
    I.m = V
    if V.N != m.N:
        I.reset_model()
    for k in range(V.N + 1):
        I.d[k]['dt'] = float(V.ts[min(k, V.N - 1)])
        if k < V.N and V.N != m.N:
            I.d[k]['scaling'] = np.array([float(V.ts[k])])
    I.status = None
    if I.s.N != V.N:
        viol('horizon', f'Python reports N={I.s.N}, expected {V.N}')
    I.s.reset(True, False, False, False)
    F.s.reset(True, False, False, False)
    F.push(I)
    dd = W.diff(F.get_data(), I.get_data())
    if dd:
        viol('data-differ', dd)
    r = W.rs(p['it'])
    it = {f: [(.3 * r.randn(n) if f not in ('lam', 'sl', 'su') else np.abs(.1 * r.randn(n))) for n in [V.dim(f, k) for k in range(V.N + (f not in ('u', 'z', 'pi')))]] for f in W.OUT}
    out = []
    for X in (I, F):
        if L.kept or p['it'] % 2:
            X.set_iterate(it)
        s.faults_clear(); W.arm(s, p['faults'])
        log = []
        for op in p['ops2']:
            X.apply(op)
            if op[0] == 'step':
                log.append((op[0], X.obs()))
        o = X.obs(); o['cost'] = float(X.s.get_cost())
        log.append(('end', o))
        out.append(log)
        s.faults_clear()
    for i, ((n, a), (_, b)) in enumerate(zip(*out)):
        d = W.diff(b, a)
        if d:
            viol('differs-from-generated', f'after {L.changes} changes, observation {i} ({n}): {d}')
            break
    nq = int(np.nansum(out[0][-1][1]['statistics'].shape[-1])) if out[0] else 0
    obs = [W.dig(o) for _, o in out[0]]
    del X, F, I
    L.I = None
    if s.heap_check():
        viol('heap-damaged', '')
    b1 = s.live_bytes()
    if b1 > b0:
        viol('leak', f'{b1 - b0} bytes in use after all solvers were destroyed')
    if trace:
        res['trace'] = s.trace_text()
    res['obs'] = W.dig({str(i): x for i, x in enumerate(obs)})
    return W.add_stats(res, s, {'nontrivial': L.changes > 1 and nq > 1, 'states': obs, 'key': res['obs']})


