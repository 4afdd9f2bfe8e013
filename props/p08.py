"""Real-time iteration: the phases compose to the undivided step, the advanced-step levels are what they are defined to be, failures are reported."""
import ctypes
from dst import zoo, world as W, simlib, kkt
from dst.engine import Violation
import numpy as np

PROBLEMS = [n for n in zoo.RTI + ('rtisqp',) if n in zoo.REG]
RUNS = {'quick': 4800, 'thorough': 30000}
LIMIT = {'quick': 150, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a closed loop of 2-5 RTI steps of one kind (split against undivided step, RTI against SQP, level A, B, C or D against its definition, linear-quadratic, failure reporting) with random initial states, data changes and faults at chosen phases; non-trivial if at least one comparison was made after a successful feedback step; distinct by event hash'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime', 'clock', 'heap (scrambled)', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['two ways to compute the same step are compared up to 2e-5 relative to the size of the iterate, since condensing and the linear algebra are grouped differently',
               'the KKT oracle (CasADi re-implementation of the discretized problem) decides optimality of fixed points']
STD = 4
AS = [n for n in zoo.ASRTI if n in zoo.REG]
if 'rtiirk' in AS:
    AS.remove('rtiirk')         # soft constraints: level B not available; used for the split steps
LEVELS = {0: AS, 1: AS, 2: [n for n in AS if n not in ('asrh', 'asrnls', 'lq')], 3: AS}     # level C: external cost, no nonlinear constraints


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in PROBLEMS:
        W.meta(n)
        kkt.oracle(n)


def iopt(I, name, v):
    I.s._AcadosOcpSolver__acados_lib.ocp_nlp_solver_opts_set(I.s.nlp_config, I.s.nlp_opts, name.encode(), ctypes.byref(ctypes.c_int(v)))


def plan(seed, tier):
    r = W.rnd(seed, 'p08')
    kinds = ['S', 'S', 'D', 'A', 'B', 'C', 'F', 'F']
    if 'rti' in zoo.REG and 'rtisqp' in zoo.REG:
        kinds.append('Q')
    if 'lq' in zoo.REG:
        kinds.append('L')
    kind = r.choice(kinds)
    S = [n for n in zoo.RTI if n in zoo.REG]
    name = {'S': r.choice(S), 'Q': 'rti', 'L': 'lq', 'F': r.choice(S)}.get(kind)
    lev = {'S': STD, 'Q': STD, 'A': 0, 'B': 1, 'C': 2, 'D': 3}.get(kind)
    if kind == 'L':
        lev = r.choice([0, 1, 3, 4])
    if kind == 'F':
        lev = r.choice([n for n in range(5) if n == STD or name in LEVELS[n]])
    name = name or r.choice(LEVELS[lev])
    m = W.meta(name)
    fix = kind in 'A'       # level A mixes data of several points in time: only the initial state changes
    steps = []
    for k in range(r.randint(2, 5)):
        ops = []
        if not (fix and k):
            for _ in range(r.choice([0, 1, 1, 3])):
                o = W.gen_data_op(r, m, scale=r.choice([.1, .3]))
                if o[0] == 'x0' or o[0] in ('cd',) and kind == 'C':
                    continue
                ops.append(o)
        if (k == 0 or r.random() < .3) and not (kind in 'ABCD' and k):
            for _ in range(r.choice([0, 1, 2])):
                ops.append(W.gen_iter_op(r, m, r.choice([.05, .3])))
        st = {'ops': ops, 'x0': r.getrandbits(30), 'sc': r.choice([.02, .1, .3]), 'pre': r.getrandbits(30) if r.random() < .5 else None}
        if kind == 'S' and r.random() < .2 or kind == 'F' and r.random() < .6:
            st['qp'] = [r.choice([1, 2, 3, 4]), r.randint(0, 2), r.choice(['prep', 'feed', 'both']) if kind == 'F' else 'feed', r.choice([0, 0, 1])]
        if kind == 'F' and r.random() < .2:
            st['fn'] = [r.choice(['prep', 'feed']), r.choice([1, 2]), r.randint(0, 60)]
        steps.append(st)
    p = {'seed': seed, 'tier': tier, 'problem': name, 'kind': kind, 'level': lev, 'iter': r.choice([1, 1, 2, 3]), 'steps': steps, 'faults': [], 'scramble': 1,
         'thr': r.choice([1, 1, 2, 4])}
    if kind in 'BC' and r.random() < .7:
        p['iter'] = r.choice([25, 60])
    return p


def vec(it):
    return {f: np.concatenate([np.atleast_1d(v) for v in it[f]]) if it[f] else np.zeros(0) for f in it if f not in ('z',)}


def near(a, b, tol=2e-5):
    """first difference of two iterates beyond tol, relative to the size of the field"""
    for f in a:
        x, y = a[f], b[f]
        if x.shape != y.shape:
            return f'{f}: sizes {x.shape} {y.shape}'
        if not x.size:
            continue
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not (fx == fy).all():
            return f'{f}: finite at different places'
        sc = 1 + max(np.max(np.abs(x[fx]), initial=0), np.max(np.abs(y[fy]), initial=0))
        d = np.where(fx, np.abs(np.where(fx, x, 0) - np.where(fy, y, 0)), 0)
        if d.max() > tol * sc:
            i = int(d.argmax())
            return f'{f}[{i}]: {x[i]!r} vs {y[i]!r} (difference {d.max():.2e}, size {sc:.1e})'


class Ctx:
    def __init__(c, p, s):
        c.p, c.s, c.name, c.m = p, s, p['problem'], W.meta(p['problem'])
        c.cmp = 0
        c.dig = []
        c.res = {'violation': None}

    def bad(c, sig, msg):
        raise Violation(sig, f'{c.name} level {"ABCD-"[c.p["level"]]} kind {c.p["kind"]}: {msg}')

    def inst(c, level=None, it=None):
        I = W.Inst(c.name)
        iopt(I, 'as_rti_level', c.p['level'] if level is None else level)
        iopt(I, 'as_rti_iter', c.p['iter'] if it is None else it)
        return I

    def x0(c, I, st, key='x0'):
        v = I.bound_values('bx', 0, st[key], st['sc'])[0]
        put(I, v)
        return v

    def phase(c, I, ph, st=None, where=None):
        """one solver call, with the faults of this step if they belong to this phase"""
        s = c.s
        if st and 'qp' in st and st['qp'][2] in (where, 'both'):
            k, arg, _, off = st['qp']
            s.qp_fault(off, off, k, float(arg))
        if st and 'fn' in st and st['fn'][0] == where:
            n = st['fn'][2]
            s.fn_fault(n, n, st['fn'][1], 0., b'')
        iopt(I, 'rti_phase', ph)
        r = I.op_solve()
        s.faults_clear()
        return r

    def same(c, A, B, what, tol=2e-5):
        a, b = vec(A.iterate()), vec(B.iterate())
        c.dig.append(W.dig(a))
        d = near(a, b, tol)
        if d:
            c.bad(what, f'step {c.k}: {d}')
        c.cmp += 1


def put(I, v):
    I.s.set(0, 'lbx', v); I.s.set(0, 'ubx', v)
    I.d[0]['lbx'], I.d[0]['ubx'] = v.copy(), v.copy()


def adv(I):
    """initial state the advanced-step preparation used"""
    return np.array(I.s.constraints_get(0, 'lbx')), np.array(I.s.constraints_get(0, 'ubx'))


def plant(I):
    """the model's prediction of the next initial state"""
    it = I.iterate()
    if not all(np.all(np.isfinite(v)) for f in it for v in it[f]):
        return None
    with np.errstate(all='ignore'):
        return kkt.oracle(I.m.name).residuals(it, I.d)['F'][0]


def finite(I):
    it = I.iterate()
    return all(np.all(np.isfinite(v)) for f in ('x', 'u', 'pi', 'lam', 'sl', 'su') for v in it[f])


def run_split(c):
    A, B = c.inst(), c.inst()
    for c.k, st in enumerate(c.p['steps']):
        for op in st['ops']:
            A.apply(op); B.apply(op)
        if st['pre'] is not None:
            c.x0(A, st, 'pre')
        i0 = vec(A.iterate())
        ra = c.phase(A, 1, st, 'prep')
        d = W.diff(i0, vec(A.iterate()))
        if d:
            c.bad('preparation-changes-iterate', f'step {c.k}: {d}')
        c.x0(A, st); c.x0(B, st)
        fa = c.phase(A, 2, st, 'feed')
        fb = c.phase(B, 0, st, 'feed')
        if fa != fb:
            c.bad('split-status', f'step {c.k}: feedback after preparation returns {fa}, the undivided step {fb}')
        c.same(A, B, 'split-differs')
        if fa == 4 and W.diff(i0, vec(A.iterate())) and 'qp' in st:
            c.bad('failed-step-changes-iterate', f'step {c.k}: {W.diff(i0, vec(A.iterate()))}')
        it = A.iterate()
        A.set_iterate(it); B.set_iterate(it)     # both: storing algebraic states also moves the initial guess of the integrator


def run_sqp(c):
    A, B = c.inst(), W.Inst('rtisqp')
    B.s.options_set('max_iter', 1)
    for n in ('tol_stat', 'tol_eq', 'tol_ineq', 'tol_comp'):
        B.s.options_set(n, 1e-14)
    for c.k, st in enumerate(c.p['steps']):
        for op in st['ops']:
            A.apply(op); B.apply(op)
        c.x0(A, st); c.x0(B, st)
        fa = c.phase(A, 0)
        fb = B.op_solve()
        if (fa == 4) != (fb == 4):
            c.bad('sqp-status', f'step {c.k}: RTI returns {fa}, one SQP iteration {fb}')
        if fa == 4:
            return
        c.same(A, B, 'rti-not-sqp-step', 1e-4)
        B.set_iterate(A.iterate())


def prep(c, A, st, first):
    """advanced-step preparation of A; returns the advanced initial state, or None after a failure"""
    x1 = plant(A) if not first else None
    r = c.phase(A, 1)
    if r:
        if r != 4:
            c.bad('preparation-status', f'step {c.k}: preparation returns {r}')
        return None
    lo, up = adv(A)
    if first:
        lo0 = A.d[0]['lbx']
        if not np.array_equal(lo, lo0):
            c.bad('advance-first', f'step {c.k}: the first preparation changed the initial state {lo0} to {lo}')
    elif x1 is not None:
        if not (np.allclose(lo, x1, rtol=1e-5, atol=1e-6) and np.allclose(up, x1, rtol=1e-5, atol=1e-6)):
            c.bad('advance-wrong', f'step {c.k}: preparation used the initial state {lo} / {up}, the model predicts {x1}')
    A.d[0]['lbx'], A.d[0]['ubx'] = lo, up
    return lo


def run_D(c):
    A, B = c.inst(), c.inst(STD)
    for c.k, st in enumerate(c.p['steps']):
        for op in st['ops']:
            A.apply(op); B.apply(op)
        if c.k == 0 or st['pre'] is not None:
            c.x0(A, st, 'pre' if st['pre'] is not None else 'x0')
        xa = prep(c, A, st, c.k == 0)
        if xa is None:
            return
        put(B, xa)
        for _ in range(c.p['iter']):
            if c.phase(B, 0):
                return c.bad('level-D-status', f'step {c.k}: an iteration of the preparation fails when executed alone')
        c.same(A, B, 'level-D-preparation')
        B.set_iterate(A.iterate())
        c.phase(B, 1)
        c.x0(A, st); c.x0(B, st)
        fa, fb = c.phase(A, 2), c.phase(B, 2)
        if fa != fb:
            c.bad('level-D-status', f'step {c.k}: feedback returns {fa}, expected {fb}')
        if fa:
            return
        c.same(A, B, 'level-D-feedback')
        B.set_iterate(A.iterate())


def run_A(c):
    A, B = c.inst(), c.inst(STD)
    wlin = None
    for c.k, st in enumerate(c.p['steps']):
        for op in st['ops']:
            A.apply(op); B.apply(op)
        if c.k == 0:
            c.x0(A, st, 'x0')
        xa = prep(c, A, st, c.k == 0)
        if xa is None:
            return
        if c.k:
            B.set_iterate(wlin)
            c.phase(B, 1)
            put(B, xa)
            if c.phase(B, 2):
                return
            c.same(A, B, 'level-A-preparation')
            B.set_iterate(A.iterate())
        else:
            B.set_iterate(A.iterate())
            put(B, xa)
        wlin = A.iterate()
        c.phase(B, 1)
        c.x0(A, st); c.x0(B, st)
        fa, fb = c.phase(A, 2), c.phase(B, 2)
        if fa != fb:
            c.bad('level-A-status', f'step {c.k}: feedback returns {fa}, expected {fb}')
        if fa:
            return
        c.same(A, B, 'level-A-feedback')


def lin_stat(c, B, w, it):
    """stationarity at 'it' of the QP whose matrices and gradient were computed at w (held by instance B)"""
    g = B.s.get_from_qp_in
    worst = (0., -1)
    N = c.m.N
    for k in range(N + 1):
        D = B.d[k]
        n, idx = D['_n'], D['_idx']
        nc = sum(n.values())
        lam = it['lam'][k]
        d = lam[nc:2 * nc] - lam[:nc]
        dx = it['x'][k] - w['x'][k]
        gx = g(k, 'q').ravel() + g(k, 'Q') @ dx
        if k < N:
            du = it['u'][k] - w['u'][k]
            S = g(k, 'S')
            gu = g(k, 'r').ravel() + g(k, 'R') @ du + S @ dx + g(k, 'B').T @ it['pi'][k]
            gx = gx + S.T @ du + g(k, 'A').T @ it['pi'][k]
            if n['bu']:
                np.add.at(gu, idx['bu'], d[:n['bu']])
        else:
            gu = np.zeros(0)
        if n['bx']:
            np.add.at(gx, idx['bx'], d[n['bu']:n['bu'] + n['bx']])
        if n['g'] + n['h'] + n['phi']:
            dd = d[n['bu'] + n['bx']:]
            gx = gx + g(k, 'C').T @ dd
            if k < N:
                gu = gu + g(k, 'D').T @ dd
        if k:
            gx = gx - it['pi'][k - 1]
        r = max(np.max(np.abs(gx), initial=0), np.max(np.abs(gu), initial=0))
        if not r <= worst[0]:
            worst = (r, k)
    return worst


def run_BC(c):
    lev = c.p['level']
    n = c.p['iter']
    A = c.inst()
    T = c.inst(it=n + 1) if n > 10 else A
    # keeps the linearization (with a regularized exact Hessian the corrected multipliers belong to no single quadratic model)
    B = c.inst(STD) if lev == 1 and c.name != 'asrh' else None
    L = wlin = None
    for c.k, st in enumerate(c.p['steps']):
        for op in st['ops']:
            for I in {A, T, B} - {None}:
                I.apply(op)
        if c.k == 0:
            c.x0(A, st, 'x0')
            if n > 10:
                c.x0(T, st, 'x0')
        xa = prep(c, A, st, c.k == 0)
        if xa is None:
            return
        if L is not None and finite(A):
            r, k = lin_stat(c, L, wlin, A.iterate())
            tol = 2e-6 * (1 + max(np.max(np.abs(v), initial=0) for v in vec(A.iterate()).values()))
            if not r <= tol:
                c.bad('level-B-stationarity', f'step {c.k}: the prepared point is not stationary for the quadratic model built at the last linearization point: residual {r:.2e} (stage {k})')
            c.cmp += 1
        wlin = A.iterate()
        if n > 10:
            rt = c.phase(T, 1)
            if rt:
                return
            a, b = vec(A.iterate()), vec(T.iterate())
            if c.k and not near(a, b, 1e-9) and finite(A):
                T.d[0]['lbx'], T.d[0]['ubx'] = xa, xa
                A.d[0]['lbx'], A.d[0]['ubx'] = xa, xa
                with np.errstate(all='ignore'):
                    R = kkt.oracle(c.name).residuals(A.iterate(), A.d)
                tol = 2e-6 * (1 + max(np.max(np.abs(v), initial=0) for v in a.values()))
                for q in ('eq', 'ineq') + (('stat', 'comp') if lev == 2 else ()):
                    if not R[q] <= (50 * tol if q == 'comp' else tol):
                        c.bad(f'level-{"ABCD"[lev]}-fixed-point', f'step {c.k}: iterations of the preparation converged, but the {q} residual at the prepared point is {R[q]:.2e} (stage {R["where"].get(q)})')
                c.cmp += 1
                c.dig.append(W.dig(a))
        if B:
            B.set_iterate(wlin)
            L = B if c.phase(B, 1) == 0 and c.phase(B, 2) == 0 else None     # (the gradient enters the QP in the feedback phase)
        c.x0(A, st)
        fa = c.phase(A, 2)
        if fa:
            return
        if n > 10:
            c.x0(T, st)
            T.set_iterate(wlin)      # same linearization point
            if c.phase(T, 2):
                return
            T.set_iterate(A.iterate())


def run_L(c):
    A = c.inst(it=min(c.p['iter'], 3))
    for c.k, st in enumerate(c.p['steps']):
        if c.p['level'] in (STD, 3) or c.k == 0:
            for op in st['ops']:
                A.apply(op)
        if c.k == 0:
            c.x0(A, st, 'x0')
        r = c.phase(A, 1)
        if r:
            if r != 4:
                c.bad('preparation-status', f'step {c.k}: preparation returns {r}')
            return
        c.x0(A, st)
        if c.phase(A, 2):
            return
        it = A.iterate()
        R = kkt.oracle(c.name).residuals(it, A.d)
        a = vec(it)
        c.dig.append(W.dig(a))
        tol = 2e-5 * (1 + max(np.max(np.abs(v), initial=0) for v in a.values()))
        for q in ('stat', 'eq', 'ineq', 'comp'):
            if not R[q] <= (10 * tol if q == 'comp' else tol):
                c.bad('lq-not-optimal', f'step {c.k}: feedback of the linear-quadratic problem has {q} residual {R[q]:.2e} (stage {R["where"].get(q)})')
        c.cmp += 1


def run_F(c):
    """honest status: success only with a finite iterate and no failed QP"""
    A = c.inst()
    nq = 0
    last = None
    for c.k, st in enumerate(c.p['steps']):
        for op in st['ops']:
            A.apply(op)
        if c.k == 0:
            c.x0(A, st, 'x0')
        for ph, where in ((1, 'prep'), (2, 'feed')):
            if ph == 2:
                c.x0(A, st)
            i0 = vec(A.iterate())
            n0 = c.s.qp_failed()
            r = c.phase(A, ph, st, where)
            failed = c.s.qp_failed() - n0
            t = np.array(A.s.get_stats('statistics'))
            c.dig.append(W.dig({'i': np.array([r]), **vec(A.iterate())}))
            if r not in (0, 4):
                c.bad('status-unknown', f'step {c.k} {where}: status {r}')
            if failed and r != 4:
                c.bad('qp-failure-hidden', f'step {c.k} {where}: the QP solver failed, status {r}')
            if not failed and r != 0:
                c.bad('success-reported-as-failure', f'step {c.k} {where}: no QP failed in this phase, status {r}')
            if r == 0 and all(np.isfinite(v).all() for v in i0.values()) and not finite(A):
                c.bad('success-not-finite', f'step {c.k} {where}: success with a non-finite iterate')
            c.cmp += 1
            if r or 'fn' in st:
                d = None
                if ph == 2 or c.p['level'] == STD:
                    d = W.diff(i0, vec(A.iterate())) if r else None
                if d and failed:
                    c.bad('failed-step-changes-iterate', f'step {c.k} {where}: {d}')
            if not finite(A):
                return


RUN = {'S': run_split, 'Q': run_sqp, 'D': run_D, 'A': run_A, 'B': run_BC, 'C': run_BC, 'L': run_L, 'F': run_F}


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(p['thr'], 8)
    c = Ctx(p, s)
    try:
        RUN[p['kind']](c)
    except Violation as v:
        c.res['violation'] = {'sig': v.sig, 'msg': v.msg}
    c.res['obs'] = W.dig({str(i): d for i, d in enumerate(c.dig)}) if False else '|'.join(c.dig)
    if trace:
        c.res['trace'] = s.trace_text()
    return W.add_stats(c.res, s, {'nontrivial': c.cmp > 0, 'states': c.dig})
