"""Once faults stop, a solver converges as a new solver does: no failure leaves hidden damage."""
import numpy as np
from dst import zoo, kkt, world as W
from dst.engine import Violation

PROBLEMS = list(zoo.REG)
RUNS = {'quick': 3200, 'thorough': 40000}
LIMIT = {'quick': 105, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a history of calls under model-function, QP-solver and time faults, which then stop; the solver continues without reset from its (finite, or newly set) iterate and has to converge about as fast as a new solver does from there; non-trivial if a fault hit a call of the history'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime', 'clock', 'heap (released memory scrambled)', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['a new solver with the same data, options and iterate tells whether the problem can be solved from there']


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in PROBLEMS:
        kkt.oracle(n)


def plan(seed, tier):
    r = W.rnd(seed, 'p15')
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        for _ in range(r.randint(0, 3)):
            ops.append(W.gen_data_op(r, m, scale=r.choice([.1, .4])))
        if r.random() < .5:
            ops.append(W.gen_iter_op(r, m, r.choice([.1, .5, 2.])))
        if r.random() < .15 and m.ocp.solver_options.as_rti_level != 0:      # (level A continues from a copy of the iterate of its own)
            ops.append(['setv', r.choice(['x', 'u', 'pi', 'lam', 'z'][:5 if m.dim('z', 0) else 4]), r.randrange(m.N), r.choice(['nan', 'inf'])])
        if r.random() < .15:
            ops.append(['opt', 'warm_start_first_qp', r.randint(0, 1)])
        if r.random() < .2:
            ops.append(['opt', 'qp_warm_start', r.randint(0, 2)])
        if m.nlp == 'SQP_RTI' and r.random() < .3:
            ops.append(['phase', r.choice([1, 2])])
        ops.append(['step'])
        if r.random() < .1:
            ops.append(['reset', r.random() < .7, False, False, False])
    faults = []
    for _ in range(r.randint(1, 3)):
        q = r.random()
        if q < .5:
            a = int(2 ** r.uniform(0, 11))
            faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 0, 3, 40, 100000]), 'kind': r.choice([1, 1, 2, 5]), 'arg': r.choice([1., 10.]), 'name': ''})
        elif q < .6:
            faults.append({'t': 'fnc', 'mod': (mod := r.choice([40, 200, 1000])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 5]), 'arg': 3., 'name': ''})
        else:
            a = int(2 ** r.uniform(0, 5)) - 1
            faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 0, 1, 3, 1000]), 'kind': r.choice([1, 2, 2, 3, 4, 6]), 'arg': r.randint(0, 4)})
    return {'seed': seed, 'tier': tier, 'problem': name, 'ops': ops, 'faults': faults, 'guess': r.choice(['keep', 'keep', 'zero', 'near', 'near']), 'gseed': r.getrandbits(30), 'scramble': 1}


def finite(it):
    return all(np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e3) for f in W.OUT for v in it[f])


def converge(I, O, extra, calls, limit):
    """-> (status or None, iterations, calls)"""
    n = ok = 0
    for c in range(calls):
        st = I.apply(['step'])
        if I.m.nlp == 'SQP_RTI' and I.m.ocp.solver_options.as_rti_level != 4:
            # some levels do not converge to a solution: the calls have to succeed
            n += 1
            ok = ok + 1 if st == 0 and all(np.all(np.isfinite(v)) for f in W.OUT for v in I.iterate()[f]) else 0
            if ok == 3:
                return 0, n, c + 1
        elif I.m.nlp == 'SQP_RTI':
            n += 1
            it = I.iterate()
            if st == 0 and all(np.all(np.isfinite(v)) for f in W.OUT for v in it[f]):
                R = O.residuals(it, I.d)
                if max(R[q] for q in ('stat', 'eq', 'ineq', 'comp')) < 1e-4 + 10 * extra:
                    return 0, n, c + 1
        else:
            n += int(I.s.get_stats('nlp_iter'))
            if st == 0:
                return 0, n, c + 1
        if n > limit:
            break
    return st if st else -1, n, c + 1


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    name = p['problem']
    A = W.Inst(name)
    m = A.m
    O = kkt.oracle(name)
    extra = kkt.IMPL.get(name, 0.)
    W.arm(s, p['faults'])
    hist = []
    for op in p['ops']:
        v = A.apply(op)
        if op[0] in ('step', 'phase'):
            hist.append(int(v))
    fired = s.fn_fired() + s.qp_fired()
    s.faults_clear()
    if A.opts.get('qp_warm_start') == 2 and A.opts.get('warm_start_first_qp'):
        A.apply(['opt', 'warm_start_first_qp', 0])      # the interior point method need not recover from a hot start at a bad point
    it = A.iterate()
    mode = p['guess']
    if mode == 'keep' and not finite(it):
        mode = 'zero'
    rs = np.random.RandomState(p['gseed'])
    if mode != 'keep':
        it = {f: [np.zeros(len(v)) for v in it[f]] for f in W.OUT}
        for k in range(m.N + 1):
            if m.has_x0 and k <= m.N and len(it['x'][k]) == len(A.d[0]['lbx']):
                it['x'][k] = np.array(A.d[0]['lbx'])
            if mode == 'near':
                it['x'][k] = it['x'][k] + .05 * rs.randn(len(it['x'][k]))
        A.set_iterate(it)
    tag = f'{name}: after calls that returned {hist} ({fired} faults), going on from {"the iterate they left" if mode == "keep" else "a new guess"}: '
    B = W.Inst(name)
    B.push(A)
    B.set_iterate(it)
    st2, n2, c2 = converge(B, O, extra, 12 if m.nlp == 'SQP_RTI' else 1, 10**6)
    res = {'violation': None}
    st = None
    if st2 == 0:
        lim = 2 * n2 + 6
        st, n, c = converge(A, O, extra, lim if m.nlp == 'SQP_RTI' else 3, lim)
        if st != 0:
            res['violation'] = {'sig': 'no-recovery', 'msg': tag + f'status {st} after {n} iterations in {c} calls; a new solver converges in {n2}'}
        elif n > lim:
            res['violation'] = {'sig': 'slow-recovery', 'msg': tag + f'{n} iterations in {c} calls; a new solver needs {n2}'}
        elif m.ocp.solver_options.as_rti_level == 4 or m.nlp != 'SQP_RTI':
            R = O.residuals(A.iterate(), A.d)
            w = max(R[q] for q in ('stat', 'eq', 'ineq', 'comp'))
            R2 = O.residuals(B.iterate(), B.d)
            w2 = max(R2[q] for q in ('stat', 'eq', 'ineq', 'comp'))
            if not w <= 100 * w2 + 2e-3 + 100 * extra:
                res['violation'] = {'sig': 'recovered-wrong', 'msg': tag + f'residual {w:.3e}; a new solver reaches {w2:.3e}'}
    res['obs'] = W.dig({'a': np.array([st2, n2, -9 if st is None else st])})
    if trace:
        res['trace'] = s.trace_text()
    return W.add_stats(res, s, {'nontrivial': fired > 0 and st2 == 0, 'states': [(name, mode, tuple(hist), st2, n2)]})
