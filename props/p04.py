"""A success status is only returned at points that satisfy the optimality conditions."""
from dst import zoo, world as W, simlib, kkt
from dst.engine import Violation
import numpy as np

PROBLEMS = [n for n in zoo.REG if n not in zoo.RTI]
RUNS = {'quick': 4000, 'thorough': 20000}
LIMIT = {'quick': 135, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a history of data changes, initial guesses and solves under model-function, QP-solver and clock faults; non-trivial if at least one solve iterated (nlp_iter > 0) and its returned status was judged against the independent KKT oracle; distinct by event hash'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime', 'clock', 'heap', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['the oracle integrates the model with the same Runge-Kutta scheme in CasADi, to 1e-13; implicit schemes in the solver may differ by their Newton tolerance (1e-6 allowed)']
IMPL, oracle = kkt.IMPL, kkt.oracle


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in PROBLEMS:
        oracle(n)


TOLS = ('tol_stat', 'tol_eq', 'tol_ineq', 'tol_comp')


def plan(seed, tier):
    r = W.rnd(seed, 'p04')
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    ops = []
    for _ in range(r.randint(1, 4)):
        for _ in range(r.randint(0, 4)):
            ops.append(W.gen_data_op(r, m, scale=r.choice([.3, 1., 2.])))
        if r.random() < .5:
            for _ in range(r.randint(1, 3)):
                ops.append(W.gen_iter_op(r, m, r.choice([.1, .5, 2., 10.])))
        if r.random() < .1:
            ops.append(['setv', r.choice(['x', 'u']), r.randrange(m.N), r.choice(['nan', 'inf', '1e8', '-1e150'])])
        if r.random() < .4:
            ops.append(['opt', r.choice(TOLS), 10. ** r.uniform(-7, -1)])
        if r.random() < .4:
            ops.append(['opt', 'max_iter', r.randint(0, 25)])
        if r.random() < .15:
            ops.append(['reset', True, False, False, False])
        if r.random() < .1:
            ops.append(['opt', 'warm_start_first_qp', r.randint(0, 1)])
        if r.random() < .1:
            ops.append(['opt', 'qp_warm_start', r.randint(0, 2)])
        if r.random() < .2 and m.ocp.solver_options.globalization == 'FIXED_STEP':
            ops.append(['opt', 'globalization_fixed_step_length', r.choice([.5, .8, 1.])])
        ops.append(['solve'])
        if r.random() < .3:
            ops.append(['solve'])
    faults = []
    if r.random() < .6:
        for _ in range(r.randint(1, 3)):
            q = r.random()
            if q < .35:
                a = int(2 ** r.uniform(0, 12))
                faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 0, 3, 40, 100000]), 'kind': r.choice([1, 1, 2]), 'arg': 0, 'name': ''})
            elif q < .5:
                faults.append({'t': 'fnc', 'mod': (mod := r.choice([40, 200, 1000, 5000])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2]), 'arg': 0, 'name': ''})
            else:
                a = int(2 ** r.uniform(0, 6)) - 1
                faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 0, 1, 3, 1000]), 'kind': r.choice([1, 2, 3, 4, 6, 6]), 'arg': r.randint(0, 4)})
    return {'seed': seed, 'tier': tier, 'problem': name, 'ops': ops, 'faults': faults, 'scramble': 1,
            'jumps': [[int(2 ** r.uniform(0, 9)), r.choice([-1, 1]) * int(10 ** r.uniform(6, 13))] for _ in range(r.choice([0, 0, 1, 2]))]}


def finite(o):
    return all(np.all(np.isfinite(o[f])) for f in W.OUT)


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    I = W.Inst(p['problem'])
    m = I.m
    so = m.ocp.solver_options
    tol = {t: float(getattr(so, 'nlp_solver_' + t)) for t in TOLS}
    maxit = int(so.nlp_solver_max_iter)
    W.arm(s, p['faults'])
    seen = []
    states = []
    nt = False
    prev_ok = None
    O = oracle(p['problem'])
    extra = IMPL.get(p['problem'], 0.)
    for i, op in enumerate(p['ops']):
        if op[0] == 'opt':
            if op[1] in TOLS:
                tol[op[1]] = op[2]
            if op[1] == 'max_iter':
                if op[2] > maxit:
                    continue
                curmax = op[2]
        f0 = s.fn_fired() + s.qp_fired(); q0 = s.qp_fired()
        st = I.apply(op)
        if op[0] != 'solve':
            prev_ok = None if op[0] not in ('getall',) else prev_ok
            continue
        fired = s.fn_fired() + s.qp_fired() - f0
        o = I.obs()
        tag = f'{p["problem"]}: op {i}: '
        it = I.iterate()
        states.append(W.dig(o))
        nit = o['nlp_iter']
        mi = I.opts.get('max_iter', maxit)
        nt = nt or nit > 0
        stat = np.array(I.s.get_stats('statistics'))
        if st != o['status']:
            raise Violation('status-mismatch', tag + f'solve returned {st}, get_status {o["status"]}')
        if not 0 <= nit <= mi + (st == 4):
            raise Violation('iteration-count', tag + f'nlp_iter {nit} with max_iter {mi}')
        fin = finite(o)
        if fin:
            with np.errstate(all='ignore'):
                R = O.residuals(it, I.d)
        else:
            R = dict(stat=np.inf, eq=np.inf, ineq=np.inf, comp=np.inf, cost=np.nan, where={})
        res = dict(zip(('stat', 'eq', 'ineq', 'comp'), o['res']))
        if st == 0:
            if not fin:
                raise Violation('success-nonfinite', tag + 'success returned with a non-finite iterate')
            for q in ('stat', 'eq', 'ineq', 'comp'):
                t = tol['tol_' + q]
                if not R[q] <= t * (1 + 1e-6) + 1e-9 + extra * (1 + np.max(np.abs(o['pi']), initial=0)):
                    raise Violation('success-not-optimal', tag + f'success returned but {q} residual is {R[q]:.3e} > {t:.3e} (solver reports {res[q]:.3e}; stage {R["where"].get(q)})')
                if not res[q] <= t:
                    raise Violation('success-reported-residual', tag + f'success returned with reported {q} residual {res[q]:.3e} > {t:.3e}')
            if not fired:
                c = I.s.get_cost()
                if s.fn_fired() + s.qp_fired() == f0 and not abs(c - R['cost']) <= 1e-7 * (1 + abs(c)) + 10 * extra * (1 + abs(c)):
                    raise Violation('cost-value', tag + f'reported cost {c!r}, oracle {R["cost"]!r}')
                for q in ('stat', 'eq', 'ineq', 'comp'):
                    if not abs(R[q] - res[q]) <= 1e-6 * abs(R[q]) + 1e-9 + 10 * extra * (1 + np.max(np.abs(o['pi']), initial=0)):
                        raise Violation('reported-residual', tag + f'reported {q} residual {res[q]!r}, oracle {R[q]!r}')
        elif st == 1:
            if fin and np.all(np.isfinite(o['res'])) and not fired and np.all(np.isfinite(stat)):
                raise Violation('nan-status', tag + 'NaN status but everything is finite')
        elif st == 2:
            if nit != mi:
                raise Violation('maxiter-status', tag + f'maximum-iterations status after {nit} of {mi} iterations')
        elif st == 4 and m.nlp == 'SQP':
            qs = int(I.s.get_stats('qp_stat')[-1]) if nit else 0
            if nit and qs in (0,):
                raise Violation('qp-failure-status', tag + f'QP failure status but last QP status is {qs}')
        elif st == 7:
            raise Violation('timeout-status', tag + 'timeout status without a time limit')
        elif st not in (1, 2, 3, 4, 6, 8, 9):
            raise Violation('unknown-status', tag + f'status {st}')
        # solving again from a converged point, nothing changed, no faults: returns immediately
        if st == 0 and prev_ok is not None and not fired and prev_ok[0] == 0 and not prev_ok[2]:
            if all(prev_ok[1][q] < .3 * tol['tol_' + q] - extra for q in ('stat', 'eq', 'ineq', 'comp')) and nit != 0:
                raise Violation('resolve-not-immediate', tag + f'solve at a converged point needed {nit} iterations')
        prev_ok = (st, R, fired)
    if trace:
        pass
    res = {'violation': None, 'obs': W.dig({str(i): h for i, h in enumerate(states)})}
    if trace:
        res['trace'] = s.trace_text()
    return W.add_stats(res, s, {'nontrivial': nt, 'states': states})
