"""The stored iterates and the statistics of a solve are the history that took place."""
import ctypes
import numpy as np
from dst import zoo, kkt, world as W
from dst.engine import Violation

PROBLEMS = [n for n in zoo.LOGGED if n in zoo.REG]
RUNS = {'quick': 2400, 'thorough': 30000}
LIMIT = {'quick': 105, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a history of data changes, guesses, option changes and solves under model-function and QP-solver faults; after each solve all stored iterates, step norms and statistics rows are judged; non-trivial if a solve made at least two iterations'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime', 'clock', 'heap (released memory scrambled)', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['residual columns are compared with the independent oracle at the stored iterate; implicit integrators may differ by their Newton tolerance']
FIELDS = ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam')
HP = {0: 0, 1: 2, 2: 3, 3: 1, 4: 9}


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in PROBLEMS:
        kkt.oracle(n)


def plan(seed, tier):
    r = W.rnd(seed, 'p17')
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    ops = []
    for _ in range(r.choice([1, 2, 2, 3])):
        for _ in range(r.randint(0, 3)):
            ops.append(W.gen_data_op(r, m, scale=r.choice([.1, .4, 1.])))
        if r.random() < .7:
            for _ in range(r.randint(1, 3)):
                ops.append(W.gen_iter_op(r, m, r.choice([.1, .5, 2.])))
        if r.random() < .4:
            ops.append(['opt', 'max_iter', r.randint(0, 12)])
        if r.random() < .3:
            ops.append(['opt', r.choice(W.TOLS), 10. ** r.uniform(-7, -1)])
        if r.random() < .3 and m.ocp.solver_options.globalization == 'FIXED_STEP' and not m.ocp.solver_options.with_anderson_acceleration:
            ops.append(['opt', 'globalization_fixed_step_length', r.choice([.5, .8, 1.])])
        if r.random() < .1:
            ops.append(['opt', 'warm_start_first_qp', r.randint(0, 1)])
        if r.random() < .15:
            ops.append(['reset', True, False, False, False])
        ops.append(['solve', r.getrandbits(30)])
    faults = []
    if r.random() < .5:
        for _ in range(r.randint(1, 2)):
            if r.random() < .4:
                a = int(2 ** r.uniform(0, 12))
                faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 0, 3, 40]), 'kind': r.choice([1, 2]), 'arg': 0, 'name': ''})
            else:
                a = int(2 ** r.uniform(0, 5)) - 1
                faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 0, 1, 3]), 'kind': r.choice([1, 2, 3, 4, 6, 6]), 'arg': r.randint(0, 4)})
    return {'seed': seed, 'tier': tier, 'problem': name, 'ops': ops, 'faults': faults, 'scramble': 1}


def opts_set(I, name, v):
    c = {float: ctypes.c_double, int: ctypes.c_int, bool: ctypes.c_bool}[type(v)](v)
    I.s._AcadosOcpSolver__acados_lib.ocp_nlp_solver_opts_set(I.s.nlp_config, I.s.nlp_opts, name.encode(), ctypes.byref(c))


def run(s, p, upto, trunc=None):
    """the program up to operation upto (a solve), with the last solve ended after trunc iterations"""
    s.faults_clear()
    I = W.Inst(p['problem'])
    W.arm(s, p['faults'])
    for i, op in enumerate(p['ops'][:upto + 1]):
        if i < upto or trunc is None:
            if op[0] == 'solve':
                yield_before = (s.fn_fired() + s.qp_fired())
                s.L.sim_qlog_clear()
                I.apply(['solve'])
                if i == upto or trunc is None:
                    yield i, I, s.fn_fired() + s.qp_fired() - yield_before
            else:
                I.apply(op)
        else:
            opts_set(I, 'eval_residual_at_max_iter', True)
            I.s.options_set('max_iter', trunc)
            I.apply(['solve'])
            yield i, I, 0


def qp_res(I):
    """inf-norms of the residuals of the last QP at the solution that the QP solver returned, from the QP of the failed iteration"""
    L, C = I.s._AcadosOcpSolver__acados_lib, ctypes
    P = {}
    for f in ('qp_in', 'qp_out'):
        v = C.c_void_p()
        L.ocp_nlp_get(I.s.nlp_solver, f.encode(), C.byref(v))
        P[f] = v.value
    dim = C.cast(P['qp_in'], C.POINTER(C.c_void_p))[0]
    mem = []
    def make(what):
        size, assign = getattr(L, f'ocp_qp_res_{what}calculate_size'), getattr(L, f'ocp_qp_res_{what}assign')
        size.restype, size.argtypes = C.c_size_t, [C.c_void_p]
        assign.restype, assign.argtypes = C.c_void_p, [C.c_void_p, C.c_void_p]
        mem.append(C.create_string_buffer(size(dim) + 128))
        return assign(dim, (C.addressof(mem[-1]) + 63) & ~63)
    r, w = make(''), make('workspace_')
    L.ocp_qp_res_compute.argtypes = [C.c_void_p] * 4
    L.ocp_qp_res_compute(P['qp_in'], P['qp_out'], r, w)
    o = np.zeros(4)
    L.ocp_qp_res_compute_nrm_inf.argtypes = [C.c_void_p] * 2
    L.ocp_qp_res_compute_nrm_inf(r, o.ctypes.data)
    return o


def dist(a, b, fields):
    return max((np.max(np.abs(p - q), initial=0.) for f in fields for p, q in zip(getattr(a, f), getattr(b, f))), default=0.)


def finite(it):
    return all(np.all(np.isfinite(v)) for f in FIELDS for v in getattr(it, f))


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    name = p['problem']
    m = W.meta(name)
    so = m.ocp.solver_options
    O = kkt.oracle(name)
    extra = kkt.IMPL.get(name, 0.)
    solves = [i for i, o in enumerate(p['ops']) if o[0] == 'solve']
    states, nt = [], False
    probe = []
    if not solves:
        return W.add_stats({'violation': None}, s, {'nontrivial': False, 'states': []})
    for i, I, fired in run(s, p, solves[-1]):
        S = I.s
        n = int(S.get_stats('nlp_iter'))
        tag = f'{name}: op {i} (status {I.status}, {n} iterations): '
        st = np.array(S.get_stats('statistics'))
        H = S.get_iterates().iterate_list
        Q = [divmod(s.L.sim_qlog(j), 1000) for j in range(min(s.L.sim_qlog_n(), 1024))]
        nt = nt or n > 1
        states.append((int(I.status), n, W.dig({'s': st})))
        if len(H) != n + 1:
            raise Violation('iterate-count', tag + f'{len(H)} iterates')
        # first and last iterate
        last = I.iterate()
        for f in FIELDS:
            for k, (a, b) in enumerate(zip(getattr(H[n], f), last[f])):
                if not np.array_equal(a, b, equal_nan=True):
                    raise Violation('final-iterate', tag + f'{f} of stage {k} in the last iterate differs from the iterate of the solver')
        # table
        if st.shape[1] != n + 1:
            raise Violation('table-rows', tag + f'{st.shape[1]} rows')
        if not np.array_equal(st[0], np.arange(n + 1)):
            raise Violation('table-index', tag + f'{st[0]}')
        mi = int(I.opts.get('max_iter', so.nlp_solver_max_iter))
        if m.nlp == 'SQP' and n <= 1000:
            col = st[5], st[6]
            nq = len(Q)
            for j in range(1, n + 1):
                if j <= nq and (HP[Q[j - 1][0]], Q[j - 1][1]) != (col[0][j], col[1][j]) and not so.qp_solver_mu0 and so.globalization != 'MERIT_BACKTRACKING':
                    raise Violation('qp-columns', tag + f'row {j}: QP status {col[0][j]:g}, {col[1][j]:g} iterations; the QP solver returned status {HP[Q[j - 1][0]]} after {Q[j - 1][1]} iterations')
        # QP residuals of a failed QP (the QP data of the iteration are still in memory)
        if I.status == 4 and m.nlp == 'SQP' and 1 <= n < 1000 and so.nlp_solver_ext_qp_res and so.regularize_method == 'NO_REGULARIZE' \
                and so.qpscaling_scale_objective == 'NO_OBJECTIVE_SCALING' and so.qpscaling_scale_constraints == 'NO_CONSTRAINT_SCALING' and not so.tau_min:
            R = qp_res(I)
            if not np.allclose(R, st[8:12, n], rtol=1e-6, atol=1e-13, equal_nan=True):
                raise Violation('qp-residual-columns', tag + f'row {n}: QP residuals {list(st[8:12, n])}, those of the failed QP are {list(R)}')
        # residual columns and step norms
        fail = I.status != 0
        for k in range(n + 1) if name != 'lifted' else ():       # (the lifted integrator is only exact at the solution)
            it = H[k]
            if k == n and (I.status in (1, 2, 4) or fail):
                continue          # residuals of the last iterate are not evaluated
            if not finite(it) or not np.all(np.isfinite(st[1:5, k])) or fired:
                continue
            d = {f: getattr(it, f) for f in FIELDS}
            with np.errstate(all='ignore'):
                R = O.residuals(d, I.d)
            cols = ('stat', 'eq', 'ineq', 'comp') if m.nlp != 'DDP' else ('stat', 'eq')
            tol = 1e-9 + 10 * extra * (1 + max((np.max(np.abs(v), initial=0) for v in it.pi), default=0))
            for c, q in enumerate(cols):
                if not abs(R[q] - st[1 + c, k]) <= 1e-6 * abs(R[q]) + tol:
                    raise Violation('residual-column', tag + f'row {k}: {q} residual {st[1 + c, k]!r}, at the stored iterate it is {R[q]!r}')
        if m.nlp != 'DDP':
            pn, dn = S.get_stats('primal_step_norm'), S.get_stats('dual_step_norm')
            al = st[7] if m.nlp == 'SQP' else st[11]
            for k in range(n):
                if not (finite(H[k]) and finite(H[k + 1])):
                    continue
                if I.status == 4 and k == n - 1 and m.nlp == 'SQP':
                    # the step was not computed
                    if not np.isnan(pn[k]) and pn[k] != 0:
                        raise Violation('step-norm', tag + f'step norm {pn[k]!r} of an iteration whose QP failed')
                    continue
                dx = dist(H[k], H[k + 1], ('x', 'u', 'sl', 'su'))
                big = 1 + max(np.max(np.abs(v), initial=0) for f in ('x', 'u', 'sl', 'su') for v in getattr(H[k], f))
                a = 1. if so.with_anderson_acceleration else al[k + 1]
                if not 0 < a <= 1:
                    raise Violation('alpha', tag + f'row {k + 1}: step size {a!r}')
                if not abs(a * pn[k] - dx) <= 1e-9 * (1 + abs(dx)) + 1e-12 * big:
                    raise Violation('step-norm', tag + f'iteration {k}: primal step norm {pn[k]!r} and step size {a!r}, but the iterate changed by {dx!r}')
                if so.globalization == 'FIXED_STEP' and a != I.opts.get('globalization_fixed_step_length', so.globalization_fixed_step_length):
                    raise Violation('alpha', tag + f'row {k + 1}: step size {a!r}')
                dl = dist(H[k], H[k + 1], ('pi', 'lam'))
                big = 1 + max(np.max(np.abs(v), initial=0) for f in ('pi', 'lam') for h in (H[k], H[k + 1]) for v in getattr(h, f))
                b = 1. if so.globalization_full_step_dual else a
                if not abs(b * dn[k] - dl) <= 1e-9 * (1 + abs(dl)) + 1e-12 * big:
                    raise Violation('step-norm', tag + f'iteration {k}: dual step norm {dn[k]!r} and step size {b!r}, but the multipliers changed by {dl!r}')
        if m.nlp == 'SQP_WITH_FEASIBLE_QP':
            pass
        probe.append((i, n, H, st, int(I.status)))
    # truncated executions give the earlier iterates
    r = np.random.RandomState(p['seed'] % 2**31)
    for i, n, H, st, status in probe:
        if n < 1:
            continue
        for k in {0, int(r.randint(0, n)), n - 1}:
            for _, I, _ in run(s, p, i, k):
                pass
            it = I.iterate()
            tag = f'{name}: op {i} (status {status}, {n} iterations): '
            for f in FIELDS:
                for j, (a, b) in enumerate(zip(getattr(H[k], f), it[f])):
                    if not np.array_equal(a, b, equal_nan=True):
                        raise Violation('stored-iterate', tag + f'{f} of stage {j} in iterate {k} differs from the iterate of an execution ended after {k} iterations')
            st2 = np.array(I.s.get_stats('statistics'))
            a, b = st[:, :k + 1], st2[:, :k + 1]
            if m.nlp == 'SQP_WITH_FEASIBLE_QP':
                a, b = a[:, :k], b[:, :k]
            if not np.array_equal(a, b, equal_nan=True):
                w = np.argwhere(~((a == b) | (np.isnan(a) & np.isnan(b))))[0]
                raise Violation('table-prefix', tag + f'row {w[1]} column {w[0]}: {a[tuple(w)]!r}, in an execution ended after {k} iterations {b[tuple(w)]!r}')
    return W.add_stats({'violation': None, 'obs': W.dig({str(j): repr(x) for j, x in enumerate(states)})}, s, {'nontrivial': nt, 'states': states, **({'trace': s.trace_text()} if trace else {})})
