"""A time limit ends a solve exactly where the documented rule says, measured in elapsed time, and with an honest result."""
import ctypes
from dst import zoo, world as W
from dst.engine import Violation

PROBLEMS = list(['erk', 'irkdae', 'merit', 'gnsf', 'disc', 'bgp', 'funnel', 'lifted', 'mhe', 'mocp', 'wfqp', 'rtisqp', 'slackb', 'costint', 'costconl', 'fixhess', 'anders'])
RUNS = {'quick': 2400, 'thorough': 9000}
LIMIT = {'quick': 120, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run executes solves under a time limit on a simulated clock (function, QP and stall costs and wall clock steps chosen by the seed) and predicts where each must stop from truncated executions of the same program; non-trivial if at least one solve ran into its limit; distinct by event hash'
MEASURE = 'solve endings (heuristic, outcome, iteration)'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['clock (elapsed and wall time under seed control)', 'OpenMP runtime', 'heap', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['limits closer than 2 microseconds to a decision boundary are not judged']
HEUR = ['MAX_CALL', 'MAX_OVERALL', 'LAST', 'AVERAGE', 'ZERO']
US = 1000


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in PROBLEMS:
        W.meta(n)


def plan(seed, tier):
    r = W.rnd(seed, 'p03')
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    faults = []
    for _ in range(r.choice([0, 1, 2, 4])):
        a = int(2 ** r.uniform(0, 9))
        faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 0, 2, 20]), 'kind': 3, 'arg': US * int(10 ** r.uniform(0, 6)), 'name': ''})
    for _ in range(r.choice([0, 1, 2])):
        a = int(2 ** r.uniform(0, 4)) - 1
        faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 1]), 'kind': 5, 'arg': US * int(10 ** r.uniform(0, 6))})
    if r.random() < .3:
        faults += W.gen_faults(r, 1., False)[:1]
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        for _ in range(r.randint(0, 2)):
            ops.append(W.gen_data_op(r, m, scale=.4))
        ops.append(W.gen_iter_op(r, m, r.choice([.1, .5, 1.])))
        if r.random() < .3:
            ops.append(['opt', 'max_iter', r.randint(1, 15)])
        ops.append(['solve', r.choice([0, 1, 1, 1, 1, 1]) and r.random()])
    return {'seed': seed, 'tier': tier, 'problem': name, 'ops': ops, 'faults': faults, 'heur': r.randrange(5), 'fn': US * r.choice([1, 3, 20]), 'qp': US * r.choice([1, 10, 200]),
            'wall': r.choice([0, 10**15, 1_700_000_000 * 10**9]), 'jumps': sorted([r.randrange(300), r.choice([-1, 1]) * US * int(10 ** r.uniform(1, 10))] for _ in range(r.choice([0, 0, 1, 3])))}


def opts_set(I, name, v):
    ct = {float: ctypes.c_double, int: ctypes.c_int, bool: ctypes.c_bool}[type(v)](v)
    I.s._AcadosOcpSolver__acados_lib.ocp_nlp_solver_opts_set(I.s.nlp_config, I.s.nlp_opts, name.encode(), ctypes.byref(ct))


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    name, heur = p['problem'], HEUR[p['heur']]
    ops = p['ops']
    solves = [i for i, o in enumerate(ops) if o[0] == 'solve']
    limits = {}

    def world(upto, trunc, jumps=False):
        """run the program; the last solve (op upto) without limit and with at most `trunc` iterations if trunc is not None"""
        s.faults_clear()
        s.clock_cfg(10**9, p['wall'], 0)
        s.cost(p['fn'], 0, p['qp'], 0)
        if jumps:
            for at, d in p['jumps']:
                s.clock_jump(at, d)
        I = W.Inst(name)
        W.arm(s, p['faults'])
        opts_set(I, 'timeout_heuristic', p['heur'])
        opts_set(I, 'eval_residual_at_max_iter', True)
        mi = mi0 = int(I.m.ocp.solver_options.nlp_solver_max_iter)
        out = []
        for i, op in enumerate(ops[:upto + 1]):
            if op[0] == 'opt':
                mi = min(mi0, op[2])
            if op[0] != 'solve':
                I.apply(op)
                continue
            last = i == upto and trunc is not None
            opts_set(I, 'timeout_max_time', 0. if last else limits[i])
            if last:
                I.s.options_set('max_iter', min(mi, trunc))
            t0 = s.mono()
            st = I.s.solve()
            o = I.obs(stats=False)
            out.append((st, s.mono() - t0, I.s.get_stats('nlp_iter'), o, float(I.s.get_stats('time_tot')), mi))
        return out
    if not solves:
        return W.add_stats({'violation': None}, s, {'nontrivial': False, 'states': []})
    expect = {}
    overall = 0
    states, hit = [], 0
    for i in solves:
        # reference: where the checks of this solve happen, without limit
        T, chk, nat = [], [], None
        k = 0
        while True:
            st, el, it, o, tt, mi = world(i, k)[-1]
            if st != 2 or k >= mi:
                nat = (st, el, it, o, k)
                break
            T.append(el)
            chk.append((el, it, o))
            k += 1
        f = ops[i][1]
        span = max(nat[1], 1)
        lim = int(f * 1.3 * span) // US * US + US if f else 0
        limits[i] = lim * 1e-9
        est = overall if heur == 'MAX_OVERALL' else 0
        where, edge = None, False
        # the last entry: the natural end, decided in a check of its own unless the iteration failed
        checked = nat[2] == k and nat[0] != 4
        T2 = T + [nat[1]]
        seen = []
        for j, t in enumerate(T2 if lim else []):
            if j == len(T) and not checked:
                break
            if j:
                d = t - T2[j - 1]
                seen.append(d)
                est = {'MAX_CALL': max(est, d), 'MAX_OVERALL': max(est, d), 'LAST': d, 'AVERAGE': d if j == 1 else .5 * d + .5 * est, 'ZERO': 0}[heur]
            if j == len(T):
                break
            if abs(t + est - lim) < 2 * US:
                edge = True
                break
            if t + est >= lim:
                where = j
                break
        got = world(i, None, True)[-1]
        tag = f'{name}: solve {i} ({heur}, limit {lim / 1e9:g} s): '
        if edge:
            break
        if where is None:
            exp = (nat[0], nat[1], nat[2], nat[3])
        else:
            exp = (7, chk[where][0], chk[where][1], chk[where][2])
            hit += 1
        if got[0] != exp[0]:
            kind = 'late-timeout' if exp[0] == 7 else 'early-timeout' if got[0] == 7 else 'wrong-status'
            raise Violation(kind, tag + f'returned status {got[0]} after {got[1] / 1e9:g} s and {got[2]} iterations, expected status {exp[0]} after {exp[1] / 1e9:g} s and {exp[2]} iterations; elapsed at the checks: {[t / 1e9 for t in T2]}')
        if got[2] != exp[2] or got[1] != exp[1]:
            raise Violation('wrong-end', tag + f'stopped after {got[2]} iterations and {got[1] / 1e9:g} s instead of {exp[2]} and {exp[1] / 1e9:g} s (status {got[0]})')
        drop = ('ret', 'status', 'time_tot')
        d = W.diff({k: v for k, v in exp[3].items() if k not in drop}, {k: v for k, v in got[3].items() if k not in drop})
        if d:
            raise Violation('timeout-iterate', tag + f'iterate of the limited solve differs from the execution truncated at iteration {exp[2]}: {d}')
        if abs(got[4] - got[1] / 1e9) > 2e-6:
            raise Violation('time_tot', tag + f'reported time {got[4]:g} s, elapsed {got[1] / 1e9:g} s')
        states.append((heur, got[0], int(got[2])))
        overall = max([overall] + seen)
    return W.add_stats({'violation': None}, s, {'nontrivial': hit > 0, 'states': states})

