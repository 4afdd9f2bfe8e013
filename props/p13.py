"""Reported computation times are the time that actually passed, per call, wherever and however the call ends."""
from dst import zoo, world as W
from dst.engine import Violation

PROBLEMS = list(zoo.REG)
SIMS = list(zoo.SIMREG)
RUNS = {'quick': 8000, 'thorough': 14000}
LIMIT = {'quick': 120, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run executes solves, RTI phases, integrator calls and queries on a simulated clock whose every advance is known, under faults that end calls early and wall clock steps; non-trivial if at least two calls were timed; distinct by event hash'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['clock (costs of functions, QPs, stalls and wall clock steps chosen by the seed)', 'OpenMP runtime (one thread)', 'heap', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['only model functions, QP solves and injected stalls take time; everything else is instantaneous']
US = 1000
PARTS = ['time_lin', 'time_sim', 'time_sim_ad', 'time_sim_la', 'time_qp', 'time_qp_solver_call', 'time_qp_xcond', 'time_qpscaling', 'time_glob', 'time_reg']


def setup(tier):
    zoo.prepare(PROBLEMS + SIMS)
    for n in PROBLEMS:
        W.meta(n)


def plan(seed, tier):
    r = W.rnd(seed, 'p13')
    faults = []
    for _ in range(r.choice([0, 1, 2, 3])):
        a = int(2 ** r.uniform(0, 9))
        faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 0, 2, 20]), 'kind': 3, 'arg': US * int(10 ** r.uniform(0, 6)), 'name': ''})
    for _ in range(r.choice([0, 1, 2])):
        a = int(2 ** r.uniform(0, 4)) - 1
        faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 1]), 'kind': 5, 'arg': US * int(10 ** r.uniform(0, 6))})
    if r.random() < .5:
        faults += W.gen_faults(r, 1., False)[:2]
    P = {'seed': seed, 'tier': tier, 'fn': US * r.choice([1, 3, 20]), 'qp': US * r.choice([1, 10, 200]), 'wall': r.choice([0, 10**15, 1_700_000_000 * 10**9]),
         'jumps': sorted([r.randrange(300), r.choice([-1, 1]) * US * int(10 ** r.uniform(1, 10))] for _ in range(r.choice([0, 0, 1, 3])))}
    if r.random() < .15:
        from props import p11
        P.update(p11.program_plan(r))
        P['faults'] = faults
        return P
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    ops = []
    for _ in range(r.choice([1, 2, 3, 5])):
        for _ in range(r.randint(0, 2)):
            ops.append(W.gen_data_op(r, m, scale=.4))
        if r.random() < .8:
            ops.append(W.gen_iter_op(r, m, r.choice([.1, .5, 3.])))
        if r.random() < .3 and m.nlp != 'SQP_RTI':
            ops.append(['opt', 'max_iter', r.randint(0, 15)])
        if m.nlp == 'SQP_RTI' and r.random() < .3:
            ops.append(['phase', r.choice([0, 1, 2]) if m.ocp.solver_options.as_rti_level == 4 else r.choice([1, 1, 2])])
        else:
            ops.append(['step'])
        if r.random() < .2:
            ops.append(['q', r.choice(W.query_kinds(m)), r.randrange(m.N)])
        if r.random() < .1:
            ops.append(['reset', r.random() < .7, r.random() < .3, False, False])
    return dict(P, problem=name, ops=ops, faults=faults)


EPS = 2e-9


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    s.clock_cfg(10**9, p['wall'], 0)
    for at, d in p['jumps']:
        s.clock_jump(at, d)
    s.cost(p['fn'], 0, p['qp'], 0)
    n, states = 0, []
    if 'sim' in p:
        I = W.SimInst(p['sim'])
        newT = False
        W.arm(s, p['faults'])
        for i, op in enumerate(p['ops']):
            t0, f0 = s.mono(), s.fn_time()
            I.apply(op)
            newT |= op[0] == 'set' and op[1] == 'T'
            if op[0] != 'solve':
                continue
            E, F = (s.mono() - t0) * 1e-9, (s.fn_time() - f0) * 1e-9
            t = {k: float(I.s.get(k)) for k in ('time_tot', 'CPUtime', 'time_ad', 'ADtime', 'time_la', 'LAtime')}
            tag = f'{p["sim"]}: integrator call (op {i}) took {E:.9f} s ({F:.9f} s in model functions): '
            n += 1
            for k, e in (('time_tot', E), ('CPUtime', E), ('time_ad', F), ('ADtime', F)):
                if newT and 'gnsf' in p['sim'] and e == F and t[k] < e:
                    continue    # evaluates the model matrices again
                if abs(t[k] - e) > EPS:
                    raise Violation('sim-' + k, tag + f'reported {k} {t[k]:.9f}')
            if t['time_la'] < 0 or t['time_la'] != t['LAtime'] or t['time_la'] + t['time_ad'] > t['time_tot'] + EPS:
                raise Violation('sim-time_la', tag + f'reported parts {t}')
            newT = False
            states.append((p['sim'], n, round(E * 1e6)))
        return W.add_stats({'violation': None}, s, {'nontrivial': n > 1, 'states': states})
    I = W.Inst(p['problem'])
    m = I.m
    W.arm(s, p['faults'])
    rti = m.nlp == 'SQP_RTI'
    std = rti and m.ocp.solver_options.as_rti_level == 4
    calls = []
    inner = I.s.solve
    win = {'E': 0., 'Q': 0.}

    def timed():
        ph = I.phase
        t0, q0, f0 = s.mono(), s.qp_time(), s.fn_time()
        st = inner()
        check(st, ph, (s.mono() - t0) * 1e-9, (s.qp_time() - q0) * 1e-9, (s.fn_time() - f0) * 1e-9)
        return st
    I.s.solve = timed
    I.phase = 0
    oset = I.s.options_set

    def options_set(f, v):
        if f == 'rti_phase':
            I.phase = v
        return oset(f, v)
    I.s.options_set = options_set
    cur = [None]
    merit = m.ocp.solver_options.globalization != 'FIXED_STEP'

    def check(st, ph, E, Q, F):
        t = {k: float(I.s.get_stats(k)) for k in PARTS + ['time_tot', 'time_feedback', 'time_preparation']}
        tag = f'{p["problem"]}: op {cur[0]}' + (f' (phase {ph})' if rti else '') + f' ended with status {st} after {E:.9f} s ({F:.9f} s model functions, {Q:.9f} s QP solver): '
        if abs(t['time_tot'] - E) > EPS:
            raise Violation('time_tot', tag + f'reported time_tot {t["time_tot"]:.9f}')
        if not rti or ph != 2:
            win['E'], win['Q'] = E, Q
        else:
            win['E'] += E; win['Q'] += Q
        if rti:
            if ph == 1 and abs(t['time_preparation'] - E) > EPS:
                raise Violation('time_preparation', tag + f'reported time_preparation {t["time_preparation"]:.9f}')
            if ph == 2 and abs(t['time_feedback'] - E) > EPS:
                raise Violation('time_feedback', tag + f'reported time_feedback {t["time_feedback"]:.9f}')
            if ph == 0 and abs(t['time_preparation'] + t['time_feedback'] - E) > EPS:
                raise Violation('time_feedback', tag + f'reported time_preparation {t["time_preparation"]:.9f} + time_feedback {t["time_feedback"]:.9f}')
        elif abs(t['time_feedback'] - E) > EPS or t['time_preparation'] != 0:
            raise Violation('time_feedback', tag + f'reported time_feedback {t["time_feedback"]:.9f}, time_preparation {t["time_preparation"]:.9f}')
        B = win['E'] + EPS
        for k in PARTS:
            if not -EPS <= t[k] <= B:
                raise Violation('part-' + k, tag + f'reported {k} {t[k]:.9f}, the whole call{" (and preparation)" if rti else ""} took {win["E"]:.9f}')
        if t['time_sim_ad'] + t['time_sim_la'] > t['time_sim'] + EPS or t['time_qp_solver_call'] + t['time_qp_xcond'] > t['time_qp'] + EPS:
            raise Violation('part-of-part', tag + f'reported {t}')
        if abs(t['time_qp_solver_call'] - win['Q']) > EPS:
            raise Violation('time_qp_solver_call', tag + f'reported time_qp_solver_call {t["time_qp_solver_call"]:.9f}, spent in the QP solver {win["Q"]:.9f}')
        sm = t['time_lin'] + t['time_qp'] + t['time_reg'] + t['time_qpscaling'] + (0 if merit else t['time_glob'])
        if sm > B:
            raise Violation('sum-of-parts', tag + f'the disjoint parts add up to {sm:.9f}: {t}')
        calls.append((p['problem'], int(st), ph))
    for i, op in enumerate(p['ops']):
        cur[0] = i
        t0 = s.mono()
        I.apply(op)
        if op[0] == 'q' and op[1] in ('sens', 'senspg', 'adj') and getattr(I, 'solved', False) and I.s.status == 0:
            E = (s.mono() - t0) * 1e-9
            v = float(I.s.get_stats('time_solution_sensitivities'))
            if not 0 <= v <= E + EPS:
                raise Violation('time_solution_sensitivities', f'{p["problem"]}: op {i} {op}: reported {v:.9f}, elapsed {E:.9f}')
    return W.add_stats({'violation': None}, s, {'nontrivial': len(calls) > 1, 'states': calls + [round(E) for E in (win['E'] * 1e6,)]})
