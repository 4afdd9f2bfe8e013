"""A solver that went through any history of inputs and failures is, after a reset, indistinguishable from a new one."""
from dst import zoo, world as W, simlib
from dst.engine import Violation
import numpy as np

PROBLEMS = list(zoo.REG)
RUNS = {'quick': 4000, 'thorough': 24000}
LIMIT = {'quick': 150, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a random history (data, initial guesses, options, solves) under faults, then a reset, then a program executed on the reset solver and on a new solver; non-trivial if the history contained at least one solve and the program at least one iterating solve; distinct by event hash'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime', 'clock', 'heap (scrambled)', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['comparison is bitwise except for time stamps; options without a generated default are re-applied to the new solver']


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in PROBLEMS:
        W.meta(n)


TOLS = ('tol_stat', 'tol_eq', 'tol_ineq', 'tol_comp')
RENDERED = set(TOLS) | {'max_iter', 'qp_warm_start', 'warm_start_first_qp', 'levenberg_marquardt', 'tau_min', 'qp_mu0'}


def gen_ops(r, m, n, program):
    ops = []
    for _ in range(n):
        for _ in range(r.randint(0, 3)):
            ops.append(W.gen_data_op(r, m, scale=r.choice([.3, 1.])))
        for _ in range(r.choice([0, 0, 1, 3])):
            ops.append(W.gen_iter_op(r, m, r.choice([.1, .5, 3.])))
        if not program and r.random() < .15:
            ops.append(['setv', r.choice(['x', 'u']), r.randrange(m.N), r.choice(['nan', 'inf', '-inf', '1e200'])])
        if not program and r.random() < .15:
            ops.append(['setv', r.choice(['pi']), r.randrange(m.N), r.choice(['nan', 'inf'])])
        if r.random() < .25 and m.nlp != 'SQP_RTI':
            ops.append(['opt', 'max_iter', r.randint(1, 25)])
        if not program and r.random() < .2:
            ops.append(['opt', r.choice(TOLS), 10. ** r.uniform(-9, 0)])
        if not program and r.random() < .2:
            ops.append(['opt', 'qp_warm_start', r.randint(0, 2)])
        if not program and r.random() < .1:
            ops.append(['opt', *r.choice([['levenberg_marquardt', r.uniform(0, .1)], ['tau_min', 10. ** r.uniform(-6, -2)], ['qp_mu0', 10. ** r.uniform(-2, 3)]])])
        if not program and r.random() < .2 and m.nlp != 'SQP_RTI':
            ops.append(['opt', 'warm_start_first_qp', r.randint(0, 1)])
        if not program and r.random() < .15:
            ops.append(['reset', r.random() < .7, r.random() < .2, False, m.has_x0 and r.random() < .3])
        if m.nlp == 'SQP_RTI' and r.random() < .3 and not program:
            ops.append(['phase', r.choice([0, 1, 2]) if m.ocp.solver_options.as_rti_level == 4 else r.choice([1, 1, 2])])
        ops.append(['step'])
        if r.random() < .1:
            ops.append(['cost'])
    return ops


def plan(seed, tier):
    r = W.rnd(seed, 'p05')
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    hist = gen_ops(r, m, r.randint(1, 4), False)
    prog = gen_ops(r, m, r.randint(1, 2), True)
    faults = []
    if r.random() < .85:
        for _ in range(r.randint(1, 3)):
            q = r.random()
            if q < .5:
                a = int(2 ** r.uniform(0, 10))
                faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 0, 3, 40, 100000]), 'kind': r.choice([1, 1, 2, 5]), 'arg': 10. ** r.uniform(0, 12), 'name': ''})
            elif q < .6:
                faults.append({'t': 'fnc', 'mod': (mod := r.choice([40, 200, 1000])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 5]), 'arg': 1e3, 'name': ''})
            else:
                a = int(2 ** r.uniform(0, 5)) - 1
                faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 0, 1, 3, 1000]), 'kind': r.choice([1, 2, 2, 3, 4, 6]), 'arg': r.randint(0, 4)})
    num = r.random() < .4
    return {'seed': seed, 'tier': tier, 'problem': name, 'ops': hist, 'ops2': prog, 'faults': faults, 'num': num, 'opt': num and r.random() < .6 or r.random() < .2,
            'x0': m.has_x0 and r.random() < .4, 'scramble': 1, 'lead': r.choice([0, 0, 1, 3])}


def program(I, ops, log):
    for i, op in enumerate(ops):
        v = I.apply(op)
        if op[0] in ('step', 'cost', 'phase'):
            o = I.obs()
            o['ret'] = v
            log.append((i, op, o))


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    A = W.Inst(p['problem'])
    m = A.m
    W.arm(s, p['faults'])
    solved = 0
    maxit0 = None if m.nlp == 'SQP_RTI' else int(m.ocp.solver_options.nlp_solver_max_iter)
    for op in p['ops']:
        A.apply(op)
        solved += op[0] in ('step', 'phase')
    fired = s.fn_fired() + s.qp_fired()
    s.faults_clear()
    A.op_reset(True, p['num'], p['opt'], p['x0'])
    if p['opt']:
        A.opts = {k: v for k, v in A.opts.items() if k not in RENDERED}
    tag = f'{p["problem"]}: '
    # the state promised by reset()
    it = A.iterate()
    x0 = A.d[0]['lbx'] if p['x0'] else None
    for f in W.OUT:
        for k, v in enumerate(it[f]):
            e = np.zeros(len(v))
            if f == 'x' and p['x0']:
                e = x0[:len(v)]
            if not np.array_equal(v, e):
                raise Violation('reset-iterate', tag + f'{f} at stage {k} after reset is {v}, expected {e}')
    B = W.Inst(p['problem'])
    B.push(A)
    B.set_iterate(it)
    LA, LB = [], []
    program(A, p['ops2'], LA)
    program(B, p['ops2'], LB)
    res = {'violation': None}
    it_ = False
    for (i, op, a), (_, _, b) in zip(LA, LB):
        it_ = it_ or a['nlp_iter'] > 0
        d = W.diff(a, b)
        if d and not res['violation']:
            res['violation'] = {'sig': 'reset-not-fresh', 'msg': tag + f'op {i} ({op[0]}) after reset differs from a new solver: {d}; status {a["status"]} vs {b["status"]}'}
    res['obs'] = W.dig({str(i): W.dig(o) for i, (_, _, o) in enumerate(LA)})
    if trace:
        res['trace'] = s.trace_text()
    return W.add_stats(res, s, {'nontrivial': solved > 0 and it_, 'states': [W.dig(o) for _, _, o in LA]})
