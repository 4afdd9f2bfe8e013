"""Values and options of the problem description act like the same values set at run time."""
import random
import ctypes as ct
import numpy as np
from dst import zoo, world as W

VAR = {k: v for k, v in zoo.DREG.items() if v.base in zoo.REG}
PROBLEMS = sorted({v.base for v in VAR.values()})
RUNS = {'quick': 2400, 'thorough': 30000}
LIMIT = {'quick': 90, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run drives a solver through a random history, resets it, gives it the data and options of a separately generated description, and executes the same random program with faults on it and on the solver generated from that description; non-trivial if a compared solve ran at least one QP; distinct by hash of the compared observations'
REAL = ['acados C library', 'generated solver C code (of both descriptions)', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime (coroutines, seeded scheduler)', 'clock', 'heap (released memory scrambled)', 'fault seams around model functions and the QP solver', 'template renderer']
ASSUMPTIONS = ['the data expected of a generated solver are taken from its Python description']


def setup(tier):
    zoo.prepare(PROBLEMS + list(VAR))
    for n in PROBLEMS + list(VAR):
        W.meta(n)


def moves(r, m, n, opts, resets):
    ops = []
    for _ in range(r.randint(0, n)):
        ops.append(W.gen_data_op(r, m, scale=.3) if r.random() < .6 else W.gen_iter_op(r, m, .3))
    if opts and r.random() < .3:
        ops.append(['wopt', r.getrandbits(30)] if r.random() < .5 else r.choice([['opt', r.choice(W.TOLS), 10. ** r.uniform(-8, -1)], ['opt', 'levenberg_marquardt', r.uniform(0, .1)]]))
    if r.random() < .8:
        ops += [['step']] * r.choice([1, 1, 2])
    if resets and r.random() < .3:
        ops += [['reset', True, r.random() < .6, r.random() < .6, False], ['it', r.getrandbits(30)]]
    return ops


def plan(seed, tier):
    r = W.rnd(seed, 'p14')
    v = r.choice(list(VAR))
    m = W.meta(VAR[v].base)
    ops = [o for _ in range(r.choice([0, 0, 1, 2, 3])) for o in moves(r, m, 3, True, False)]
    ops2 = [['it', r.getrandbits(30)]] if r.random() < .9 else []
    for _ in range(r.choice([1, 2, 3])):
        ops2 += moves(r, m, 3, True, True)
    faults = []
    for _ in range(r.choice([0, 0, 1, 2])):
        if r.random() < .5:
            a = r.randint(0, 80)
            faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 1, 5, 30]), 'kind': r.choice([1, 2, 5]), 'arg': 1e3, 'name': ''})
        else:
            a = r.randint(0, 6)
            faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 1, 5]), 'kind': r.choice([1, 2, 3, 4, 6]), 'arg': r.randint(1, 4)})
    return {'seed': seed, 'tier': tier, 'problem': v, 'ops': ops, 'ops2': ops2, 'faults': faults, 'rst': [True, r.random() < .5, any(o[0] in ('opt', 'wopt') for o in ops) or r.random() < .5, False], 'perm': r.getrandbits(20), 'icv': r.choice([1, 4]), 'scramble': 1}


class Want:
    """data and options of a description"""
    def __init__(c, v):
        zoo.ocp(v)
        m = W.meta(v)
        c.d, c.pg, c.opts = m.st, m.pg, {}
        c.list = VAR[v].opts


def options(I, L):
    lib = I.s._AcadosOcpSolver__acados_lib
    for _, n, how, v in L:
        if how == 'py':
            I.s.options_set(n, v)
        else:
            c = {'ci': ct.c_int, 'cb': ct.c_bool, 'cd': ct.c_double}[how](v)
            lib.ocp_nlp_solver_opts_set(I.s.nlp_config, I.s.nlp_opts, n.encode(), ct.byref(c))


def wopt(I, seed, so):
    """some options, set at run time"""
    r = random.Random(seed)
    L = zoo._dopts(r, so)
    # tolerances of the QP solver have to be set after those of the NLP solver
    options(I, [o for o in L if r.random() < .3 and o[1] != 'max_iter'])


def give(I, w, num=True, opt=True):
    keep = I.opts
    if num:
        pg, d = w.pg, I.d
        w2 = type('D', (), {'d': w.d, 'pg': w.pg, 'opts': {}})
        I.push(w2)
        for a, b in zip(I.d, d):
            a['dt'] = b['dt']; a['pg'] = pg.copy()
    if opt:
        # tolerances of the QP solver have to be set after those of the NLP solver
        options(I, w.list)


def iterate(V, seed):
    r = W.rs(seed)
    return {f: [(.3 * r.randn(n) if f not in ('lam', 'sl', 'su') else np.abs(.1 * r.randn(n))) for n in [V.dim(f, k) for k in range(V.N + (f not in ('u', 'z', 'pi')))]] for f in W.OUT}


def execute(p, trace=False):
    s = W.begin(dict(p), trace)
    v = p['problem']
    base = VAR[v].base
    V = W.meta(v)
    w = Want(v)
    res = {'violation': None}

    def viol(sig, msg):
        if not res['violation']:
            res['violation'] = {'sig': sig, 'msg': f'{base} with the values of {v}: {msg}'}

    W.arm(s, p['faults'])
    A = W.Inst(base)
    so = W.meta(base).ocp.solver_options
    for o in p['ops']:
        if o[0] == 'wopt':
            wopt(A, o[1], so)
        else:
            A.apply(o)
    s.faults_clear()
    A.s.reset(*p['rst'])
    F = W.Inst(v)
    d = W.diff(F.ref_data(), F.get_data())
    if d:
        viol('generated-data', f'the generated solver reports other data than its description: {d}')
    F.s.reset(True, False, False, False)
    A.m = V
    A.status = None
    A.opts = {}
    give(A, w)
    d = W.diff(F.get_data(), A.get_data())
    if d:
        viol('data-differ', d)
    it = iterate(V, p['seed'])
    out = []
    for X in (A, F):
        X.set_iterate(it)
        s.faults_clear()
        W.arm(s, p['faults'])
        log = []
        for o in p['ops2'] + [['step']]:
            if o[0] == 'it':
                X.set_iterate(iterate(V, o[1]))
                continue
            if o[0] == 'wopt':
                wopt(X, o[1], so)
                continue
            X.apply(o)
            if o[0] == 'reset':
                if X is A:
                    give(A, w, o[2], o[3])
                X.set_iterate(it)
                # giving the data again may have evaluated functions: fault positions count from here
                s.faults_clear()
                W.arm(s, p['faults'])
            if o[0] == 'step':
                log.append(('step', X.obs()))
        o = X.obs(); o['cost'] = float(X.s.get_cost())
        o.update({'data_' + k: q for k, q in X.get_data().items()})
        log.append(('end', o))
        out.append(log)
        s.faults_clear()
    for i, ((n, a), (_, b)) in enumerate(zip(*out)):
        d = W.diff(b, a)
        if d:
            viol('differs-from-generated', f'observation {i} ({n}), generated solver vs solver with values set at run time: {d}')
            break
    obs = [W.dig(o) for _, o in out[0]]
    if trace:
        res['trace'] = s.trace_text()
    res['obs'] = W.dig({str(i): x for i, x in enumerate(obs)})
    return W.add_stats(res, s, {'nontrivial': float(np.nansum(np.abs(out[0][-1][1]['statistics'][-1:]))) > 0, 'states': obs, 'key': res['obs']})
