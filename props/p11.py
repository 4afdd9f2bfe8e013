"""Integrators: every call returns the Runge-Kutta map of its inputs and its derivatives, whatever happened before."""
from dst import zoo, world as W, simlib, rk
from dst.engine import Violation
import numpy as np

PROBLEMS = list(zoo.SIMREG)
RUNS = {'quick': 4000, 'thorough': 40000}
LIMIT = {'quick': 120, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a history of integrator calls with random inputs, guesses, options and faults (NaN/Inf/huge model values, non-finite inputs); every call without a fault in it is compared with a reference Runge-Kutta map and its derivatives; non-trivial if at least one such call was preceded by another call; distinct by event hash'
REAL = ['acados integrators (C)', 'generated integrator code', 'Python interface AcadosSimSolver', 'BLASFEO']
STUB = ['clock', 'heap (scrambled)', 'OpenMP runtime', 'fault seam around model functions']
ASSUMPTIONS = ['reference maps are built from the tableau definitions with CasADi, solved to 1e-13 by a Newton root finder', 'inputs are drawn where Newton iterations converge within the configured number from any finite guess of moderate size']
GUESS = ('xdot', 'z')


def setup(tier):
    zoo.prepare(PROBLEMS)


_sims = {}


def desc(name):
    """the user's description, parent side"""
    if name not in _sims:
        s = zoo.sim(name)
        o = s.solver_options
        _sims[name] = {'kind': o.integrator_type, 'z': hasattr(s.model.z, 'shape') and s.model.z.shape[0] > 0, 'flags': [f for f in ('sens_forw', 'sens_adj', 'sens_hess') if getattr(o, f) and not (f == 'sens_forw' and o.integrator_type == 'GNSF' and o.sens_algebraic)],
                       't': hasattr(s.model.t, 'shape') and s.model.t.shape[0] > 0}
    return _sims[name]


def program_plan(r, name=None, n=None, bad=True):
    name = name or r.choice(PROBLEMS)
    D = desc(name)
    ops = []
    for _ in range(n or r.randint(2, 6)):
        for _ in range(r.randint(0, 4)):
            f = r.choice(['x', 'u', 'p', 'x', 'u', 'T', 'seed_adj', 'xdot', 'z', 't0'])
            if f in GUESS and D['kind'] != 'IRK' or f == 'z' and not D['z'] or f == 't0' and not D['t']:
                continue
            ops.append(['set', f, r.getrandbits(30), r.choice([.2, 1., 1.5])])
        if bad and r.random() < .15:
            ops.append(['setv', r.choice(['x', 'u']), r.choice(['nan', 'inf', '-inf'])])
            ops.append(['solve'])
            for f in ('x', 'u'):
                ops.append(['set', f, r.getrandbits(30), 1.])
        if r.random() < .25 and D['flags']:
            f = r.choice(D['flags'])
            ops.append(['opt', f, r.random() < .6])
        ops.append(['solve'])
    faults = []
    if bad and r.random() < .7:
        for _ in range(r.randint(1, 3)):
            a = int(2 ** r.uniform(0, 9))
            faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 0, 3, 40]), 'kind': r.choice([1, 1, 2, 5]), 'arg': 10. ** r.uniform(0, 12), 'name': ''})
    return {'sim': name, 'ops': ops, 'faults': faults}


def plan(seed, tier):
    r = W.rnd(seed, 'p11')
    return dict(program_plan(r), seed=seed, tier=tier, scramble=1)


_rk = {}


def ref(name):
    if name not in _rk:
        _rk[name] = rk.RK(zoo.sim(name))
    return _rk[name]


TOL = {'stol': 3e-6}


def fields(I):
    # which outputs a call with these options defines
    f = I.fields()
    if not I.flags['sens_forw']:
        f = [k for k in f if k not in ('S_p', 'S_hess')]
    return f


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    name = p['sim']
    I = W.SimInst(name)
    R = ref(name)
    W.arm(s, p['faults'])
    log = []
    checked = calls = 0
    suspect = False
    res = {'violation': None}
    for i, op in enumerate(p['ops']):
        if op[0] == 'solve' and suspect and I.kind == 'IRK':
            # the caller provides usable guesses again after a call with wrong model values
            I.put('xdot', np.zeros(I.dims['xdot']))
            if I.dims['z']:
                I.put('z', np.zeros(I.dims['z']))
        f0 = s.fn_fired()
        st = I.apply(op)
        if op[0] != 'solve':
            continue
        calls += 1
        fired = s.fn_fired() > f0
        o = I.obs()
        log.append(o)
        finite = all(np.all(np.isfinite(I.d[k])) for k in ('x', 'u'))
        if fired or not finite:
            suspect = suspect or any(f['kind'] == 5 for f in p['faults'])
            continue
        if suspect and I.kind == 'GNSF':      # no way to provide a guess
            continue
        if st != 0:
            raise Violation('integrator-status', f'{name}: call {calls} returned {st} for regular inputs')
        e = R(I.d, I.flags['sens_hess'])
        tol = TOL.get(name, 2e-8)
        ff = [f for f in fields(I) if f in e]
        bad = W.close({f: e[f] for f in ff}, {f: o[f] for f in ff}, tol, tol)
        if bad and not res['violation']:
            res['violation'] = {'sig': 'wrong-' + bad.split(':')[0], 'msg': f'{name}: call {calls} (op {i}) differs from the reference integrator: {bad}'}
        checked += calls > 1
        suspect = False
    if I.kind == 'ERK' and log and not res['violation'] and not s.fn_fired():
        s.faults_clear()
        B = W.SimInst(name)
        for f, v in I.d.items():
            B.put(f, v)
        for f, v in I.flags.items():
            if f != 'sens_forw_p':
                B.s.options_set(f, v); B.flags[f] = v
        B.apply(['solve'])
        I.apply(['solve'])
        ff = fields(I) + ['status']
        a, b = I.obs(), B.obs()
        d = W.diff({f: a[f] for f in ff}, {f: b[f] for f in ff})
        if d:
            res['violation'] = {'sig': 'erk-history', 'msg': f'{name}: explicit integrator depends on earlier calls: {d}'}
    if trace:
        res['trace'] = s.trace_text()
    res['obs'] = W.dig({str(i): W.dig(o) for i, o in enumerate(log)})
    return W.add_stats(res, s, {'nontrivial': checked > 0, 'states': [W.dig(o) for o in log]})
