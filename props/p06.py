"""Setting and reading: the last value written is the value used and reported; reading and solving change nothing else."""
from dst import zoo, world as W, simlib, kkt
from dst.engine import Violation
import numpy as np

PROBLEMS = list(zoo.REG)
ORACLE = [n for n in PROBLEMS if n not in kkt.IMPL and n not in zoo.RTI]
RUNS = {'quick': 3500, 'thorough': 24000}
LIMIT = {'quick': 150, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a random program of setters (all data fields, parameters dense/sparse/strided, iterates), queries, resets and solver calls under faults; after every operation all problem data and the iterate are compared with a reference model; the same program without its queries runs on a second solver; non-trivial if at least one query preceded an iterating solve; distinct by event hash'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime', 'clock', 'heap (scrambled)', 'fault seams around model functions and the QP solver (content keyed, so that both solvers see the same faults)']
ASSUMPTIONS = ['all comparisons are bitwise; time stamps are not compared', 'get_residuals(recompute=True) is excluded for RTI, where it re-linearizes for the next feedback; sensitivities are queried at solutions only; AS-RTI preparation may overwrite the initial state bounds']


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in ORACLE:
        kkt.oracle(n)
    for n in PROBLEMS:
        W.meta(n)


def plan(seed, tier):
    r = W.rnd(seed, 'p06')
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    base = W.gen_program(r, m, r.randint(1, 4), resets=True, queries=False)
    if r.random() < .4:     # a bound that goes away and comes back
        for _ in range(20):
            op = W.gen_data_op(r, m, kinds=('b',))
            if op and op[0] == 'b':
                seeds = []
                for a in (2, 0, 1, 2)[r.randint(0, 1):]:     # absent (either kind of infinity) / finite
                    x = r.randrange(10**8) * 7
                    seeds.append(x + (r.randint(0, 1) if a in (0, 1) else r.randint(2, 6)))
                at = sorted(r.randint(0, len(base)) for _ in seeds)
                for j, (i, x) in enumerate(zip(at, seeds)):
                    base.insert(i + j, op[:3] + [x, op[4]])
                i = at[-1] + len(seeds)
                k = op[2]
                if m.dim('lam', k) and i <= len(base):
                    base.insert(i, ['set', 'lam', k, r.getrandbits(30), .3])
                break
    qk = W.query_kinds(m)
    ops = []
    for op in base:
        if op[0] == 'psp' and r.random() < .5:
            op = ['psps'] + op[1:]
        if op[0] == 'pg' and r.random() < .5:
            op = ['pga'] + op[1:]
        if op[0] == 'set' and r.random() < .3:
            op = ['fset'] + op[1:]
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            ops.append(['q', r.choice(qk), r.randrange(m.N + 1)])
        ops.append(op)
    ops.append(['q', r.choice(qk), 0])
    faults = [f for f in W.gen_faults(r, .5) if f['t'].endswith('c')]
    if r.random() < .35:
        mod = r.choice([30, 200, 1000])
        faults.append({'t': 'fnc', 'mod': mod, 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 5]), 'arg': 1e3, 'name': ''})
    if r.random() < .35:
        mod = r.choice([2, 3, 6])
        faults.append({'t': 'qpc', 'mod': mod, 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 3, 4, 6]), 'arg': r.randint(0, 3)})
    if name in zoo.INTCOST:
        faults = [f for f in faults if f['t'] != 'fnc']
    return {'seed': seed, 'tier': tier, 'problem': name, 'ops': ops, 'faults': faults, 'scramble': 1}


DATA = ('set', 'setv', 'flat', 'fset', 'b', 'x0', 'cd', 'reset')
SOLVES = ('step', 'phase', 'solve')


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    name = p['problem']
    asrti = name in zoo.ASRTI
    A, B = W.Inst(name, save_p_global=True), W.Inst(name, save_p_global=True)
    m = A.m
    W.arm(s, p['faults'])
    res = {'violation': None}
    tag = name + ': '

    def bad(sig, msg):
        if not res['violation']:
            res['violation'] = {'sig': sig, 'msg': tag + msg}

    def state(I):
        return {f'{f}_{k}': v for f, w in I.iterate().items() for k, v in enumerate(w)}

    def data(I):
        g, e = I.get_data(), I.ref_data()
        if asrti:
            for o in (g, e):
                o.pop('lbx_0', None); o.pop('ubx_0', None)
        return g, e
    g, e = data(A)
    d = W.diff(e, g)
    if d:
        bad('data-after-creation', f'data of a new solver differ from the description: {d}')
    LA, LB = [], []
    prev = state(A)
    nq = nontriv = 0
    for i, op in enumerate(p['ops']):
        A.set_fields = {}
        f0 = s.fn_fired()
        mask0 = {k: A.lam_mask(k) for k in range(m.N + 1)} if op[0] in DATA else None
        v = A.apply(op)
        cur = state(A)
        if op[0] in SOLVES:
            o = A.obs(); o['ret'] = v
            LA.append((i, op, o))
            nontriv += nq > 0 and o['nlp_iter'] > 0
        else:
            exp = dict(prev)
            if op[0] == 'reset':
                exp = {k: np.zeros(len(x)) for k, x in prev.items()}
                if op[4]:
                    for k in range(m.N + 1):
                        exp[f'x_{k}'] = A.d[0]['lbx'][:m.nx[k]]
            for (f, k), x in A.set_fields.items():
                exp[f'{f}_{k}'] = x
            if op[0] in DATA:
                for k in range(m.N + 1):
                    y, c = exp[f'lam_{k}'], cur[f'lam_{k}']
                    masked = y * A.lam_mask(k)
                    exp[f'lam_{k}'] = np.where((c == y) | (c == 0), c, masked) if asrti and k == 0 else masked if ('lam', k) in A.set_fields else np.where((c == y) | (c == 0) & (mask0[k] == 0), c, masked)     # (an interrupted QP may leave tiny multipliers of absent bounds)
            d = W.diff(exp, cur)
            if d:
                bad('iterate-changed' if op[0] not in ('set', 'setv', 'flat', 'fset') else 'iterate-not-set', f'op {i} {op[:3]}: {d} (expected vs reported)')
        prev = cur
        if op[0] == 'q':
            nq += 1
            w = A.apply(op)
            d = W.diff({k: x for k, x in v.items() if not k.startswith('time')}, w) if v and op[1] not in ('stats',) else None
            if d:
                bad('query-not-repeatable', f'op {i} {op[1]}: asking twice gives different answers: {d}')
            if op[1] in ('cost', 'res') and name in ORACLE and s.fn_fired() == f0 and all(np.all(np.isfinite(x)) for x in cur.values()):
                with np.errstate(all='ignore'):
                    R = kkt.oracle(name).residuals(A.iterate(), A.d)
                pairs = [('cost', v['cost'], R['cost'])] if op[1] == 'cost' else [(q, y, R[q]) for q, y in zip(('stat', 'eq', 'ineq', 'comp'), v['res'])]
                for q, y, z in pairs:
                    if np.isfinite(z) and abs(z) < 1e12 and not abs(y - z) <= 1e-6 * abs(z) + 1e-8:
                        bad('value-not-used', f'op {i} {op[1]}: {q} is {y!r}, with the data and iterate set it is {z!r} ({R["where"].get(q)})')
            d = None
            if op[1] in ('flat', 'flatobj'):
                for f in W.OUT:
                    x = np.concatenate([cur[f'{f}_{k}'] for k in range(m.N + (f not in ('u', 'z', 'pi')))])
                    d = d or W.diff({f: x}, {f: v[f]})
                if op[1] == 'flat':
                    d = d or W.diff({'p': np.concatenate([A.d[k]['p'] for k in range(m.N + 1)])}, {'p': v['p']})
            elif op[1] in ('obj', 'iter'):
                d = W.diff({k.replace('_', ''): x for k, x in cur.items()}, v)
            if d:
                bad('getters-disagree', f'op {i} {op[1]}: {d}')
            if op[1] in ('data', 'obj', 'flat', 'flatobj', 'iter', 'qp', 'lastqp'):
                for x in v.values():     # results belong to the caller
                    if isinstance(x, np.ndarray) and x.flags.writeable:
                        x[...] = 7.7e77 if x.dtype.kind == 'f' else -9
        g, e = data(A)
        d = W.diff(e, g)
        if d:
            bad('data-changed', f'op {i} {op[:3]}: problem data: {d} (reference vs reported)')
        if res['violation']:
            break
    if not res['violation']:
        s.faults_clear()
        W.arm(s, p['faults'])
        for i, op in enumerate(p['ops']):
            if op[0] == 'q':
                if name in zoo.INTCOST and op[1] == 'cost':
                    B.apply(op); B.apply(op)
                continue
            v = B.apply(op)
            if op[0] in SOLVES:
                o = B.obs(); o['ret'] = v
                LB.append((i, op, o))
        for (i, op, a), (_, _, b) in zip(LA, LB):
            if m.nlp == "SQP_RTI":     # residuals of an RTI step only exist after get_residuals(recompute=True)
                a, b = ({k: x for k, x in o.items() if k != 'res'} for o in (a, b))
            d = W.diff(b, a)
            if d:
                bad('query-changes-solve', f'op {i} {op[0]}: result differs if nothing was queried before: {d} (without vs with queries); queries {[q[1] for q in p["ops"][:i] if q[0] == "q"]}')
                break
    if trace:
        res['trace'] = s.trace_text()
    res['obs'] = W.dig({str(i): W.dig(o) for i, _, o in LA})
    return W.add_stats(res, s, {'nontrivial': nontriv > 0, 'states': [W.dig(o) for _, _, o in LA]})
