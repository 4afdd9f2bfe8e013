"""Solution sensitivities are the derivatives of the solution map."""
import copy
import numpy as np
from dst import zoo, world as W
from dst.engine import Violation
from dst.ift import Ift

PROBLEMS = [n for n in ('disc', 'senss', 'sensr') if n in zoo.REG]
RUNS = {'quick': 3200, 'thorough': 40000}
LIMIT = {'quick': 90, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run drives a solver through a random history of data, parameter and guess changes, faulty solves and sensitivity evaluations, with a second instance that makes the same calls but no evaluations; non-trivial if at least one set of sensitivities was compared with the reference at a solution with active constraints; distinct by hash of the compared values'
REAL = ['acados C library', 'generated solver and model C code', 'Python interface', 'HPIPM/BLASFEO numerics (QP solves)']
STUB = ['linear system of the factorized QP (dense factorization in the HPIPM adapter: the HPIPM of this sandbox predates the sensitivity interface)', 'OpenMP runtime (coroutines, seeded scheduler)', 'clock', 'heap', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['reference: implicit function theorem on the optimality system of the Python description with CasADi derivatives; inequality multipliers and distances below solution_sens_qp_t_lam_min are raised to it as documented']
MEASURE = 'hash of compared sensitivities'
FIELDS = ('x', 'u', 'pi', 'lam', 'sl', 'su')
TMIN = 1e-9


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in PROBLEMS:
        W.meta(n)


def probe(r, m):
    q = []
    for _ in range(r.randint(1, 5)):
        k = r.random()
        if k < .55:
            st = sorted(r.sample(range(m.N + 1), r.randint(1, m.N + 1)))
            if r.random() < .2:
                r.shuffle(st)
            fl = [f for f in FIELDS if r.random() < .6] or ['u']
            q.append(['f', r.choice(['p_global', 'p_global', 'initial_state']), st if r.random() < .8 else st[0], fl])
        elif k < .8:
            ns = r.randint(1, 3)
            q.append(['a', sorted(r.sample(range(m.N + 1), r.randint(0, 3))), sorted(r.sample(range(m.N), r.randint(0, 3))) or [0], ns, r.getrandbits(30)])
        elif k < .92:
            q.append(['g', r.choice(['p_global', 'initial_state'])])
        else:
            q.append(['h'])
    return q


def plan(seed, tier):
    r = W.rnd(seed, 'p16')
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    ops = []
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            if r.random() < .35:
                ops.append(['pg', r.getrandbits(30), r.choice([.03, .1, .3])])
            else:
                ops.append(W.gen_data_op(r, m, scale=r.choice([.1, .3])) if r.random() < .75 else W.gen_iter_op(r, m, r.choice([.05, .3])))
        if r.random() < .12 and m.nlp != 'SQP_RTI':
            ops.append(['opt', 'max_iter', r.choice([1, 2, 4, 50])])
        if r.random() < .08:
            ops.append(['opt', r.choice(W.TOLS), 10. ** r.uniform(-9, -3)])
        if r.random() < .06:
            ops.append(['reset', r.random() < .7, False, False, False])
        ops += [['step']] * (r.choice([1, 5, 10]) if m.nlp == 'SQP_RTI' else 1)
        if r.random() < .7:
            ops.append(['probe', probe(r, m)])
            if r.random() < .25:
                ops.append(['probe', probe(r, m)])
    if not any(o[0] == 'probe' for o in ops):
        ops.append(['probe', probe(r, m)])
    faults = []
    for _ in range(r.choice([0, 0, 1, 2])):
        if r.random() < .6:
            faults.append({'t': 'fnc', 'mod': (mod := r.choice([20, 60, 300])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 5]), 'arg': 3., 'name': ''})
        else:
            faults.append({'t': 'qpc', 'mod': (mod := r.choice([3, 8])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 3, 4, 6]), 'arg': r.randint(1, 4)})
    return {'seed': seed, 'tier': tier, 'problem': name, 'ops': ops, 'faults': faults, 'scramble': 1, 'icv': r.choice([1, 4]), 'sched': W.gen_sched(r, 0)}


_ift = {}


def ref(name):
    if name not in _ift:
        _ift[name] = Ift(name)
    return _ift[name]


def cmp(tag, what, got, want, tol, F=False):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation('sens-shape', tag + f'{what} has shape {got.shape}, expected {want.shape}')
    if got.size and not np.max(np.abs(got - want)) <= tol * (1 + np.max(np.abs(want))):
        raise Violation('sens-' + what.split()[0], tag + f'{what} is off by {np.max(np.abs(got - want)):.3e} (largest reference value {np.max(np.abs(want)):.3e})')


def evaluate(I, q, tag):
    s = I.s
    if q[0] == 'f':
        return s.eval_solution_sensitivity(q[2], q[1], sanity_checks=False, **{'return_sens_' + f: f in q[3] for f in FIELDS})
    if q[0] == 'a':
        sx, su = seeds(I, q)
        return s.eval_adjoint_solution_sensitivity(sx, su, sanity_checks=False)
    if q[0] == 'g':
        return s.eval_and_get_optimal_value_gradient(q[1])
    return s.eval_and_get_optimal_value_hessian() if I.m.name != 'disc' else np.zeros(0)      # (the Hessian refuses the square-root algorithm)


def seeds(I, q):
    r = W.rs(q[4])
    return [(k, r.randn(I.m.nx[k], q[3])) for k in q[1]], [(k, r.randn(I.m.nu[k], q[3])) for k in q[2]]


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[f], b[f]) for f in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(a, b, equal_nan=True)


def check(I, q, v, tag, S, L, inf, it, tol):
    m = I.m
    nc, ns = sum(I.d[0]['_n'].values()), I.d[0]['_ns']
    o = I.d[0]['_n']['bu']
    nx = m.nx[0]
    if q[0] == 'f':
        st = q[2] if isinstance(q[2], list) else [q[2]]
        keys = {'sens_' + f for f in q[3]}
        if set(v) != keys:
            raise Violation('sens-keys', tag + f'returned {sorted(v)}, requested {sorted(keys)}')
        for f in q[3]:
            w = v['sens_' + f]
            if not isinstance(q[2], list):
                if q[2] == m.N and f in ('u', 'pi'):
                    if w.size:
                        raise Violation('sens-shape', tag + f'{f} at the terminal stage has shape {w.shape}')
                    continue
                w = [w]
            ks = [k for k in st if k < m.N or f not in ('u', 'pi')]
            if len(w) != len(ks):
                raise Violation('sens-shape', tag + f'{len(w)} sensitivities of {f} for the stages {ks}')
            for k, a in zip(ks, w):
                b = S[q[1]][L[k][f]]
                if f == 'lam' and k == 0:       # equality: the difference of the two multipliers is determined
                    a, b = (x.copy() for x in (a, b))
                    for x in (a, b):
                        x[o:o + nx] -= x[nc + o:nc + o + nx]; x[nc + o:nc + o + nx] = 0
                cmp(tag, f'{q[1]} derivative of {f} at stage {k}', a, b, tol)
    elif q[0] == 'a':
        sx, su = seeds(I, q)
        w = sum((a.T @ S['p_global'][L[k]['x']] for k, a in sx), 0) + sum((a.T @ S['p_global'][L[k]['u']] for k, a in su), 0)
        cmp(tag, 'adjoint sensitivity', v, w, tol * 10)
    elif q[0] == 'g':
        if q[1] == 'p_global':
            cmp(tag, 'value-gradient p_global', v, inf['grad'], 1e-9 * (1 + inf['scale']))
        else:
            lam = it['lam'][0]
            cmp(tag, 'value-gradient initial_state', v, lam[o:o + nx] - lam[nc + o:nc + o + nx], 1e-12)
    elif m.name != 'disc':
        R = S['initial_state'][L[0]['lam']]
        cmp(tag, 'value-Hessian', v, R[o:o + nx] - R[nc + o:nc + o + nx], tol)


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(p.get('icv', 1), 8)
    name = p['problem']
    A = W.Inst(name, save_p_global=True)
    B = W.Inst(name, save_p_global=True)
    m = A.m
    F = ref(name)
    res = {'violation': None}
    n = na = 0
    dig = {}
    solved = False
    for i, op in enumerate(p['ops']):
        tag = f'{name}: op {i} {op[0]}: '
        if op[0] != 'probe':
            s.faults_clear()
            W.arm(s, p['faults'])
            va = A.apply(op)
            s.faults_clear()
            W.arm(s, p['faults'])
            vb = B.apply(op)
            if op[0] == 'step':
                solved = True
                d = W.diff(A.obs(), B.obs())
                if d:
                    raise Violation('sens-disturbs', tag + f'solver with sensitivity evaluations before vs solver without: {d}')
            continue
        s.faults_clear()
        it = A.iterate()
        if not solved or not all(np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e4) for f in W.OUT for v in it[f]):
            continue
        K, Rp, Rx, L, inf = F.system(it, A.d, TMIN)
        if not np.all(np.isfinite(K)):
            continue
        c = np.linalg.cond(K)
        st = A.apply(['fact'])
        if st != 0:
            if c < 1e8:
                raise Violation('fact-status', tag + f'setup_qp_matrices_and_factorize returned {st} (condition number {c:.1e})')
            continue
        ok = c < 1e7 and inf['weak'] > 1e-7
        S = {'p_global': np.linalg.solve(K, Rp), 'initial_state': np.linalg.solve(K, Rx)} if ok else None
        inf['scale'] = max(max(np.max(np.abs(v), initial=0) for v in it[f]) for f in ('x', 'u', 'pi', 'lam'))
        vals = []
        for q in op[1]:
            v = evaluate(A, q, tag)
            vals.append(v)
            if ok:
                check(A, q, v, tag, S, L, inf, it, 1e-6)
                n += 1
                na += inf['active']
        for q, v in list(zip(op[1], vals))[::-1]:       # order and repetition do not matter
            if not same(v, evaluate(A, q, tag)):
                raise Violation('sens-repeat', tag + f'evaluating {q[:2]} again gives another result')
        it2 = A.iterate()
        for f in W.OUT:
            if not all(np.array_equal(a, b) for a, b in zip(it[f], it2[f])):
                raise Violation('sens-iterate', tag + f'the evaluation changed {f} of the current iterate')
        dig[f'p{i}'] = np.concatenate([np.ravel(x) for v in vals for w in ([v[k] for k in sorted(v)] if isinstance(v, dict) else [v]) for x in (w if isinstance(w, list) else [w])] or [np.zeros(0)])
    h = W.dig(dig)
    res['obs'] = h
    if trace:
        res['trace'] = s.trace_text()
    return W.add_stats(res, s, {'nontrivial': na > 0, 'states': [h] if n else []})
