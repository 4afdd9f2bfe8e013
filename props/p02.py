"""Batch solvers: every instance behaves as if it were solved alone, in any thread schedule, whatever happens to the others."""
import contextlib, io, warnings
from dst import zoo, world as W, simlib
from dst.engine import Violation
import numpy as np

PROBLEMS = [n for n in zoo.REG if n != 'mocp']      # there is no batch interface for multi-phase problems
SIMS = list(zoo.SIMREG)
RUNS = {'quick': 1100, 'thorough': 12000}
LIMIT = {'quick': 150, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a random program of batch and single-instance calls executed by the batch solver under simulated threads and by separate solvers one after another; non-trivial if at least two instances were solved in one batch call with a context switch; distinct by interleaving and event hash'
REAL = ['acados C library', 'generated batch C code', 'AcadosOcpBatchSolver / AcadosSimBatchSolver', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime (simulated: coroutines + seeded scheduler)', 'clock', 'heap', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['preemption happens at instrumented memory accesses, model-function calls and clock reads; accesses inside pre-compiled BLASFEO/HPIPM are atomic with respect to preemption',
               'all outputs are compared bitwise except time stamps']
SERIAL = {'mode': 0, 'param': 1, 'seed': 1, 'race': 0}
BSET = ('x', 'u', 'z', 'pi', 'lam', 'sl', 'su', 'p')


def setup(tier):
    zoo.prepare(PROBLEMS + SIMS)
    for n in PROBLEMS:
        W.meta(n)


def gen_one(r, m):
    q = r.random()
    if q < .5:
        return W.gen_data_op(r, m)
    if q < .7:
        return W.gen_iter_op(r, m)
    if q < .8:
        return ['setv', r.choice(['x', 'u']), r.randrange(m.N), r.choice(['nan', 'inf', '1e200'])]
    if q < .9:
        return ['reset', True, r.random() < .3, False, False]
    return ['step']


def plan(seed, tier):
    r = W.rnd(seed, 'p02')
    sch = {'seed': seed, 'tier': tier, 'threads': r.choice([1, 2, 2, 3, 4, 8]), 'icv': r.randint(1, 6), 'sched': W.gen_sched(r), 'n0': r.choice([1, 1, 2, 3])}
    if r.random() < .12:
        return dict(sch, **plan_sim(r))
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    so = m.ocp.solver_options
    sens = name in ('disc', 'senss', 'sensr')
    cur, tot, ops = sch['n0'], sch['n0'], []

    def nbat():
        """next batch size for a setter: grows, keeps or shrinks"""
        nonlocal cur, tot
        cur = max(1, min(5, cur + r.choice([0, 0, 0, 1, 2, -1])))
        tot = max(tot, cur)
        return cur
    for _ in range(r.randint(1, 3)):
        for _ in range(r.randint(0, 5)):
            q = r.random()
            vs = r.getrandbits(28)
            if q < .3:
                for _ in range(30):
                    f, k = r.choice(BSET), r.randrange(m.N + 1)
                    if not (k == m.N and f in ('u', 'z', 'pi')) and m.dim(f, k):
                        ops.append(['bset', f, k, vs, nbat(), r.choice([.1, .5, 3.])])
                        break
            elif q < .42:
                fs = [f for f in BSET if any(m.dim(f, k) for k in range(m.N))]
                ops.append(['bflat', r.choice(fs), vs, nbat(), .3])
            elif q < .6:
                k = r.randrange(m.N + 1)
                ts = [b for b in ('bu', 'bx', 'g', 'h', 'phi') if m.st[k]['_n'][b]]
                if ts:
                    ops.append(['bcon', r.choice(ts), k, vs, nbat(), .4])
            elif q < .66:
                ks = [k for k in range(m.N + 1) if m.st[k]['_n']['g']]
                if ks:
                    ops.append(['bcd', r.choice(ks), vs, nbat()])
            elif q < .7 and m.npg:
                ops.append(['bpg', vs, nbat()])
            elif q < .75:
                ops.append(['biter', vs, nbat()])
            elif q < .79:
                ops.append(['bthreads', r.choice([1, 2, 3, 8])])
            elif q < .83:
                ops.append(['breset', nbat() if r.random() < .5 else None, r.random() < .8, r.random() < .3, r.random() < .2, m.has_x0 and r.random() < .3])
            elif q < .9:
                ops.append(['one', r.randrange(tot), gen_one(r, m)])
            elif m.nlp != 'SQP_RTI':
                ops.append(['bopt', 'max_iter', r.randint(1, 12)])
        if r.random() < .12:
            ops.append(['bover', cur + r.randint(1, 3), r.choice(['solve', 'get', 'flat', 'iter'])])
        nb = None
        if r.random() < .3:
            nb = cur = r.randint(1, cur)
        if m.nlp == 'SQP_RTI' and so.as_rti_level != 4:
            ops += [['bopt', 'rti_phase', 1], ['bsolve', nb], ['bx0', r.getrandbits(28), cur], ['bopt', 'rti_phase', 2], ['bsolve', None]]
        else:
            if m.nlp == 'SQP_RTI' and r.random() < .3:
                ops.append(['bopt', 'rti_phase', r.choice([0, 1, 2])])
            ops.append(['bsolve', nb])
        if r.random() < .3 and 'HPIPM' in so.qp_solver and m.nlp == 'SQP' or sens:
            ops.append(['bfact', None])
        if sens:
            ops.append(r.choice([['bsens', r.choice(['initial_state', 'p_global']), sorted(r.sample(range(m.N + 1), 2))],
                                 ['badj', r.randrange(m.N + 1), r.randrange(m.N), r.randint(1, 2), r.getrandbits(28)]]))
        if r.random() < .3:
            ops.append(['bget', 1])
    faults = []
    if r.random() < .5:
        for _ in range(r.randint(1, 2)):
            if r.random() < .6:
                faults.append({'t': 'fnc', 'mod': (mod := r.choice([40, 200, 1000])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 5]), 'arg': 1e3, 'name': ''})
            else:
                faults.append({'t': 'qpc', 'mod': (mod := r.choice([3, 10, 40])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 3, 4, 6]), 'arg': r.randint(1, 4)})
    return dict(sch, problem=name, ops=ops, faults=faults)


def plan_sim(r):
    name = r.choice(SIMS)
    I = {k: ('x', 'u', 'p', 'T', 'seed_adj') for k in ('serk', 'serk3', 'sgnsf', 'sgnsfz')}
    fs = I.get(name, ('x', 'u', 'p', 'T', 'seed_adj', 'xdot') + (('z',) if name in ('sdae', 'stol', 'sradau') else ()))
    n = n0 = r.randint(2, 5)
    ops = []
    for _ in range(r.randint(1, 4)):
        for i in range(n0):
            for _ in range(r.randint(0, 3)):
                ops.append(['one', i, ['set', r.choice(fs), r.getrandbits(28), r.choice([.2, 1.])]])
            if r.random() < .05:
                ops.append(['one', i, ['setv', 'x', r.choice(['nan', '1e200'])]])
            if r.random() < .1:
                ops.append(['one', i, ['opt', r.choice(['sens_forw', 'sens_adj'][name == 'sgnsfz':]), r.random() < .5]])
        ops.append(['bsolve', None if r.random() < .8 else (n := r.randint(1, n))])
        if r.random() < .2:
            ops.append(['one', r.randrange(n), ['solve']])
    f = [{'t': 'fnc', 'mod': (mod := r.choice([40, 200, 1000])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 5]), 'arg': 1e3, 'name': ''}] if r.random() < .3 else []
    return {'sim': name, 'ops': ops, 'faults': f, 'n0': n0}


SEN = dict(return_sens_x=True, return_sens_u=True, return_sens_pi=True, return_sens_lam=True, return_sens_sl=True, return_sens_su=True)


class Ref:
    """the reference: one separate solver per batch member, called one after another by one thread"""

    def __init__(self, p):
        self.p = p
        self.ins = []
        self.cur = p['n0']
        self.grow(p['n0'])

    def grow(self, n):
        while len(self.ins) < n:
            self.ins.append(W.Inst(self.p['problem'], save_p_global=True))

    def setter(self, n):
        self.cur = n
        self.grow(n)
        return self.ins[:n]


def bvals(R, op, i):
    """value of batch op for member i"""
    I, m, t = R.ins[i], R.ins[i].m, op[0]
    if t == 'bset':
        _, f, k, vs, nb, sc = op
        v = sc * W.rs(vs + 7919 * i).randn(m.dim(f, k))
        if f in ('lam', 'sl', 'su'):
            v = np.abs(v)
        if f == 'p':
            v = m.st[k]['p'] + .1 * v
        return v
    if t == 'bflat':
        _, f, vs, nb, sc = op
        r = W.rs(vs + 7919 * i)
        rng = range(m.N + (f not in ('u', 'z', 'pi')))
        return np.concatenate([(m.st[k]['p'] if f == 'p' else 0.) + sc * (np.abs if f in ('lam', 'sl', 'su') else (lambda a: a))(r.randn(m.dim(f, k))) for k in rng])
    if t in ('bcon', 'bx0'):
        _, b, k, vs, nb, sc = op
        return I.bound_values(b, k, vs + 7919 * i, sc)
    if t == 'bcd':
        _, k, vs, nb = op
        return [m.st[k][f] + .2 * W.rs(vs + j + 7919 * i).randn(*m.st[k][f].shape) for j, f in enumerate(('C', 'D')) if f in m.st[k]]
    if t == 'bpg':
        return m.pg + .1 * W.rs(op[1] + 7919 * i).randn(m.npg)


def run_ref(p, s):
    R = Ref(p)
    out = []
    last = 0
    for n, op in enumerate(p['ops']):
        t = op[0]
        e = {}
        if t == 'bx0':
            op = ['bcon', 'bx', 0, op[1], op[2], .2]
            t = 'bcon'
            if not R.ins[0].m.has_x0:
                continue
        if t == 'bset':
            for i, I in enumerate(R.setter(op[4])):
                I.s.set(op[2], op[1], bvals(R, op, i))
        elif t == 'bflat':
            for i, I in enumerate(R.setter(op[3])):
                I.s.set_flat(op[1], bvals(R, op, i))
        elif t == 'bcon':
            for i, I in enumerate(R.setter(op[4])):
                lo, hi = bvals(R, op, i)
                ln, un = I.m.bnames(op[1])
                if op[1] != 'phi':
                    I.s.constraints_set(op[2], ln, lo)
                I.s.constraints_set(op[2], un, hi)
                I.d[op[2]]['l' + op[1]], I.d[op[2]]['u' + op[1]] = lo, hi
        elif t == 'bcd':
            for i, I in enumerate(R.setter(op[3])):
                for f, v in zip(('C', 'D'), bvals(R, op, i)):
                    I.s.constraints_set(op[1], f, v, api='new')
        elif t == 'bpg':
            for i, I in enumerate(R.setter(op[2])):
                I.s.set_p_global_and_precompute_dependencies(bvals(R, op, i))
        elif t == 'biter':
            its = [R.ins[i % R.cur].s.get_flat_iterate() for i in range(op[2])]
            for I, it in zip(R.setter(op[2]), its):
                for f in W.OUT:
                    I.s.set_flat(f, getattr(it, f) + (.05 if f in ('x', 'u') else 0.))
        elif t == 'breset':
            for I in (R.ins[:R.cur] if op[1] is None else R.setter(op[1])):
                I.s.reset(*op[2:])
        elif t == 'one':
            if op[1] < len(R.ins):
                e['ret'] = R.ins[op[1]].apply(op[2])
        elif t == 'bopt':
            for I in R.ins:
                I.s.options_set(op[1], op[2])
        elif t in ('bsolve', 'bfact'):
            if op[1]:
                R.cur = op[1]
            st = []
            for I in R.ins[:R.cur]:
                I.status = I.s.solve() if t == 'bsolve' else I.s.setup_qp_matrices_and_factorize()
                st.append(int(I.status))
            e['batch_status'] = np.array(st)
            last = max(last, R.cur)
        elif t == 'bsens':
            for i, I in enumerate(R.ins[:R.cur]):
                for f, v in I.s.eval_solution_sensitivity(op[2], op[1], **SEN, sanity_checks=False).items():
                    for j, a in enumerate(v):
                        e[f'{i}.{f}.{j}'] = a
        elif t == 'badj':
            _, kx, ku, ns, vs = op
            for i, I in enumerate(R.ins[:R.cur]):
                r = W.rs(vs + i)
                e[f'{i}.adj'] = I.s.eval_adjoint_solution_sensitivity([(kx, r.randn(I.m.nx[kx], ns))], [(ku, r.randn(I.m.nu[ku], ns))], sanity_checks=False)
        e['cur'], e['len'] = R.cur, len(R.ins)
        if t in ('bsolve', 'bfact', 'bget', 'one', 'breset'):
            for i, I in enumerate(R.ins):
                o = I.obs(stats=True)
                o['status'] = int(I.s.status)
                o['p'] = I.s.get_flat('p') if any(I.m.np_) else np.zeros(0)
                o['p_global'] = I.s.get_flat('p_global') if I.m.npg else np.zeros(0)
                for f, v in o.items():
                    e[f'{i}.{f}'] = v
        out.append((n, op, e))
    return out, last


def run_batch(p, s, R):
    from acados_template import AcadosOcpBatchSolver
    from acados_template.acados_ocp_iterate import AcadosOcpFlattenedBatchIterate
    ocp = zoo.ocp(p['problem'])
    Bt = AcadosOcpBatchSolver(ocp, p['n0'], p['threads'], build=False, generate=False, verbose=False, check_code_reuse_possible=False, save_p_global=True)
    m = W.meta(p['problem'])
    V = Ref.__new__(Ref)        # data model only (values)
    V.p = p
    V.ins = []
    stat = {}

    def wrap(i):
        while len(V.ins) < len(Bt.ocp_solvers):
            I = W.Inst.__new__(W.Inst)
            I.name, I.m, I.ocp, I.s, I.status, I.opts = p['problem'], m, ocp, Bt.ocp_solvers[len(V.ins)], None, {}
            I.reset_model()
            V.ins.append(I)
        return V.ins[i]
    wrap(0)
    tmpl = V.ins[0]
    out = []

    def vals(op, nb):
        return [bvals(type('T', (), {'ins': [tmpl] * (i + 1)}), op, i) for i in range(nb)]
    for n, op in enumerate(p['ops']):
        t = op[0]
        e = {}
        if t == 'bx0':
            op = ['bcon', 'bx', 0, op[1], op[2], .2]
            t = 'bcon'
            if not m.has_x0:
                continue
        if t == 'bset':
            Bt.set(op[2], op[1], np.array(vals(op, op[4])))
        elif t == 'bflat':
            Bt.set_flat(op[1], np.array(vals(op, op[3])))
        elif t == 'bcon':
            v = vals(op, op[4])
            ln, un = m.bnames(op[1])
            if op[1] != 'phi':
                Bt.constraints_set(op[2], ln, np.array([a[0] for a in v]))
            Bt.constraints_set(op[2], un, np.array([a[1] for a in v]))
            for i in range(op[4]):
                I = wrap(i)
                I.d[op[2]]['l' + op[1]], I.d[op[2]]['u' + op[1]] = v[i]
        elif t == 'bcd':
            v = vals(op, op[3])
            for j, f in enumerate(('C', 'D')):
                if j < len(v[0]):
                    Bt.constraints_set(op[1], f, np.array([a[j] for a in v]))
        elif t == 'bpg':
            Bt.set_p_global_and_precompute_dependencies(np.array(vals(op, op[2])))
        elif t == 'biter':
            it = Bt.get_flat_iterate()
            idx = [i % it.N_batch for i in range(op[2])]
            Bt.set_iterate(AcadosOcpFlattenedBatchIterate(**{f: getattr(it, f)[idx] + (.05 if f in ('x', 'u') else 0.) for f in W.OUT}, N_batch=op[2]))
        elif t == 'bthreads':
            Bt.num_threads_in_batch_solve = op[1]
        elif t == 'breset':
            Bt.reset(op[1], *op[2:])
        elif t == 'one':
            if op[1] < len(Bt.ocp_solvers):
                wrap(op[1])
                e['ret'] = V.ins[op[1]].apply(op[2])
        elif t == 'bopt':
            for S in Bt.ocp_solvers:
                S.options_set(op[1], op[2])
        elif t == 'bover':
            nb = len(Bt.ocp_solvers) + op[1]
            try:
                {'solve': Bt.solve, 'get': lambda k: Bt.get(0, 'x', k), 'flat': lambda k: Bt.get_flat('x', k), 'iter': Bt.get_flat_iterate}[op[2]](nb)
                raise Violation('batch-too-many', f'{p["problem"]}: {op[2]} with n_batch={nb} and {len(Bt.ocp_solvers)} instances did not raise')
            except ValueError:
                pass
        elif t in ('bsolve', 'bfact'):
            (Bt.solve if t == 'bsolve' else Bt.setup_qp_matrices_and_factorize)(op[1])
            e['batch_status'] = np.array(Bt.status)
        elif t == 'bsens':
            d = Bt.eval_solution_sensitivity(op[2], op[1], **SEN, sanity_checks=False)
            for f, v in d.items():
                for j, a in enumerate(v):
                    for i in range(a.shape[0]):
                        e[f'{i}.{f}.{j}'] = a[i]
        elif t == 'badj':
            _, kx, ku, ns, vs = op
            sx, su = [], []
            for i in range(Bt.n_batch_current):
                r = W.rs(vs + i)
                sx.append(r.randn(m.nx[kx], ns)); su.append(r.randn(m.nu[ku], ns))
            for i, a in enumerate(Bt.eval_adjoint_solution_sensitivity([(kx, np.array(sx))], [(ku, np.array(su))], sanity_checks=False)):
                e[f'{i}.adj'] = a
        wrap(0)
        e['cur'], e['len'] = Bt.n_batch_current, len(Bt.ocp_solvers)
        if t in ('bsolve', 'bfact', 'bget', 'one', 'breset'):
            nb = Bt.n_batch_current
            bf = {f: Bt.get_flat(f) for f in W.OUT + (('p',) if any(m.np_) else ())}
            if t in ('bsolve', 'bget'):
                for k in range(m.N + 1):       # the stage-wise batch getter agrees with the flat one
                    for f in W.OUT + (('p',) if m.np_[k] else ()):
                        if k == m.N and f in ('u', 'z', 'pi'):
                            continue
                        a = Bt.get(k, f)
                        o = sum(m.dim(f, j) for j in range(k))
                        d = W.diff({'v': a}, {'v': bf[f][:, o:o + m.dim(f, k)]})
                        if d:
                            raise Violation('batch-get', f'{p["problem"]}: batch get({k},{f}) differs from get_flat: {d}')
            for i, I in enumerate(V.ins):
                o = I.obs(stats=True)
                o['status'] = int(I.s.status)
                o['p'] = I.s.get_flat('p') if any(m.np_) else np.zeros(0)
                o['p_global'] = I.s.get_flat('p_global') if m.npg else np.zeros(0)
                if i < nb:
                    for f in bf:
                        d = W.diff({f: o[f]}, {f: bf[f][i]})
                        if d:
                            raise Violation('batch-get', f'{p["problem"]}: batch get_flat of member {i} differs from the solver of that member: {d}')
                for f, v in o.items():
                    e[f'{i}.{f}'] = v
        out.append((n, op, e))
    return out


def execute(p, trace=False):
    if 'sim' in p:
        return execute_sim(p, trace)
    s = W.begin(dict(p, sched=SERIAL), trace)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s.omp_cfg(1, 8)
        W.arm(s, p['faults'])
        A, most = run_ref(p, s)
        s.faults_clear()
        base = s.counters()
        s.sched(p['sched'])
        s.omp_cfg(p['icv'], 8)
        W.arm(s, p['faults'])
        Bl = run_batch(p, s, None)
    return finish(p, s, A, Bl, base, most, trace, p['problem'])


def finish(p, s, A, Bl, base, most, trace, tag):
    c = s.counters()
    res = {'violation': None}
    if s.race():
        res['violation'] = {'sig': 'data-race', 'msg': f'{tag}: {s.race()}'}
    if c['deadlocks']:
        res['violation'] = {'sig': 'deadlock', 'msg': tag}
    for (i, op, a), (_, _, b) in zip(A, Bl):
        d = W.diff(a, b)
        if d and not res['violation']:
            sig = 'batch-status' if '.status' in d.split(':')[0] else 'batch-differs'
            res['violation'] = {'sig': sig, 'msg': f'{tag}: op {i} {op[0]}: separate solvers vs batch ({p["threads"]} threads): {d}'}
    if trace:
        res['trace'] = s.trace_text()
    res['obs'] = W.dig({str(i): W.dig(o) for i, _, o in Bl})
    sw = c['thread_switches'] - base['thread_switches']
    return W.add_stats(res, s, {'nontrivial': sw > 0 and most > 1, 'states': [W.dig(o) for _, _, o in Bl], 'key': '%x' % s.il_hash()})


def execute_sim(p, trace):
    from acados_template import AcadosSimBatchSolver, AcadosSimSolver
    s = W.begin(dict(p, sched=SERIAL), trace)

    def world(batch):
        s.faults_clear()
        W.arm(s, p['faults'])
        if batch:
            sim = zoo.sim(p['sim'])
            # the code was generated beforehand; whether it may be reused is not a question of this property
            AcadosSimSolver.is_code_reuse_possible = staticmethod(lambda *a, **k: True)
            Bt = AcadosSimBatchSolver(sim, p['n0'], p['threads'], build=False, generate=False, verbose=False)
            ins = [W.SimInst(p['sim'], solver=x, sim=sim) for x in Bt.sim_solvers]
        else:
            ins = [W.SimInst(p['sim']) for _ in range(p['n0'])]
        cur = p['n0']
        out = []
        for n, op in enumerate(p['ops']):
            if op[0] == 'one':
                v = ins[op[1]].apply(op[2])
                if op[2][0] != 'solve':
                    continue
            else:
                cur = min(cur, op[1] or cur)
                if batch:
                    Bt.solve(op[1])
                else:
                    for I in ins[:cur]:
                        I.apply(['solve'])
            e = {}
            for i, I in enumerate(ins):
                o = I.obs()
                o.pop('status')        # the batch integrator does not report one
                for f, v in o.items():
                    e[f'{i}.{f}'] = v
            out.append((n, op, e))
        return out
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        s.omp_cfg(1, 8)
        A = world(False)
        base = s.counters()
        s.sched(p['sched'])
        s.omp_cfg(p['icv'], 8)
        Bl = world(True)
    return finish(p, s, A, Bl, base, p['n0'], trace, p['sim'])
