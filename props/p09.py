"""Solver instances are independent of each other, and calls leave the settings of the process alone."""
import ctypes as ct, os
from dst import zoo, world as W, simlib
from dst.engine import Violation
import numpy as np

PROBLEMS = list(zoo.REG)
SIMS = list(zoo.SIMREG)
RUNS = {'quick': 1100, 'thorough': 12000}
LIMIT = {'quick': 120, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run drives 2-4 instances (solvers and integrators of the same or of different problems) through a random interleaving of calls, some of them executed at the same time by simulated threads with preemption at instrumented accesses; non-trivial if at least one group of concurrent calls was preempted and at least one solve was compared; distinct by interleaving'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime and application threads (coroutines, seeded scheduler)', 'clock', 'heap', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['accesses inside pre-compiled BLASFEO/HPIPM are atomic with respect to preemption, except that operand ranges take part in race detection',
               'faults are tied to the content of the arguments, so that they hit the same call whoever else runs']
MEASURE = 'distinct interleavings (hash of thread switches)'


def setup(tier):
    zoo.prepare(PROBLEMS + SIMS)
    for n in PROBLEMS:
        W.meta(n)


def burst(r, name):
    if name in SIMS:
        S = zoo.sim(name)
        f = ['x'] * 3 + (['u'] if S.model.u is not None and np.prod(getattr(S.model.u, 'shape', (0,))) else [])
        ops = [['set', r.choice(f), r.getrandbits(30), r.choice([.1, 1., 3.])] for _ in range(r.randint(0, 3))]
        return ops + [['solve']] * r.choice([1, 1, 2])
    m = W.meta(name)
    ops = [W.gen_data_op(r, m, scale=r.choice([.1, .4])) for _ in range(r.randint(0, 3))]
    for _ in range(r.choice([1, 1, 2])):
        for _ in range(r.choice([0, 0, 1, 2])):
            k = r.randrange(m.N)
            ops.append(r.choice([['set', 'x', k, r.getrandbits(30), .3], ['set', 'u', k, r.getrandbits(30), .3]] + ([['p', k, r.getrandbits(30), .1]] if m.np_[k] else [])))
        if m.nlp == 'SQP_RTI' and r.random() < .4:
            ops.append(['phase', r.choice([1, 2])])
        else:
            ops.append(['step'])
        if r.random() < .15:
            ops.append(['reset', r.random() < .7, r.random() < .3, False, m.has_x0 and r.random() < .3])
        if r.random() < .15:
            ops.append(['cost'])
    return ops


def plan(seed, tier):
    r = W.rnd(seed, 'p09')
    n = r.choice([2, 2, 3, 4])
    pool = PROBLEMS + SIMS * (1 if len(SIMS) < len(PROBLEMS) else 1)
    base = r.choice(pool)
    actors = [base] + [base if r.random() < .5 else r.choice(pool) for _ in range(n - 1)]
    groups = []
    for _ in range(r.randint(2, 5)):
        k = r.choice([1, 1, 2, n])
        g = [[a, burst(r, actors[a])] for a in sorted(r.sample(range(n), min(k, n)))]
        if r.random() < .12:
            g.append([-1, r.choice(PROBLEMS)])       # creation, use and destruction of one more solver in a thread
        groups.append(g)
    faults = []
    if r.random() < .3:
        mod = r.choice([60, 300, 1000])
        faults.append({'t': 'fnc', 'mod': mod, 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 5]), 'arg': 1e3, 'name': ''})
    if r.random() < .3:
        mod = r.choice([4, 12])
        faults.append({'t': 'qpc', 'mod': mod, 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 3, 4, 6]), 'arg': r.randint(1, 4)})
    return {'seed': seed, 'tier': tier, 'actors': actors, 'ops': groups, 'faults': faults, 'icv': r.choice([1, 2, 3, 5, 8]), 'icvs': [r.choice([0, 0, 1, 2, 4, 7]) for _ in range(5)], 'sched': W.gen_sched(r), 'scramble': 1}


def addr(f):
    return ct.cast(f, ct.c_void_p).value


def val(h):
    return h if isinstance(h, int) else ct.cast(h, ct.c_void_p).value


class Calls:
    """translation of operations into sequences of C calls"""

    def __init__(c):
        c.keep = []

    def dbl(c, v):
        a = np.ascontiguousarray(v, float).copy()
        c.keep.append(a)
        return a.ctypes.data

    def s(c, t):
        b = ct.create_string_buffer(t.encode())
        c.keep.append(b)
        return ct.addressof(b)

    def i(c, v):
        b = ct.c_int(v)
        c.keep.append(b)
        return ct.addressof(b)

    def translates(c, I, op):
        return op[0] == 'solve' if isinstance(I, W.SimInst) else \
            op[0] in ('solve', 'step', 'phase', 'p', 'reset', 'cost') or (op[0] == 'set' and op[1] in ('x', 'u'))

    def of(c, I, op):
        """calls of one operation, or None if it has to be executed through the Python interface"""
        t = op[0]
        if isinstance(I, W.SimInst):
            return [(addr(getattr(I.s.shared_lib, f'{I.s.sim.name}_acados_sim_solve')), [val(I.s.capsule)])] if t == 'solve' else None
        S, m = I.s, I.m
        lib = S._AcadosOcpSolver__acados_lib
        nm = S.name if hasattr(S, 'name') else I.ocp.name
        H = {k: val(getattr(S, 'nlp_' + k)) for k in ('config', 'dims', 'in', 'out', 'opts', 'solver')}
        solve = (addr(getattr(S.shared_lib, f'{nm}_acados_solve')), [val(S.capsule)])
        ph = lambda v: (addr(lib.ocp_nlp_solver_opts_set), [H['config'], H['opts'], c.s('rti_phase'), c.i(v)])
        if t == 'solve':
            return [solve]
        if t == 'step':
            if m.nlp != 'SQP_RTI':
                return [solve]
            if m.ocp.solver_options.as_rti_level == 4:
                return [ph(0), solve]
            D = I.d[0]
            b = lambda f: (addr(lib.ocp_nlp_constraints_model_set), [H['config'], H['dims'], H['in'], H['out'], 0, c.s(f), c.dbl(D[f])])
            return [ph(1), solve, b('lbx'), b('ubx'), ph(2), solve]
        if t == 'phase':
            return [ph(op[1]), solve]
        if t == 'set' and op[1] in ('x', 'u'):
            v = (op[5] if len(op) > 5 else 0.) + op[4] * W.rs(op[3]).randn(m.dim(op[1], op[2]))
            return [(addr(lib.ocp_nlp_out_set), [H['config'], H['dims'], H['out'], H['in'], op[2], c.s(op[1]), c.dbl(v)])]
        if t == 'p':
            v = m.st[op[1]]['p'] + (op[3] if len(op) > 3 else .2) * W.rs(op[2]).randn(m.np_[op[1]])
            I.d[op[1]]['p'] = v
            return [(addr(getattr(S.shared_lib, f'{nm}_acados_update_params')), [val(S.capsule), op[1], c.dbl(v), len(v)])]
        if t == 'reset':
            if op[2]:
                I.reset_model()
            return [(addr(getattr(S.shared_lib, f'{nm}_acados_reset')), [val(S.capsule)] + [int(bool(v)) for v in op[1:5]])]
        if t == 'cost':
            return [(addr(lib.ocp_nlp_eval_cost), [H['solver'], H['in'], H['out']])]


def new(name):
    return W.SimInst(name) if name in SIMS else W.Inst(name)


def life(name, donor):
    """create, solve and destroy one more solver of a problem (the library is the one of a loaded instance)"""
    L = donor.s.shared_lib
    nm = donor.ocp.name
    f = lambda s: getattr(L, f'{nm}_acados_' + s)
    f('create_capsule').restype = ct.c_void_p
    cap = f('create_capsule')()
    return cap, [(addr(f('create')), [cap]), (addr(f('solve')), [cap]), (addr(f('free')), [cap]), (addr(f('free_capsule')), [cap])]


SOLVES = ('solve', 'step', 'phase')


def serial(I, ops):
    for op in ops:
        v = I.apply(op)
    o = I.obs()
    return o


def caller_threads(s, p, gi):
    """the application changes its number of OpenMP threads from time to time"""
    n = (p.get('icvs') or [0])[gi % len(p.get('icvs') or [0])]
    if n:
        s.L.__getattr__("__wrap_omp_set_num_threads")(n)


class Procs:
    def __init__(c, s):
        c.s = s

    def get(c):
        return (c.s.procstate(), os.getcwd(), tuple(sorted(os.environ.items())))


def name_state(a, b):
    if a[0] != b[0]:
        x, y = a[0], b[0]
        if x & 0xffff != y & 0xffff:
            return f'number of OpenMP threads of the calling thread {x & 0xffff} -> {y & 0xffff}'
        return f'floating-point control {x >> 16:x} -> {y >> 16:x}'
    return 'working directory or environment'


def execute(p, trace=False):
    s = W.begin(dict(p, sched={'mode': 0, 'param': 1, 'seed': 1, 'race': 0}), trace)
    res = {'violation': None}
    P = Procs(s)

    def viol(sig, msg):
        if not res['violation']:
            res['violation'] = {'sig': sig, 'msg': msg}

    # alone: one instance after the other, each from creation to destruction
    ref = {}
    donors = {}
    for a, name in enumerate(p['actors']):
        W.arm(s, p['faults'])
        I = new(name)
        log = []
        for gi, g in enumerate(p['ops']):
            caller_threads(s, p, gi)
            for b, ops in g:
                if b == a:
                    st = P.get()
                    log.append(serial(I, ops))
                    if P.get() != st:
                        viol('process-state', f'{name}: {[o[0] for o in ops]}: {name_state(st, P.get())}')
        ref[a] = log
        del I
        s.faults_clear()
    lref = {}
    for g in p['ops']:
        for b, n in g:
            if b == -1 and n not in lref:
                W.arm(s, p['faults'])
                donors[n] = W.Inst(n)
                cap, q = life(n, donors[n])
                lref[n] = s.threads([q])
                s.faults_clear()
    # together
    base = s.counters()
    s.sched(p['sched'])
    W.arm(s, p['faults'])
    live, done = {}, {a: 0 for a in ref}
    left = {a: len(l) for a, l in ref.items()}
    states = []
    for gi, g in enumerate(p['ops']):
        caller_threads(s, p, gi)
        st = P.get()
        for a, _ in g:
            if a >= 0 and a not in live:
                live[a] = new(p['actors'][a])
        if len(g) == 1 and g[0][0] >= 0:
            obs = {g[0][0]: serial(live[g[0][0]], g[0][1])}
        else:
            C = Calls()
            seqs, post = [], []
            for a, ops in g:
                if a == -1:
                    cap, q = life(ops, donors[ops])
                    seqs.append(q); post.append((a, ops, []))
                    continue
                I = live[a]
                first = 0
                for i, op in enumerate(ops):    # what has no translation is executed before
                    if not C.translates(I, op):
                        first = i + 1
                for op in ops[:first]:
                    I.apply(op)
                q, mark = [], []
                for op in ops[first:]:
                    q += C.of(I, op)
                    if op[0] in SOLVES:
                        mark.append(len(q) - 1)
                seqs.append(q); post.append((a, ops, mark))
            ret = s.threads(seqs)
            obs = {}
            for (a, ops, mark), rr in zip(post, ret):
                if a == -1:
                    if rr[:2] != lref[ops][0][:2]:
                        viol('concurrent-life', f'{ops}: create/solve return {rr[:2]} in a thread beside others, {lref[ops][0][:2]} alone')
                    continue
                I = live[a]
                if mark:
                    I.status = I.s._status = rr[mark[-1]]
                obs[a] = I.obs()
        if P.get() != st:
            viol('process-state', f'group {gi}: {name_state(st, P.get())}')
        for a, o in obs.items():
            d = W.diff(ref[a][done[a]], o)
            done[a] += 1
            states.append(W.dig(o))
            if d:
                viol('instance-interference', f'{p["actors"][a]} (instance {a} of {p["actors"]}), call group {gi} ({"concurrent" if len(g) > 1 else "alone"}): {d}')
            if done[a] == left[a]:
                del live[a]
        if res['violation']:
            break
    c = s.counters()
    if s.race():
        viol('data-race', f'{p["actors"]}: {s.race()}')
    if c['deadlocks']:
        viol('deadlock', str(p['actors']))
    live.clear(); donors.clear()
    if s.heap_check():
        viol('heap-damaged', str(p['actors']))
    if trace:
        res['trace'] = s.trace_text()
    res['obs'] = W.dig({str(i): x for i, x in enumerate(states)})
    sw = c['thread_switches'] - base['thread_switches']
    return W.add_stats(res, s, {'nontrivial': sw > 0 and len(states) > 0, 'states': states, 'key': '%x' % s.il_hash(),
                                'sched_rec': s.sched_rec() if p.get('record') else None})
