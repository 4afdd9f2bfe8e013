"""Stage-parallel (OpenMP) execution is indistinguishable from serial execution."""
from dst import zoo, world as W, simlib
from dst.engine import Violation
import numpy as np

PROBLEMS = list(zoo.REG)
RUNS = {'quick': 2400, 'thorough': 12000}
LIMIT = {'quick': 105, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is non-trivial if at least one parallel region with more than one thread was scheduled with at least one context switch between two accesses, and at least one solve was compared'
REAL = ['acados C library (all of acados/ and interfaces/acados_c)', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime (simulated: coroutines + seeded scheduler)', 'clock', 'heap']
ASSUMPTIONS = ['preemption happens at instrumented memory accesses, model-function calls and clock reads; accesses inside pre-compiled BLASFEO/HPIPM are atomic with respect to preemption']


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in PROBLEMS:
        W.meta(n)


def plan(seed, tier):
    r = W.rnd(seed, 'p01')
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    ops = []
    for _ in range(r.randint(0, 2)):
        ops.append(W.gen_iter_op(r, m, r.choice([.1, .5, 2.])))
    for _ in range(r.randint(1, 3)):
        for _ in range(r.randint(0, 4)):
            ops.append(W.gen_data_op(r, m))
        if m.nlp != 'SQP_RTI' and r.random() < .5:
            ops.append(['opt', 'max_iter', r.randint(1, 12)])
        if r.random() < .15:
            ops.append(['reset', True, r.random() < .5, False, m.has_x0 and r.random() < .3])
        ops.append(['step'])
        if r.random() < .3:
            ops.append(['cost'])
        if r.random() < .3 and name not in zoo.ASRTI:
            ops.append(['res'])
    faults = []
    if r.random() < .35:
        for _ in range(r.randint(1, 2)):
            if r.random() < .6:
                faults.append({'t': 'fnc', 'mod': (mod := r.choice([40, 200, 1000])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 5]), 'arg': 1e3, 'name': ''})
            else:
                a = r.randint(0, 6)
                faults.append({'t': 'qp', 'from': a, 'to': a + r.randint(0, 2), 'kind': r.choice([1, 2, 3, 4, 6]), 'arg': r.randint(1, 4)})
    return {'seed': seed, 'tier': tier, 'problem': name, 'threads': r.randint(2, 8), 'ops': ops, 'faults': faults, 'sched': W.gen_sched(r),
            'scramble': 0}


QP = ['A', 'B', 'b', 'Q', 'R', 'S', 'q', 'r', 'lbx', 'ubx', 'lbu', 'ubu']


def world_run(p, s, threads):
    s.omp_cfg(threads, 8)
    s.faults_clear()
    I = W.Inst(p['problem'])
    W.arm(s, p['faults'])
    log = []
    for i, op in enumerate(p['ops']):
        v = I.apply(op)
        if op[0] in ('step', 'cost', 'res'):
            o = I.obs()
            o['ret'] = v
            if op[0] == 'step':
                for k in (0, I.m.N // 2, I.m.N):
                    for f in QP:
                        if f in ('A', 'B', 'b') and k == I.m.N or (f in ('B', 'R', 'r', 'S') and not I.m.nu[k]):
                            continue
                        try:
                            o[f'qp_{f}_{k}'] = np.array(I.s.get_from_qp_in(k, f))
                        except Exception:
                            pass
            log.append((i, op[0], o))
    return log


def execute(p, trace=False):
    s = W.begin(dict(p, sched={'mode': 0, 'param': 1, 'seed': 1, 'race': 0}), trace)
    A = world_run(p, s, 1)
    base = s.counters()
    s.sched(p['sched'])
    B = world_run(p, s, p['threads'])
    c = s.counters()
    res = {'violation': None}
    if s.race():
        res['violation'] = {'sig': 'data-race', 'msg': f'{p["problem"]}: {s.race()}'}
    if c['deadlocks']:
        res['violation'] = {'sig': 'deadlock', 'msg': p['problem']}
    for (i, n, a), (_, _, b) in zip(A, B):
        d = W.diff(a, b)
        if d and not res['violation']:
            res['violation'] = {'sig': 'schedule-dependent-result', 'msg': f'{p["problem"]}: op {i} ({n}) with {p["threads"]} threads differs from serial: {d}'}
    if trace:
        res['trace'] = s.trace_text()
    res['obs'] = W.dig({str(i): W.dig(o) for i, _, o in B})
    sw = c['thread_switches'] - base['thread_switches']
    return W.add_stats(res, s, {'nontrivial': sw > 0 and len(B) > 0, 'states': [W.dig(o) for _, _, o in B], 'key': '%x' % s.il_hash(),
                                'sched_rec': s.sched_rec() if p.get('record') else None})
