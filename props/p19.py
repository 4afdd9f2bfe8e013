"""Results depend on the inputs only: not on uninitialised memory, addresses, time of day or speed."""
from dst import zoo, world as W, simlib
from dst.engine import Violation
import numpy as np

PROBLEMS = list(zoo.REG)
SIMS = list(zoo.SIMREG)
RUNS = {'quick': 4000, 'thorough': 16000}
LIMIT = {'quick': 120, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run executes one program twice in one process: on a clean heap with a regular clock, and with scrambled heap contents, shifted addresses, overwritten dead stack, jumping clocks and slow functions; non-trivial if at least one solve iterated; distinct by event hash'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['heap (contents and addresses chosen by the seed)', 'clock (start, rate and jumps chosen by the seed)', 'OpenMP runtime', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['no time limit is configured in these runs, so time must not matter; all outputs are compared bitwise except time stamps']


def setup(tier):
    zoo.prepare(PROBLEMS + SIMS)
    for n in PROBLEMS:
        W.meta(n)


def plan(seed, tier):
    r = W.rnd(seed, 'p19')
    P = {'seed': seed, 'tier': tier, 'noise': r.getrandbits(30), 'start': r.choice([0, 1, 10**9, 2**40]), 'rate': r.choice([0, 1, 50, 10**6, 10**9]), 'mono': r.random() < .7,
         'jumps': sorted([r.randrange(400), r.choice([-1, 1]) * int(10 ** r.uniform(3, 13))] for _ in range(r.randint(0, 4)))}
    if r.random() < .12:
        from props import p11
        return dict(P, **p11.program_plan(r))
    name = r.choice(PROBLEMS)
    m = W.meta(name)
    return dict(P, problem=name, ops=W.gen_program(r, m, r.randint(1, 4)), faults=W.gen_faults(r, .5, False))


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    name = p.get('problem') or p['sim']

    def world(noisy):
        s.faults_clear()
        I = W.Inst(name) if 'problem' in p else W.SimInst(name)
        W.arm(s, p['faults'])
        log = []

        def scrib(i, op):
            if noisy:
                s.scribble(p['noise'] + i, 8)
        if 'problem' in p:
            W.run_program(I, p['ops'], log, scrib)
        else:
            for i, op in enumerate(p['ops']):
                scrib(i, op)
                I.apply(op)
                if op[0] == 'solve':
                    log.append((i, op, I.obs()))
        return log
    s.clock_cfg(10**9, 1_700_000_000 * 10**9, 50)
    A = world(False)
    s.alloc_cfg(1, -1)
    s.clock_cfg(p['start'], p['start'] * 7 + 3, p['rate'])
    for at, d in p['jumps']:
        s.clock_jump(s.clock_reads() + at, abs(d) if p['mono'] else d)
    if p['noise'] % 3 == 0:
        s.cost(10**9, 10**8, 10**9, 10**7)
    B = world(True)
    res = {'violation': None}
    it = False
    for (i, op, a), (_, _, b) in zip(A, B):
        it = it or a.get('nlp_iter', 1) > 0
        d = W.diff(a, b)
        if d and not res['violation']:
            res['violation'] = {'sig': 'environment-dependent', 'msg': f'{name}: op {i} {op[0]}: result depends on heap contents, addresses or time: {d}'}
    if trace:
        res['trace'] = s.trace_text()
    res['obs'] = W.dig({str(i): W.dig(o) for i, _, o in A})
    return W.add_stats(res, s, {'nontrivial': it and len(A) > 0, 'states': [W.dig(o) for _, _, o in A]})
