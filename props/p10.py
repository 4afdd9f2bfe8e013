"""Memory discipline: creation allocates, destruction returns everything, calls in between neither allocate nor touch foreign memory."""
import gc, os, tempfile
from dst import zoo, world as W, simlib
from dst.engine import Violation
import numpy as np

PROBLEMS = list(zoo.REG)
SIMS = list(zoo.SIMREG)
RUNS = {'quick': 2000, 'thorough': 24000}
LIMIT = {'quick': 135, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run creates, uses and destroys several OCP solvers, integrators and batch solvers in one process in random order, with model-function, QP and clock faults; the simulated heap is audited after every call; non-trivial if at least two objects lived and a call iterated; distinct by event hash'
REAL = ['acados C library', 'generated solver C code incl. create/free/recreate', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['heap (every malloc/calloc/realloc/free of library and generated code is accounted, with red zones and quarantined freed blocks)', 'clock', 'OpenMP runtime', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['accesses beyond a heap block are seen if they write within 64 bytes of it or into a freed block; overruns inside one block are seen only by their effects',
               'documented (re)creating calls (set_new_time_steps with another N, update_qp_solver_cond_N, growth of a batch) and dumps to files may allocate']


def setup(tier):
    zoo.prepare(PROBLEMS + SIMS)
    for n in PROBLEMS:
        W.meta(n)


def gen_sim_op(r, name, d=None):
    q = r.random()
    if q < .5:
        return ['set', r.choice(['x', 'u', 'p', 'T'] if name != 'sgnsf' else ['x', 'u', 'p']), r.getrandbits(28), .5]
    if q < .6:
        return ['setv', r.choice(['x', 'u']), r.choice(['nan', 'inf', '1e200'])]
    return ['solve']


def plan(seed, tier):
    r = W.rnd(seed, 'p10')
    ops, live, nm, used = [], {}, {}, set()
    main = r.sample(PROBLEMS, r.choice([1, 1, 2, 3]))
    for _ in range(r.randint(6, 30)):
        q = r.random()
        free = [i for i in range(3) if i not in live]
        if not live or (free and q < .15):
            i = free[0]
            if r.random() < .22:
                live[i] = ('sim', r.choice(SIMS))
                ops.append(['new', i, 'sim', live[i][1], 0])
            elif r.random() < .12:
                n = r.choice([x for x in main if x != 'mocp'] or ['erk'])
                live[i] = ('batch', n)
                ops.append(['new', i, 'batch', n, r.randint(1, 3)])
            else:
                live[i] = ('ocp', r.choice(main))
                ops.append(['new', i, 'ocp', live[i][1], 0])
                nm[i] = None
            continue
        i = r.choice(sorted(live))
        k, n = live[i]
        if q < .24:
            ops.append(['del', i])
            del live[i]
            continue
        if k == 'sim':
            ops += [['op', i, gen_sim_op(r, n)] for _ in range(r.randint(1, 3))] + [['op', i, ['solve']]]
        elif k == 'batch':
            ops.append(['bop', i, r.choice(['solve', 'solve', 'reset', 'flat', 'getflat', 'iter', 'grow'])])
        else:
            m = W.meta(n)
            so = m.ocp.solver_options
            if q < .3 and not m.mocp:
                N2 = r.choice([m.N, m.N, m.N + r.randint(1, 4), max(2, m.N - r.randint(1, 4))])
                ops.append(['nts', i, N2, r.getrandbits(28)])
                nm[i] = N2 if N2 != m.N or nm[i] else None
            elif q < .36 and not m.mocp and 'PARTIAL' in so.qp_solver:
                ops.append(['cond', i, r.randint(1, 8)])
            elif q < .4:
                ops.append(['dump', i, r.choice(['qp', 'iter'])])
            elif nm[i] is not None:
                ops.append(['raw', i, r.choice(['solve', 'solve', 'reset', 'get', 'fact', 'set'])])
            else:
                for o in W.gen_program(r, m, 1, resets=True, queries=True):
                    ops.append(['op', i, o])
                if r.random() < .5:
                    ops.append(['op', i, ['q', r.choice(W.query_kinds(m)), r.randrange(m.N + 1)]])
                if r.random() < .15 and m.nlp in ('SQP', 'SQP_RTI') and 'HPIPM' in so.qp_solver:
                    ops.append(['op', i, ['fact']])
    faults = W.gen_faults(r, .6)
    return {'seed': seed, 'tier': tier, 'ops': ops, 'faults': faults, 'scramble': 1, 'threads': r.choice([1, 1, 2, 4]), 'sched': W.gen_sched(r, 0)}


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(p['threads'], 8)
    res = {'violation': None, 'obs': ''}
    g0 = s.alloc_newgen()
    slots, own, err = {}, {}, {}
    created = iters = 0

    def bad(sig, msg):
        raise Violation(sig, msg)

    def audit(what, c0, c1):
        if s.heap_check() or c1['heap_smash'] > c0['heap_smash']:
            bad('memory-overrun', f'{what}: memory outside an allocated block was written: {s.trace_text()[-300:] if trace else ""}')
        if c1['bad_free'] > c0['bad_free']:
            bad('bad-free', f'{what}: a pointer that is not allocated was freed')
    out = {}
    armed = False
    for n, op in enumerate(p['ops']):
        i = op[1]
        c0, l0 = s.counters(), s.live_blocks(g0)
        what = f'op {n} {op}'
        rt = False
        if op[0] == 'new':
            if i in slots:
                continue
            created += 1
            if op[2] == 'ocp':
                slots[i] = W.Inst(op[3], save_p_global=True)
            elif op[2] == 'sim':
                slots[i] = W.SimInst(op[3])
            else:
                from acados_template import AcadosOcpBatchSolver
                slots[i] = AcadosOcpBatchSolver(zoo.ocp(op[3]), op[4], p['threads'], build=False, generate=False, verbose=False, check_code_reuse_possible=False)
            own[i] = 0
            if not armed:
                armed = True
                W.arm(s, p['faults'])
        elif i not in slots:
            continue
        I = slots.get(i)
        if op[0] == 'del':
            nl = own.pop(i)
            del slots[i], I
            gc.collect()
            l1 = s.live_blocks(g0)
            audit(what, c0, s.counters())
            if l1 != l0 - nl:
                bad('leak', f'{what}: {l1 - l0 + nl} of the {nl} blocks allocated for this object are still allocated after its destruction' + (f': {s.live_text(g0)}' if not slots else ''))
            continue
        try:
            if op[0] == 'op':
                rt = op[2][0] != 'reset'
                s.sched(p['sched'], n)
                s.mark_solve(rt)
                v = I.apply(op[2])
                if op[2][0] in ('step', 'solve', 'phase'):
                    s.mark_solve(0)
                    if isinstance(I, W.SimInst):
                        iters += 1
                    else:
                        o = I.obs(); iters += o['nlp_iter'] > 0
                        out[str(n)] = W.dig(o)
            elif op[0] == 'raw':
                rt = op[2] != 'reset'
                s.mark_solve(rt)
                if op[2] == 'solve':
                    iters += 1
                    I.s.solve()
                elif op[2] == 'reset':
                    I.s.reset()
                elif op[2] == 'fact':
                    if I.m.nlp in ('SQP', 'SQP_RTI') and 'HPIPM' in I.m.ocp.solver_options.qp_solver:
                        I.s.setup_qp_matrices_and_factorize()
                elif op[2] == 'set':
                    for k in range(I.s.N + 1):
                        x = I.s.get(k, 'x')
                        I.s.set(k, 'x', x + .01)
                else:
                    for f in W.OUT:
                        I.s.get_flat(f)
            elif op[0] == 'bop':
                from acados_template import AcadosOcpBatchSolver
                rt = op[2] not in ('grow', 'reset')
                s.sched(p['sched'], n)
                s.mark_solve(rt)
                nb = len(I.ocp_solvers)
                if op[2] == 'solve':
                    I.solve()
                elif op[2] == 'reset':
                    for x in I.ocp_solvers:
                        x.reset()
                elif op[2] == 'flat':
                    I.set_flat('x', I.get_flat('x'))
                elif op[2] == 'getflat':
                    I.get_flat('u')
                elif op[2] == 'iter':
                    it = I.store_iterate_to_flat_obj(); I.load_iterate_from_flat_obj(it)
                elif nb < 4:
                    I.set_flat('x', np.zeros((nb + 1, I.get_flat('x').shape[1])))
            elif op[0] == 'nts':
                ts = np.array([.1 + .02 * x for x in np.random.RandomState(op[3] & 0xffffff).rand(op[2])])
                I.s.set_new_time_steps(ts)
            elif op[0] == 'cond':
                if op[2] <= I.s.N and (I.m.nlp != 'DDP' or op[2] == I.s.N):
                    I.s.update_qp_solver_cond_N(op[2])
            elif op[0] == 'dump':
                if op[2] == 'qp':
                    I.s.dump_last_qp_to_json(os.path.join(os.getcwd(), f'd{n}.json'), overwrite=True)
                else:
                    I.s.store_iterate(os.path.join(os.getcwd(), f'd{n}.json'), overwrite=True, verbose=False)
        finally:
            s.mark_solve(0)
            I = x = it = v = o = None
        c1, l1 = s.counters(), s.live_blocks(g0)
        own[i] += l1 - l0
        audit(what, c0, c1)
        if rt:
            if c1['realtime_allocs'] > c0['realtime_allocs']:
                bad('allocation-in-call', f'{what}: {c1["realtime_allocs"] - c0["realtime_allocs"]} allocations during the call')
            if l1 != l0:
                bad('free-in-call', f'{what}: number of allocated blocks changed by {l1 - l0}')
    I = None
    for i in sorted(slots):
        del slots[i]
        gc.collect()
        c = s.counters()
        audit(f'destruction of {i}', {'heap_smash': 0, 'bad_free': 0}, c)
    left = s.live_blocks(g0)
    if left:
        bad('leak', f'{left} blocks ({s.live_text(g0)}) are still allocated after all objects were destroyed')
    if trace:
        res['trace'] = s.trace_text()
    res['obs'] = W.dig(out)
    return W.add_stats(res, s, {'nontrivial': created > 1 and iters > 0, 'states': list(out.values())})
