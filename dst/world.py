"""Child-side helpers: the simulated world of one run.

`Inst` couples one real AcadosOcpSolver with a reference model of all data a
user has set; ops are JSON lists so that plans can be stored and minimised."""
import ctypes, hashlib, json, random
import numpy as np
from . import zoo, simlib
from .meta import meta
from .engine import Violation, HarnessError

OUT = ('x', 'u', 'z', 'pi', 'lam', 'sl', 'su')
_sim = None


def sim():
    global _sim
    if _sim is None:
        _sim = simlib.Sim(zoo.setup())
    return _sim


def begin(plan, trace=False):
    """enter simulated time/heap/threads for one run"""
    s = sim()
    s.begin(plan['seed'] & 0x7fffffffffffffff)
    s.trace(1 if trace else 0)
    s.sched(plan.get('sched') or {'mode': 0, 'param': 1, 'seed': 1, 'race': 0})
    ck = plan.get('clock') or {}
    s.clock_cfg(ck.get('start', 10**9), ck.get('wall0', 1_700_000_000_000_000_000), ck.get('tick', 50))
    for at, d in plan.get('jumps') or []:
        s.clock_jump(at, d)
    s.alloc_cfg(int(plan.get('scramble', 0)), -1)
    s.cost(*ck.get('cost', (1000, 500, 3000, 1000)))
    s.omp_cfg(plan.get('icv', 4), 8)
    return s


def arm(s, faults):
    """faults: [{'t':'fn','from','to','kind','arg','name'}, {'t':'qp',...}, {'t':'fnc','mod','rem','kind',...}]"""
    for f in faults or []:
        t = f['t']
        if t == 'fn':
            s.fn_fault(f['from'], f['to'], f['kind'], float(f.get('arg', 0)), f.get('name', '').encode())
        elif t == 'qp':
            s.qp_fault(f['from'], f['to'], f['kind'], float(f.get('arg', 0)))
        elif t == 'fnc':
            s.fn_fault_content(f['mod'], f['rem'], f['kind'], float(f.get('arg', 0)), f.get('name', '').encode())
        elif t == 'qpc':
            s.qp_fault_content(f['mod'], f['rem'], f['kind'], float(f.get('arg', 0)))


def canon(a):
    a = np.atleast_1d(np.array(a, dtype=np.float64, copy=True) + 0.0)
    a[np.isnan(a)] = np.nan
    return a


def dig(d):
    """hash of an observation dict"""
    h = hashlib.sha1()
    for k in sorted(d):
        h.update(str(k).encode())
        v = d[k]
        h.update(canon(v).tobytes() if isinstance(v, (np.ndarray, float, int, list)) else repr(v).encode())
    return h.hexdigest()[:16]


def diff(a, b):
    """first differing key of two observation dicts (bitwise; NaN==NaN, -0==0)"""
    for k in a:
        if k not in b:
            return f'{k}: missing'
        x, y = a[k], b[k]
        if isinstance(x, (np.ndarray, float, int)):
            x, y = canon(x), canon(y)
            if x.shape != y.shape:
                return f'{k}: shape {x.shape} vs {y.shape}'
            if x.tobytes() != y.tobytes():
                i = np.flatnonzero(~((x == y) | (np.isnan(x) & np.isnan(y))).ravel())
                i = int(i[0]) if i.size else 0
                return f'{k}[{i}]: {x.ravel()[i]!r} vs {y.ravel()[i]!r} (max abs diff {_mad(x, y):.3e})'
        elif x != y:
            return f'{k}: {x!r} vs {y!r}'
    for k in b:
        if k not in a:
            return f'{k}: extra'
    return None


def _mad(x, y):
    with np.errstate(all='ignore'):
        d = np.abs(x - y)
        return float(np.nanmax(d)) if d.size and not np.all(np.isnan(d)) else float('nan')


def close(a, b, rtol, atol):
    """first key where two observation dicts differ by more than a tolerance"""
    for k in a:
        x, y = np.atleast_1d(np.asarray(a[k], float)), np.atleast_1d(np.asarray(b[k], float))
        if x.shape != y.shape:
            return f'{k}: shape {x.shape} vs {y.shape}'
        fx, fy = np.isfinite(x), np.isfinite(y)
        if (fx != fy).any():
            return f'{k}: finite vs non-finite'
        e = np.abs(x - y)[fx] - (atol + rtol * np.maximum(np.abs(x), np.abs(y))[fx])
        if e.size and e.max() > 0:
            return f'{k}: {_mad(x, y):.3e}'
    return None


def rs(vs):
    return np.random.RandomState(vs & 0x7fffffff)


STAT_TIME = ('time',)


class Inst:
    def __init__(self, name, ocp=None, make=True, save_p_global=False, model=True):
        from acados_template import AcadosOcpSolver
        self.name = name
        self.m = meta(name)
        self.ocp = ocp or zoo.ocp(name)
        self.s = AcadosOcpSolver(self.ocp, generate=False, build=False, check_reuse_possible=False, verbose=False, save_p_global=save_p_global)
        self.reset_model()
        self.status = None
        self.opts = {}

    # ---------------------------------------------------------------- reference data
    def reset_model(self):
        """problem data as in the description; iterate as after creation"""
        m = self.m
        self.d = [{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in D.items()} for D in m.st]
        for k in range(m.N + 1):
            self.d[k]['dt'] = float(m.ts[min(k, m.N - 1)])
            self.d[k]['pg'] = m.pg.copy()
        self.pg = m.pg.copy()
        self.set_fields = {}

    def data(self):
        return self.d

    # ---------------------------------------------------------------- ops
    def apply(self, op):
        """returns the status for solve-like ops, else None"""
        if op[0] in ('step', 'solve', 'phase', 'reset'):
            self.solved = op[0] != 'reset'
        return getattr(self, 'op_' + op[0])(*op[1:])

    def op_set(self, f, k, vs, scale=1., off=0.):
        n = self.m.dim(f, k)
        v = off + scale * rs(vs).randn(n)
        if f in ('lam', 'sl', 'su'):
            v = np.abs(v)
        self.s.set(k, f, v)
        self.set_fields[(f, k)] = v
        return None

    def op_setv(self, f, k, val):
        """all components = val (may be nan/inf/huge)"""
        v = np.full(self.m.dim(f, k), float(val))
        self.s.set(k, f, v)
        self.set_fields[(f, k)] = v

    def op_flat(self, f, vs, scale=1.):
        m = self.m
        rng = range(m.N + (f not in ('u', 'z', 'pi')))
        r = rs(vs)
        parts = [scale * r.randn(m.dim(f, k)) for k in rng]
        if f in ('lam', 'sl', 'su'):
            parts = [np.abs(p) for p in parts]
        if f == 'p':
            parts = [self.d[k]['p'] + p for k, p in zip(rng, parts)]
        self.s.set_flat(f, np.concatenate(parts) if parts else np.zeros(0))
        for k, p in zip(rng, parts):
            if f == 'p':
                self.d[k]['p'] = p
            else:
                self.set_fields[(f, k)] = p

    def op_p(self, k, vs, scale=.2):
        v = self.m.st[k]['p'] + scale * rs(vs).randn(self.m.np_[k])
        self.s.set(k, 'p', v)
        self.d[k]['p'] = v

    def op_psp(self, k, idx, vs, scale=.2):
        idx = np.array(idx, int)
        v = self.m.st[k]['p'][idx] + scale * rs(vs).randn(idx.size)
        self.s.set_params_sparse(k, idx, v)
        p = self.d[k]['p'].copy()
        p[idx] = v
        self.d[k]['p'] = p

    def op_pg(self, vs, scale=.1):
        v = self.m.pg + scale * rs(vs).randn(self.m.npg)
        self.s.set_p_global_and_precompute_dependencies(v)
        for D in self.d:
            D['pg'] = v
        self.pg = v

    def bound_values(self, t, k, vs, scale):
        m = self.m
        D = m.st[k]
        r = rs(vs)
        lo, hi = D['l' + t], D['u' + t]
        if k == 0 and t == 'bx' and m.has_x0:
            v = lo + scale * r.randn(lo.size)
            return v, v.copy()
        w = np.minimum(np.abs(hi - lo), 4.)
        lo2 = lo + scale * .2 * w * r.uniform(-1, 1, lo.size); hi2 = hi + scale * .2 * w * r.uniform(-1, 1, lo.size)
        hi2 = np.maximum(hi2, lo2 + 1e-3)
        if vs % 7 < 2:      # one-sided / absent constraints
            big = [1e10, 1e12][vs % 2]
            lo2 = np.where(r.rand(lo.size) < .4, -big, lo2)
            hi2 = np.where(r.rand(lo.size) < .4, big, hi2)
        return lo2, hi2

    def lam_mask(self, k):
        """multipliers of absent bounds are zero"""
        D = self.d[k]
        ts = [t for t in ('bu', 'bx', 'g', 'h', 'phi') if D['_n'][t]]
        lo = np.concatenate([D['l' + t] for t in ts] or [[]]); hi = np.concatenate([D['u' + t] for t in ts] or [[]])
        return np.concatenate([lo > -1e10, hi < 1e10, np.ones(2 * D['_ns'])]).astype(float)

    def op_b(self, t, k, vs, scale=.5):
        lo, hi = self.bound_values(t, k, vs, scale)
        ln, un = self.m.bnames(t)
        if t == 'phi':      # the interface exposes the upper bound only
            lo = self.d[k]['lphi']
            self.s.constraints_set(k, un, hi)
        elif t in ('bx', 'bu') and vs % 2:
            self.s.set(k, ln, lo); self.s.set(k, un, hi)
        else:
            self.s.constraints_set(k, ln, lo); self.s.constraints_set(k, un, hi)
        self.d[k]['l' + t], self.d[k]['u' + t] = lo, hi

    def op_x0(self, vs, scale=.2):
        self.op_b('bx', 0, vs, scale)

    def op_cd(self, k, vs, scale=.2):
        for f in ('C', 'D'):
            if f in self.m.st[k]:
                v = self.m.st[k][f] + scale * rs(vs + (f == 'D')).randn(*self.m.st[k][f].shape)
                self.s.constraints_set(k, f, v, api='new')
                self.d[k][f] = v

    def cost_value(self, f, k, vs, scale):
        D = self.m.st[k]
        r = rs(vs)
        if f == 'yref':
            return D[f] + scale * .3 * r.randn(D[f].size)
        if f == 'W':
            n = D[f].shape[0]
            g = scale * .2 * r.randn(n, n)
            s = np.sqrt(np.abs(np.diag(D[f])))
            W = D[f] * (1 + .5 * scale * r.rand())
            pat = r.randint(3)      # dense, diagonal, or two correlated entries
            if pat == 1:
                g = np.diag(np.diag(g))
            elif pat == 2:
                keep = r.permutation(n)[:2]
                g[[i for i in range(n) if i not in keep]] = 0
            return W + (g @ g.T) * np.outer(s, s)
        if f in ('zl', 'zu', 'Zl', 'Zu', 'scaling'):
            return D[f] * (1 + .8 * min(scale, 1.) * r.uniform(-1, 1, D[f].size))
        if f in ('Vx', 'Vu'):
            return D[f] + scale * .1 * r.randn(*D[f].shape)
        raise HarnessError(f)

    def op_c(self, f, k, vs, scale=1.):
        v = self.cost_value(f, k, vs, scale)
        if f == 'yref' and vs % 2:
            self.s.set(k, 'yref', v)
        else:
            self.s.cost_set(k, f, v, api='new')
        self.d[k][f] = v

    def op_opt(self, name, val):
        self.s.options_set(name, val)
        self.opts[name] = val

    def op_solve(self):
        self.status = self.s.solve()
        return self.status

    def op_phase(self, ph):
        self.s.options_set('rti_phase', ph)
        self.status = self.s.solve()
        return self.status

    def op_rti(self):
        """one full RTI step"""
        if self.m.ocp.solver_options.as_rti_level == 4:
            self.s.options_set('rti_phase', 0)
            self.status = self.s.solve()
        else:
            D = self.d[0]
            self.s.options_set('rti_phase', 1)
            self.status = self.s.solve()
            self.s.set(0, 'lbx', D['lbx']); self.s.set(0, 'ubx', D['ubx'])
            self.s.options_set('rti_phase', 2)
            self.status = self.s.solve()
        return self.status

    def op_step(self):
        return self.op_rti() if self.m.nlp == 'SQP_RTI' else self.op_solve()

    def op_reset(self, qp=True, num=False, opt=False, x0=False):
        self.s.reset(qp, num, opt, x0)
        if num:
            self.reset_model()
        self.set_fields = {}

    def op_adv(self, ns):
        sim().advance(int(ns))

    def op_fact(self):
        self.status = self.s.setup_qp_matrices_and_factorize()
        return self.status

    def op_getall(self):
        self.obs()

    def op_cost(self):
        return self.s.get_cost()

    def op_res(self):
        return self.s.get_residuals(recompute=True)

    def op_psps(self, k, idx, vs, scale=.2):
        """sparse parameter update, values passed as a strided view"""
        idx = np.array(idx, int)
        v = self.m.st[k]['p'][idx] + scale * rs(vs).randn(idx.size)
        b = np.full((idx.size, 3), 1e77)
        b[:, 1] = v
        self.s.set_params_sparse(k, idx, b[:, 1])
        p = self.d[k]['p'].copy()
        p[idx] = v
        self.d[k]['p'] = p

    def op_pga(self, vs, scale=.1):
        """p_global passed in an array that the caller reuses afterwards"""
        v = self.m.pg + scale * rs(vs).randn(self.m.npg)
        w = v.copy()
        self.s.set_p_global_and_precompute_dependencies(w)
        w[:] = 1e77
        for D in self.d:
            D['pg'] = v
        self.pg = v

    def op_fset(self, f, k, vs, scale=1.):
        """like set, from a strided view / other memory layout"""
        n = self.m.dim(f, k)
        v = scale * rs(vs).randn(n)
        if f in ('lam', 'sl', 'su'):
            v = np.abs(v)
        b = np.full((n, 2), 1e77)
        b[:, 0] = v
        self.s.set(k, f, b[:, 0])
        b[:] = 1e77
        self.set_fields[(f, k)] = v

    def op_q(self, kind, k=0):
        return query(self, kind, k)

    # ---------------------------------------------------------------- observation
    def get_data(self):
        """problem data as the getters report them"""
        o = {}
        s, m = self.s, self.m
        for k in range(m.N + 1):
            D = self.d[k]
            for t in ('bu', 'bx', 'g', 'h', 'phi'):
                if D['_n'][t]:
                    ln, un = m.bnames(t)
                    if t != 'phi':
                        o[f'l{t}_{k}'] = s.constraints_get(k, ln)
                    o[f'u{t}_{k}'] = s.constraints_get(k, un)
            for f in ('C', 'D'):
                if f in D:
                    o[f'{f}_{k}'] = s.constraints_get(k, f)
            for f in ('scaling', 'yref', 'W', 'zl', 'zu', 'Zl', 'Zu'):
                if f in D:
                    o[f'{f}_{k}'] = s.cost_get(k, f)
            if m.np_[k]:
                o[f'p_{k}'] = s.get(k, 'p')
        if m.npg and s.save_p_global:
            o['p_global'] = s.get_flat('p_global')
        return o

    def ref_data(self):
        o = {}
        for k in range(self.m.N + 1):
            D = self.d[k]
            for t in ('bu', 'bx', 'g', 'h', 'phi'):
                if D['_n'][t]:
                    if t != 'phi':
                        o[f'l{t}_{k}'] = D['l' + t]
                    o[f'u{t}_{k}'] = D['u' + t]
            for f in ('C', 'D', 'scaling', 'yref', 'W', 'zl', 'zu', 'Zl', 'Zu'):
                if f in D:
                    o[f'{f}_{k}'] = D[f]
            if self.m.np_[k]:
                o[f'p_{k}'] = D['p']
        if self.m.npg and self.s.save_p_global:
            o['p_global'] = self.pg
        return o

    def iterate(self):
        m = self.m
        return {f: [self.s.get(k, f) for k in range(m.N + (f not in ('u', 'z', 'pi')))] for f in OUT}

    def obs(self, stats=True, cost=False):
        o = {}
        m = self.m
        it = self.iterate()
        for f in OUT:
            o[f] = np.concatenate([np.atleast_1d(v) for v in it[f]]) if it[f] else np.zeros(0)
        if stats:
            o['status'] = int(self.s.get_status() if self.status is not None else -1)
            o['nlp_iter'] = int(self.s.get_stats('nlp_iter'))
            st = np.array(self.s.get_stats('statistics'))
            st = st[1:] if st.size else st
            if m.nlp == 'DDP' and st.ndim == 2 and st.shape[0] > 2 and m.ocp.solver_options.globalization == 'FIXED_STEP':
                st = np.delete(st, 2, 0)     # cost column: not evaluated with this globalization
            o['statistics'] = st
            o['res'] = np.array(self.s.get_residuals())
        if cost:
            o['cost'] = float(self.s.get_cost())
        return o

    def push(self, other):
        """make this (fresh) instance's problem data equal to other's"""
        m = self.m
        for k in range(m.N + 1):
            D = other.d[k]
            for t in ('bu', 'bx', 'g', 'h', 'phi'):
                if D['_n'][t]:
                    ln, un = m.bnames(t)
                    if t != 'phi':
                        self.s.constraints_set(k, ln, D['l' + t])
                    self.s.constraints_set(k, un, D['u' + t])
            for f in ('C', 'D'):
                if f in D:
                    self.s.constraints_set(k, f, D[f], api='new')
            for f in ('scaling', 'yref', 'W', 'zl', 'zu', 'Zl', 'Zu', 'Vx', 'Vu'):
                if f in D:
                    self.s.cost_set(k, f, D[f], api='new')
            if m.np_[k]:
                self.s.set(k, 'p', D['p'])
        if m.npg:
            self.s.set_p_global_and_precompute_dependencies(other.pg)
        self.d = [{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in D.items()} for D in other.d]
        self.pg = other.pg.copy()
        for n, v in other.opts.items():
            self.s.options_set(n, v)
            self.opts[n] = v

    def set_iterate(self, it, fields=OUT):
        m = self.m
        for f in fields:
            for k, v in enumerate(it[f]):
                if len(v):
                    self.s.set(k, f, np.asarray(v, float))


QP_DYN, QP_STAGE = ('A', 'B', 'b'), ('Q', 'R', 'S', 'q', 'r', 'C', 'D', 'lg', 'ug', 'lbx', 'ubx', 'lbu', 'ubu')
STATS = ('time_tot', 'time_lin', 'time_sim', 'time_qp', 'time_qp_solver_call', 'time_qp_xcond', 'time_glob', 'time_reg', 'sqp_iter', 'nlp_iter', 'stat_m', 'stat_n', 'statistics')


def query_kinds(m):
    """everything a caller can read"""
    q = ['iter', 'data', 'flat', 'obj', 'flatobj', 'stats', 'status', 'qp', 'hess', 'lastqp', 'cost', 'print', 'data']
    if m.has_x0:
        q.append('grad')
    if m.nlp != 'SQP_RTI' and m.integ <= {'ERK', 'DISCRETE'}:
        q.append('res')     # for (AS-)RTI it overwrites the linearization that the next feedback uses; implicit integrators restart from the last call
    if not m.mocp and getattr(m.ocp.solver_options, 'with_value_sens_wrt_params', False):
        q.append('pggrad')
    if not m.mocp and getattr(m.ocp.solver_options, 'with_solution_sens_wrt_params', False):
        q += ['sens', 'senspg', 'adj']
    return q


def query(I, kind, k):
    s, m = I.s, I.m
    o = {}
    if kind in ('sens', 'senspg', 'adj') and (not getattr(I, 'solved', False) or s.status != 0):
        return o        # defined at a solution only
    if kind == 'iter':
        for f, v in I.iterate().items():
            for i, w in enumerate(v):
                o[f'{f}{i}'] = w
    elif kind == 'data':
        o = I.get_data()
    elif kind == 'flat':
        for f in OUT + ('p',):
            o[f] = s.get_flat(f)
    elif kind == 'obj':
        it = s.get_iterate()
        for f in OUT:
            for i, w in enumerate(getattr(it, f)):
                o[f'{f}{i}'] = w
    elif kind == 'flatobj':
        it = s.get_flat_iterate()
        for f in OUT:
            o[f] = getattr(it, f)
    elif kind == 'stats':
        for f in STATS:
            o[f] = s.get_stats(f)
    elif kind == 'status':
        o['status'] = s.status
    elif kind == 'qp':
        for f in (QP_DYN if k < m.N else ()) + QP_STAGE:
            if k == m.N and f in ('B', 'R', 'S', 'r', 'D', 'lbu', 'ubu') or m.mocp:
                continue
            o[f] = s.get_from_qp_in(k, f)
    elif kind == 'hess':
        o['H'] = s.get_hessian_block(k)
    elif kind == 'lastqp':
        for f, v in s.get_last_qp().items():
            o[f] = v if isinstance(v, np.ndarray) else np.array(v, float)
    elif kind == 'cost':
        o['cost'] = s.get_cost()
    elif kind == 'res':
        o['res'] = s.get_residuals(recompute=True)
    elif kind == 'print':
        import contextlib, io as _io
        with contextlib.redirect_stdout(_io.StringIO()):
            s.print_statistics()
    elif kind == 'grad':
        o['grad'] = s.eval_and_get_optimal_value_gradient('initial_state')
    elif kind == 'pggrad':
        o['pg'] = s.eval_and_get_optimal_value_gradient('p_global')
    elif kind in ('sens', 'senspg'):
        d = s.eval_solution_sensitivity(list(range(m.N + 1)), 'initial_state' if kind == 'sens' else 'p_global', return_sens_pi=True, return_sens_lam=True, sanity_checks=False)
        for f, v in d.items():
            for i, w in enumerate(v):
                o[f'{f}{i}'] = w
    elif kind == 'adj':
        r = rs(k)
        o['adj'] = s.eval_adjoint_solution_sensitivity([(k, r.randn(m.nx[k], 2))], [(0, r.randn(m.nu[0], 2))], sanity_checks=False)
    else:
        raise HarnessError(kind)
    return o


def add_stats(res, s, extra=None):
    c = s.counters()
    st = res.setdefault('stats', {})
    st['counters'] = {k: v for k, v in c.items() if v}
    st['faults'] = {k: c[k] for k in simlib.FAULTS if c.get(k)}
    st['il'] = s.il_hash() if c['thread_switches'] else None
    st['sim_ns'] = s.total_advance()
    res['hash'] = '%016x' % s.hash() + ('-' + res['obs'] if 'obs' in res else '')
    if extra:
        st.update(extra)
    return res


# -------------------------------------------------------------------- plan generators (parent side, no library)
def rnd(seed, salt=''):
    return random.Random(f'{seed}/{salt}')


def gen_data_op(r, m, kinds=('c', 'b', 'p', 'psp', 'x0', 'cd', 'pg'), scale=1.):
    """one random problem-data change"""
    for _ in range(50):
        t = r.choice(kinds)
        k = r.randrange(m.N + 1)
        D = m.st[k]
        vs = r.getrandbits(30)
        if t == 'c':
            fs = [f for f in ('yref', 'W', 'zl', 'zu', 'Zl', 'Zu', 'scaling', 'Vx', 'Vu') if f in D]
            if fs:
                return ['c', r.choice(fs), k, vs, scale]
        elif t == 'b':
            ts = [b for b in ('bu', 'bx', 'g', 'h', 'phi') if D['_n'][b] and not (k == 0 and b == 'bx')]
            if ts:
                return ['b', r.choice(ts), k, vs, .5 * scale]
        elif t == 'p' and m.np_[k]:
            return ['p', k, vs, .2 * scale]
        elif t == 'psp' and m.np_[k]:
            idx = sorted(r.sample(range(m.np_[k]), r.randint(1, m.np_[k])))
            return ['psp', k, idx, vs, .2 * scale]
        elif t == 'x0' and m.has_x0:
            return ['x0', vs, .2 * scale]
        elif t == 'cd' and D['_n']['g']:
            return ['cd', k, vs, .2 * scale]
        elif t == 'pg' and m.npg:
            return ['pg', vs, .1 * scale]
    return ['c', 'scaling', 0, 1, .1]


def gen_iter_op(r, m, scale=.5):
    if r.random() < .4:
        f = r.choice([f for f in OUT if any(m.dim(f, k) for k in range(m.N))])
        return ['flat', f, r.getrandbits(30), scale]
    for _ in range(50):
        f = r.choice(OUT)
        k = r.randrange(m.N + (f not in ('u', 'z', 'pi')))
        if m.dim(f, k):
            return ['set', f, k, r.getrandbits(30), scale]
    return ['set', 'x', 0, 1, scale]


TOLS = ('tol_stat', 'tol_eq', 'tol_ineq', 'tol_comp')


def gen_program(r, m, n, bad=True, opts=True, resets=True, queries=True):
    """n solver calls with random data, guesses, options, queries in between"""
    ops = []
    for _ in range(n):
        for _ in range(r.randint(0, 3)):
            ops.append(gen_data_op(r, m, scale=r.choice([.3, 1.])))
        for _ in range(r.choice([0, 0, 1, 3])):
            ops.append(gen_iter_op(r, m, r.choice([.1, .5, 3.])))
        if bad and r.random() < .12:
            ops.append(['setv', r.choice(['x', 'u']), r.randrange(m.N), r.choice(['nan', 'inf', '-inf', '1e200'])])
        if opts and r.random() < .25 and m.nlp != 'SQP_RTI':
            ops.append(['opt', 'max_iter', r.randint(1, 25)])
        if opts and r.random() < .15:
            ops.append(['opt', r.choice(TOLS), 10. ** r.uniform(-9, 0)])
        if resets and r.random() < .12:
            ops.append(['reset', r.random() < .7, r.random() < .2, False, m.has_x0 and r.random() < .3])
        if m.nlp == 'SQP_RTI' and r.random() < .3:
            ops.append(['phase', r.choice([0, 1, 2]) if m.ocp.solver_options.as_rti_level == 4 else r.choice([1, 1, 2])])
        ops.append(['step'])
        if queries:
            if r.random() < .15:
                ops.append(['cost'])
            if r.random() < .1 and m.name not in zoo.ASRTI:
                ops.append(['res'])
    return ops


def gen_faults(r, p=.85, content=True):
    faults = []
    if r.random() < p:
        for _ in range(r.randint(1, 3)):
            q = r.random()
            if q < .5:
                a = int(2 ** r.uniform(0, 10))
                faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 0, 3, 40, 100000]), 'kind': r.choice([1, 1, 2, 5]), 'arg': 10. ** r.uniform(0, 12), 'name': ''})
            elif q < .6 and content:
                faults.append({'t': 'fnc', 'mod': (mod := r.choice([40, 200, 1000])), 'rem': r.randrange(mod), 'kind': r.choice([1, 2, 5]), 'arg': 1e3, 'name': ''})
            else:
                a = int(2 ** r.uniform(0, 5)) - 1
                faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 0, 1, 3, 1000]), 'kind': r.choice([1, 2, 2, 3, 4, 6]), 'arg': r.randint(0, 4)})
    return faults


def run_program(I, ops, log, before=None):
    for i, op in enumerate(ops):
        if before:
            before(i, op)
        v = I.apply(op)
        if op[0] in ('step', 'cost', 'phase', 'res', 'fact'):
            o = I.obs()
            if v is not None:
                o['ret'] = v
            log.append((i, op, o))


def gen_sched(r, race=1):
    mode = r.choice([1, 2, 2, 2, 3, 3, 4, 5])
    param = {2: r.choice([20, 200, 2000, 10000]), 3: r.randint(1, 12), 5: r.choice([50, 500, 5000])}.get(mode, 1)
    return {'mode': mode, 'param': param, 'seed': r.getrandbits(40), 'race': race}


# -------------------------------------------------------------------- integrators
class SimInst:
    """one real AcadosSimSolver plus the inputs a user has given it"""

    def __init__(self, name, solver=None, sim=None):
        from acados_template import AcadosSimSolver
        self.name = name
        self.sim = sim or zoo.sim(name)
        self.s = solver or AcadosSimSolver(self.sim, generate=False, build=False, check_reuse_possible=False, verbose=False)
        m, o = self.sim.model, self.sim.solver_options
        n = lambda e: int(e.shape[0]) if hasattr(e, 'shape') else len(e or [])
        self.dims = {'x': n(m.x), 'u': n(m.u), 'z': n(m.z), 'p': n(m.p), 'xdot': n(m.x)}
        self.kind = o.integrator_type
        self.flags = {'sens_forw': bool(o.sens_forw), 'sens_adj': bool(o.sens_adj), 'sens_hess': bool(o.sens_hess), 'sens_forw_p': bool(o.sens_forw_p)}
        self.alg, self.outz = bool(o.sens_algebraic), bool(o.output_z)
        # defaults as generated
        self.d = {'T': float(o.T), 'x': np.zeros(self.dims['x']), 'u': np.zeros(self.dims['u']), 'p': np.array(self.sim.parameter_values, float)}
        self.status = None

    def fields(self):
        f = ['x']
        if self.outz and self.dims['z']:
            f.append('z')
        if self.flags['sens_forw']:
            f += ['S_forw', 'Sx', 'Su']
        if self.flags['sens_adj']:
            f.append('S_adj')
        if self.flags['sens_hess']:
            f.append('S_hess')
        if self.alg and self.flags['sens_forw']:
            f.append('S_algebraic')
        if self.flags['sens_forw_p']:
            f.append('S_p')
        return f

    def value(self, f, vs, scale):
        r = rs(vs)
        if f == 'T':
            return float(.1 * 10. ** r.uniform(-1, .5))
        if f == 'p':
            return np.array(self.sim.parameter_values, float) * (1 + .3 * scale * r.randn(self.dims['p']))
        if f == 'seed_adj':
            return r.randn(self.dims['x'])
        if f == 't0':
            return float(r.uniform(-2, 2))
        return scale * r.randn(self.dims[f])

    def put(self, f, v):
        self.s.set(f, v)
        self.d[f] = v

    def apply(self, op):
        t = op[0]
        if t == 'set':
            self.put(op[1], self.value(op[1], op[2], op[3]))
        elif t == 'setv':
            self.put(op[1], np.full(self.dims[op[1]], float(op[2])))
        elif t == 'opt':
            self.s.options_set(op[1], bool(op[2]))
            self.flags[op[1]] = bool(op[2])
        elif t == 'solve':
            self.status = int(self.s.solve())
            return self.status

    def obs(self):
        o = {f: np.array(self.s.get(f)) for f in self.fields()}
        o['status'] = -1 if self.status is None else self.status
        return o
