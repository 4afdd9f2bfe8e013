"""Globalized solvers take only steps that the documented acceptance rule admits."""
import ctypes
import numpy as np
from dst import zoo, kkt, world as W
from dst.engine import Violation

PROBLEMS = [n for n in ('merit', 'slackb', 'mbt', 'fnl', 'funnel', 'wfqp', 'ddp') if n in zoo.REG]
RUNS = {'quick': 3200, 'thorough': 40000}
LIMIT = {'quick': 120, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a history of data changes, guesses, globalization options and solves under model-function and QP-solver faults; every accepted step of every solve is judged by an executable reference model of the acceptance rule (merit function with its weight update, funnel with its penalty and width updates, DDP decrease); non-trivial if some solve backtracked or took at least three steps'
REAL = ['acados C library', 'generated solver C code', 'Python interface', 'HPIPM/BLASFEO numerics']
STUB = ['OpenMP runtime', 'clock', 'heap (released memory scrambled)', 'fault seams around model functions and the QP solver']
ASSUMPTIONS = ['decisions whose two sides differ by less than the numerical tolerance may go either way; faulted model functions may only cause rejections']
FIELDS = ('x', 'u', 'sl', 'su', 'pi', 'lam')


def setup(tier):
    zoo.prepare(PROBLEMS)
    for n in PROBLEMS:
        kkt.oracle(n)


def plan(seed, tier):
    r = W.rnd(seed, 'p20')
    name = r.choice(PROBLEMS + ['mbt', 'fnl', 'slackb'])
    m = W.meta(name)
    ops = []
    for _ in range(r.choice([1, 2, 2, 3])):
        for _ in range(r.randint(0, 3)):
            ops.append(W.gen_data_op(r, m, scale=r.choice([.1, .4, 1.])))
        for _ in range(r.choice([0, 1, 2, 4])):
            ops.append(W.gen_iter_op(r, m, r.choice([.3, 1., 3.])))
        if r.random() < .3:
            ops.append(['opt', 'max_iter', r.randint(1, 15)])
        if r.random() < .5:
            ops.append(['opt', 'globalization_alpha_reduction', r.choice([.5, .7, .9, .3])])
        if r.random() < .5:
            ops.append(['opt', 'globalization_alpha_min', r.choice([.05, .2, .01, 1e-3])])
        if r.random() < .5:
            ops.append(['opt', 'globalization_eps_sufficient_descent', r.choice([1e-4, .1, .4])])
        if r.random() < .3 and name != 'wfqp':
            ops.append(['opt', 'globalization_full_step_dual', r.choice([0, 1])])
        if m.ocp.solver_options.globalization == 'MERIT_BACKTRACKING' and name != 'ddp':
            if r.random() < .5:
                ops.append(['opt', 'globalization_line_search_use_sufficient_descent', r.choice([0, 1, 1])])
            if r.random() < .3:
                ops.append(['opt', 'globalization_use_SOC', r.choice([0, 1])])
        elif name != 'ddp':
            for o, v in (('init_upper_bound', [1., .1, 10.]), ('init_increase_factor', [15., 1.2, 3.]), ('sufficient_decrease_factor', [.9, .5]), ('kappa', [.9, .3, .5]),
                         ('fraction_switching_condition', [1e-3, .1]), ('initial_penalty_parameter', [1., .5, .05])):
                if r.random() < .3:
                    ops.append(['opt', 'globalization_funnel_' + o, r.choice(v)])
            if r.random() < .35:
                ops.append(['copt', 'globalization_funnel_use_merit_fun_only', r.random() < .8])
        if r.random() < .1:
            ops.append(['reset', True, False, False, False])
        ops.append(['solve', r.getrandbits(30)])
    faults = []
    if r.random() < .45:
        for _ in range(r.randint(1, 2)):
            c = r.random()
            if c < .35:
                a = int(2 ** r.uniform(3, 11))
                faults.append({'t': 'fn', 'from': a, 'to': a + r.choice([0, 0, 3, 40, 100]), 'kind': r.choice([1, 2]), 'arg': 0, 'name': r.choice(['', '', 'constr', 'cost', 'dyn'])})
            else:
                a = int(2 ** r.uniform(0, 5)) - 1
                faults.append({'t': 'qp', 'from': a, 'to': a + r.choice([0, 0, 1, 3]), 'kind': r.choice([1, 1, 3, 6, 6]), 'arg': r.randint(0, 6)})
    return {'seed': seed, 'tier': tier, 'problem': name, 'ops': ops, 'faults': faults, 'scramble': 1}


def opt(I, name):
    return I.opts.get(name, getattr(I.s.acados_ocp.solver_options if hasattr(I.s, 'acados_ocp') else W.meta(I.name).ocp.solver_options, name))


def finite(it):
    return all(np.all(np.isfinite(v)) for f in FIELDS for v in it[f])


def along(a, d, t):
    return {f: [p + t * q for p, q in zip(a[f], d[f])] for f in ('x', 'u', 'sl', 'su')}


class Tol:
    def __init__(self, name):
        self.e = kkt.IMPL.get(name, 0.)

    def __call__(self, T, w=1.):
        if T['undef']:          # decision left open
            return np.inf
        return 1e-9 * (1 + abs(T['cost']) + w * sum(np.sum(np.abs(g)) for g in T['gap']) + w * sum(np.sum(np.abs(c)) for c in T['con'])) + self.e * w * 10


def weights(w, pi, lam):
    """Leineweber 1999, M5.1"""
    a = [np.abs(v) for v in pi]
    if w is None:
        return a, [np.abs(v) for v in lam]
    return [np.maximum(p, .5 * (p + q)) for p, q in zip(a, w[0])], [np.maximum(p, .5 * (p + q)) for p, q in zip(lam, w[1])]


def merit(T, w):
    return T['cost'] + sum(float(np.sum(p * np.abs(g))) for p, g in zip(w[0], T['gap'])) + sum(float(np.sum(np.abs(l) * np.maximum(c, 0))) for l, c in zip(w[1], T['con']))


def slope(T, w):
    """range of the directional derivative of the merit function (kinks within rounding are open)"""
    lo = hi = T['dcost']
    for p, g, d in zip(w[0], T['gap'], T['dgap']):
        for a, b, e in zip(p, g, d):
            if abs(b) > 1e-9:
                lo += a * np.sign(b) * e; hi += a * np.sign(b) * e
            else:
                lo -= abs(a * e); hi += abs(a * e)
    for l, c, d in zip(w[1], T['con'], T['dcon']):
        for a, b, e in zip(l, c, d):
            if b > 1e-9:
                lo += a * e; hi += a * e
            elif b > -1e-9:
                lo += min(0, a * e); hi += max(0, a * e)
    return lo, hi


def violation(T):
    return max([np.max(np.abs(g), initial=0) for g in T['gap']] + [np.max(c, initial=0) for c in T['con']] + [0.])


def l1(T):
    return sum(float(np.sum(np.abs(g))) for g in T['gap']) + sum(float(np.sum(np.maximum(c, 0))) for c in T['con'])


def l1lin(T):
    """l1 infeasibility of the linearisation after the full step"""
    return sum(float(np.sum(np.abs(g + d))) for g, d in zip(T['gap'], T['dgap'])) + sum(float(np.sum(np.maximum(c + d, 0))) for c, d in zip(T['con'], T['dcon']))


class Merit:
    def __init__(self, I, O, name):
        self.I, self.O, self.tol, self.w = I, O, Tol(name), None

    def step(self, tag, a, b, d, al, strict, T0):
        I = self.I
        rf, amin = opt(I, 'globalization_alpha_reduction'), opt(I, 'globalization_alpha_min')
        sd, soc = opt(I, 'globalization_line_search_use_sufficient_descent'), opt(I, 'globalization_use_SOC')
        eps = opt(I, 'globalization_eps_sufficient_descent')
        fsd = opt(I, 'globalization_full_step_dual')
        g = 1. if fsd else al
        q = {f: [p + (v - p) / g for p, v in zip(a[f], b[f])] for f in ('pi', 'lam')}
        w = self.w = weights(self.w, q['pi'], q['lam'])
        wm = 1 + max(max((np.max(v, initial=0) for v in w[0]), default=0), max((np.max(v, initial=0) for v in w[1]), default=0))
        m0 = merit(T0, w)
        t0 = self.tol(T0, wm)
        if not np.isfinite(m0):
            return
        lo = hi = 0.
        if sd:
            lo, hi = slope(T0, w)
            s = 1e-6 * (abs(lo) + abs(hi)) + 10 * self.tol.e * wm
            lo, hi = min(lo - s, 0.), min(hi + s, 0.)
        t, seen = 1., []
        while t * rf > amin:
            T = self.O.terms(along(a, d, t), I.d)
            m1 = merit(T, w)
            tl = t0 + self.tol(T, wm)
            thr = m0 + eps * lo * t, m0 + eps * hi * t
            ok = m1 < thr[1] + tl           # may be accepted
            must = m1 < thr[0] - tl
            if soc and t == 1.:
                pre = m1 < m0 + tl and violation(T) < violation(T0) + tl
                ok = ok or pre
            seen.append((t, m1 - m0))
            if t == al:
                if not ok:
                    raise Violation('merit-accept', tag + f'step size {al!r} accepted, but the merit function changes by {m1 - m0!r} (slope in {lo!r}..{hi!r})')
                return
            if must and strict and not (soc and t == 1.):
                raise Violation('merit-reject', tag + f'step size {al!r} taken, but already {t!r} changes the merit function by {m1 - m0!r} (slope in {lo!r}..{hi!r})')
            t *= rf
        if t != al:
            raise Violation('alpha', tag + f'step size {al!r} is none of the trial step sizes {[v for v, _ in seen]} or the final {t!r}')


class Funnel:
    """reference model; a set of possible states (width, penalty, penalty mode) where decisions are within tolerance"""

    def __init__(self, I, O, name, wf):
        self.I, self.O, self.tol, self.wf = I, O, Tol(name), wf
        self.S = None

    def step(self, tag, a, b, d, al, strict, T0):
        I = self.I
        G = lambda n: opt(I, 'globalization_' + n)
        rf, amin, eps = G('alpha_reduction'), G('alpha_min'), G('eps_sufficient_descent')
        kap, sdf, fsc = G('funnel_kappa'), G('funnel_sufficient_decrease_factor'), G('funnel_fraction_switching_condition')
        pim = G('funnel_use_merit_fun_only')
        c0, h0, t0 = T0['cost'], l1(T0), self.tol(T0)
        if T0['undef'] or not (np.isfinite(c0) and np.isfinite(h0)):
            self.S = False
        if self.S is None:
            self.S = {(max(G('funnel_init_upper_bound'), G('funnel_init_increase_factor') * h0), G('funnel_initial_penalty_parameter'), False)}
        if self.S is False:
            return
        po = -T0['dcost']
        if self.wf:
            pis = [h0, max(h0 - l1lin(T0), 0.)] + ([0.] if h0 < 1e-3 else [])
        else:
            pis = [h0]
        tpo = 1e-7 * (1 + abs(po)) + t0
        X, t = [], 1.
        while True:
            T = self.O.terms(along(a, d, t), I.d)
            X.append((t, T['cost'], l1(T), self.tol(T) + t0))
            if t == al or t < al or t < amin:
                break
            t *= rf
        if t != al:
            raise Violation('alpha', tag + f'step size {al!r} is none of the trial step sizes {[x[0] for x in X]}')
        eta, con = 1e-6, .5
        new = set()
        why = []
        for W0, pen0, mode in self.S:
            for pi_ in pis:
                pens = set()
                for po_ in (po - tpo, po, po + tpo):
                    q = 0. if -1e-4 < po_ < 0 else po_
                    pen = pen0
                    if pen * q + pi_ < eta * pi_:
                        pen = max(0., min(con * pen, (1 - eta) * pi_ / (-q + 1e-9)))
                    pens.add(round(pen, 13))
                for pen in pens:
                    pm = pen * po + pi_
                    alive = True
                    m0 = pen * c0 + h0
                    for t, c, h, tl in X:
                        # set of possible outcomes
                        outs = set()
                        tp = tpo * (1 + pen) + tl
                        if (h > W0 + tl and not pim) or not np.isfinite(c + h):
                            outs.add(None)
                        else:
                            if h > W0 - tl and not pim:
                                outs.add(None)
                            if mode or pim:
                                r = (m0 - pen * c - h) - eps * t * max(0., pm - 1e-9)
                                if r > -tp:
                                    W1 = (1 - kap) * h + kap * W0
                                    if h <= sdf * W0 + tl:
                                        outs.add((W1, pen, False))
                                    if h > sdf * W0 - tl:
                                        outs.add((W0, pen, True))
                                if r < tp:
                                    outs.add(None)
                            else:
                                sw = t * po - fsc * pi_
                                if sw > -tpo:
                                    r = (c0 - c) - eps * t * max(0., po - 1e-9)
                                    if r > -tl - tpo:
                                        outs.add((W0, pen, False))
                                    if r < tl + tpo:
                                        outs.add(None)
                                if sw < tpo:
                                    if h <= sdf * W0 + tl:
                                        outs.add(((1 - kap) * h + kap * W0, pen, False))
                                    if h > sdf * W0 - tl:
                                        r = (m0 - pen * c - h) - eps * t * max(0., pm - 1e-9)
                                        if h < h0 + tl and r > -tp:
                                            outs.add((W0, pen, True))
                                        if h > h0 - tl or r < tp:
                                            outs.add(None)
                        if t == al:
                            new |= {o for o in outs if o is not None}
                            if outs == {None}:
                                why.append(f'step size {t!r} is rejected by the rule')
                        elif None not in outs and strict:
                            why.append(f'step size {t!r} is accepted by the rule')
                            break
        if not new:
            raise Violation('funnel', tag + f'step size {al!r} taken; {sorted(set(why))}; funnel state {sorted(self.S)[:3]}, objective and infeasibility {c0!r}, {h0!r}, trials {[x[:3] for x in X]}, predicted reductions {po!r}, {pis}')
        if len(new) > 24:
            new = False
        elif len(new) > 1:
            new = {(float('%.12g' % w), float('%.12g' % p), m) for w, p, m in new}
        self.S = new


def execute(p, trace=False):
    s = W.begin(p, trace)
    s.omp_cfg(1, 8)
    name = p['problem']
    m = W.meta(name)
    so = m.ocp.solver_options
    O = kkt.oracle(name)
    I = W.Inst(name)
    s.faults_clear()
    W.arm(s, p['faults'])
    states, nt, back, steps = [], False, 0, 0
    for i, op in enumerate(p['ops']):
        if op[0] == 'copt':
            v = ctypes.c_bool(op[2])
            I.s._AcadosOcpSolver__acados_lib.ocp_nlp_solver_opts_set(I.s.nlp_config, I.s.nlp_opts, op[1].encode(), ctypes.byref(v))
            I.opts[op[1]] = op[2]
            continue
        if op[0] != 'solve':
            I.apply(op)
            continue
        f0 = s.fn_fired(); q0 = s.qp_fired()
        I.apply(['solve'])
        fired = s.fn_fired() - f0
        S = I.s
        st = np.array(S.get_stats('statistics'))
        n = int(S.get_stats('nlp_iter'))
        H = [{f: getattr(v, f) for f in FIELDS} for v in S.get_iterates().iterate_list]
        col = {'SQP': 7, 'SQP_WITH_FEASIBLE_QP': 11, 'DDP': 6}[m.nlp]
        ref = None
        states.append((int(I.status), n, W.dig({'s': st})))
        if len(H) != n + 1:
            continue
        for k in range(n):
            tag = f'{name}: op {i} (status {I.status}, {n} iterations), iteration {k}: '
            if I.status == 4 and k == n - 1 and m.nlp == 'SQP':
                break
            if not finite(H[k]):
                break
            with np.errstate(all='ignore'):
                T0 = O.terms(H[k], I.d)
            if not (np.isfinite(T0['cost']) and np.isfinite(l1(T0))):
                break
            if not finite(H[k + 1]):
                if m.nlp == 'DDP' and k == 0:
                    break           # the first step of DDP is not globalized
                raise Violation('non-finite', tag + 'a step to a point that cannot be evaluated was accepted')
            steps += 1
            if m.nlp == 'DDP':
                if k == 0:
                    continue
                T1 = O.terms(H[k + 1], I.d)
                tl = 1e-9 * (1 + abs(T0['cost']))
                if l1(T1) > 1e-9 * (1 + sum(np.sum(np.abs(v)) for v in H[k + 1]['x'])):
                    raise Violation('ddp-dynamics', tag + f'the iterate violates the dynamics by {l1(T1)!r}')
                if T1['cost'] > T0['cost'] + tl:
                    raise Violation('ddp-cost', tag + f'the cost increases from {T0["cost"]!r} to {T1["cost"]!r}')
                continue
            al = st[col][k + 1]
            if not 0 < al <= 1:
                raise Violation('alpha', tag + f'step size {al!r}')
            back += al < 1
            d = {f: [(v - u) / al for u, v in zip(H[k][f], H[k + 1][f])] for f in ('x', 'u', 'sl', 'su')}
            with np.errstate(all='ignore'):
                T0 = O.terms(H[k], I.d, d)
                if ref is None:
                    ref = Merit(I, O, name) if so.globalization == 'MERIT_BACKTRACKING' else Funnel(I, O, name, m.nlp != 'SQP')
                ref.step(tag, H[k], H[k + 1], d, al, not fired, T0)
    nt = back > 0 or steps > 2
    return W.add_stats({'violation': None, 'obs': W.dig({str(j): repr(x) for j, x in enumerate(states)})}, s, {'nontrivial': nt, 'states': states, 'key': W.dig({'k': repr(states)}), **({'trace': s.trace_text()} if trace else {})})
