"""A created solver executes the code of its own formulation, whatever interrupted or failed code generations and builds left behind."""
import builtins, contextlib, hashlib, io, os, random, shutil, subprocess, sys, tempfile, warnings
import numpy as np
from dst import zoo, tera, build as B, world as W
from dst.engine import Violation

PROBLEMS = []
RUNS = {'quick': 1100, 'thorough': 20000}
LIMIT = {'quick': 112, 'thorough': 780}
LEVEL = 'exploration'
RULE = 'a run is a history of process lifetimes in one export directory: each creates, generates or builds one of several formulations (with or without code reuse) and may be ended or disturbed by one fault; non-trivial if a library was loaded after a fault, or code was reused'
REAL = ['Python interface: AcadosOcpSolver/AcadosSimSolver generate, build, code reuse check, constructor up to loading the library', 'templates and generated Makefile', 'CasADi code generation', 'GNU make']
STUB = ['t_renderer (Python Tera stand-in)', 'compiler, linker and rm as run by make (digest of everything they would have read; fault and crash points)', 'dynamic loader (judges the library file)', 'file time stamps (simulated clock with jumps)']
ASSUMPTIONS = ['a crash ends the process; data it wrote before survives (no loss of written pages)', 'one process at a time works in an export directory']
MEASURE = 'distinct (state of the export directory, formulation, flags) triples at process start'


class Crash(BaseException):
    pass


class Loaded(BaseException):
    pass


# ------------------------------------------------------------- formulations
def forms():
    """name -> constructor; all OCPs share one export directory and model name, all integrators another one"""
    import casadi as ca
    from acados_template import AcadosOcp, AcadosModel, AcadosSim, AcadosMultiphaseOcp

    def model(k=3., p=False, pg=False, fun=None, mx=False):
        S = ca.MX if (mx or fun or pg) else ca.SX
        m = AcadosModel(); m.name = 'm'
        x = S.sym('x', 2); u = S.sym('u', 1); xd = S.sym('xd', 2)
        acc = k * ca.sin(x[0]) + u
        if p:
            m.p = S.sym('p', 2); acc += m.p[0] * x[1]
        if pg:
            m.p_global = S.sym('pg', 2); acc += ca.sin(m.p_global[0]) * x[1]
        if fun:
            y = ca.SX.sym('y'); acc += ca.Function('f', [y], [fun * y ** 2])(x[1])
        f = ca.vertcat(x[1], acc)
        m.x, m.u, m.xdot = x, u, xd
        m.f_expl_expr, m.f_impl_expr = f, xd - f
        return m

    def ocp(k=3., N=3, w=1., b=4., cost='NONLINEAR_LS', integ='ERK', h=None, x0=.5, p=None, pg=None, fun=None, mx=False, name='m', opt={}, gen={}):
        o = AcadosOcp(); m = o.model = model(k, p is not None, pg is not None, fun, mx)
        m.name = name
        so = o.solver_options
        so.N_horizon = N; so.tf = .2 * N
        if p is not None: o.parameter_values = np.array(p)
        if pg is not None: o.p_global_values = np.array(pg)
        if cost == 'EXTERNAL':
            o.cost.cost_type = o.cost.cost_type_e = cost
            m.cost_expr_ext_cost = w * m.x[0] ** 2 + m.x[1] ** 2 + .1 * m.u ** 2
            m.cost_expr_ext_cost_e = w * m.x[0] ** 2
        elif cost == 'LINEAR_LS':
            zoo._ls(o, [w, .1], [.1], [2., 1.])
        else:
            zoo._nls(o, [w, .1], [.1], [2., 1.])
        zoo._ubound(o, b)
        o.constraints.x0 = np.array([x0, 0.])
        if h is not None:
            m.con_h_expr = m.x[0] + h * m.x[1]; o.constraints.lh = np.array([-1.]); o.constraints.uh = np.array([1.])
        if integ == 'DISCRETE':
            m.disc_dyn_expr = m.x + .2 * m.f_expl_expr
        so.integrator_type = integ; so.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; so.nlp_solver_type = 'SQP'
        for a, v in opt.items(): setattr(so, a, v)
        for a, v in gen.items(): setattr(o.code_gen_options, a, v)
        return o

    def mocp(k=3., N=(2, 2), w=1., integ=('ERK', 'IRK')):
        mo = AcadosMultiphaseOcp(N_list=list(N))
        for i in range(2):
            mo.set_phase(ocp(k=k + i, w=w, N=N[i], name=f'm{i}'), i)
        mo.name = 'm'
        mo.solver_options.nlp_solver_type = 'SQP'; mo.solver_options.tf = .2 * sum(N)
        mo.mocp_opts.integrator_type = list(integ)
        mo.solver_options.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
        return mo

    def sim(k=3., integ='ERK', T=.1, stages=2, steps=2, newton=5, p=None, hess=False, fun=None):
        s = AcadosSim(); s.model = model(k, p is not None, False, fun)
        o = s.solver_options
        o.T = T; o.integrator_type = integ; o.num_stages = stages; o.num_steps = steps; o.newton_iter = newton; o.sens_hess = hess
        if p is not None: s.parameter_values = np.array(p)
        return s

    def f(c, **kw): return lambda: c(**kw)
    O = {'base': f(ocp), 'k': f(ocp, k=3.1), 'N': f(ocp, N=4), 'w': f(ocp, w=1.5), 'b': f(ocp, b=5.), 'x0': f(ocp, x0=.6), 'mx': f(ocp, mx=True), 'irk': f(ocp, integ='IRK'), 'irk_k': f(ocp, integ='IRK', k=3.1),
         'disc': f(ocp, integ='DISCRETE'), 'disc_k': f(ocp, integ='DISCRETE', k=3.1), 'ls': f(ocp, cost='LINEAR_LS'), 'ext': f(ocp, cost='EXTERNAL'), 'ext_w': f(ocp, cost='EXTERNAL', w=1.5), 'h': f(ocp, h=.1), 'h2': f(ocp, h=.2),
         'p': f(ocp, p=[.1, 0.]), 'p_v': f(ocp, p=[.2, 0.]), 'pg': f(ocp, pg=[.1, 0.]), 'pg_v': f(ocp, pg=[.2, 0.]), 'pg_k': f(ocp, pg=[.1, 0.], k=3.1), 'fun': f(ocp, fun=.1), 'fun2': f(ocp, fun=.2),
         'tol': f(ocp, opt={'nlp_solver_tol_stat': 1e-4}), 'rti': f(ocp, opt={'nlp_solver_type': 'SQP_RTI'}), 'full': f(ocp, opt={'qp_solver': 'FULL_CONDENSING_HPIPM'}), 'stages': f(ocp, opt={'sim_method_num_stages': 2}),
         'ts': f(ocp, opt={'time_steps': np.array([.1, .2, .3])}), 'exact': f(ocp, opt={'hessian_approx': 'EXACT'}), 'flags': f(ocp, gen={'ext_fun_compile_flags': '-O1'}), 'batch': f(ocp, opt={'with_batch_functionality': True}),
         'mocp': f(mocp), 'mocp_k': f(mocp, k=3.2), 'mocp_n': f(mocp, N=(3, 1)), 'mocp_w': f(mocp, w=2.), 'mocp_i': f(mocp, integ=('IRK', 'ERK'))}
    def with_(c, how, a, v):
        def g():
            o = c()
            if how == 'soft':
                o.constraints.idxsbu = np.array([0])
                for t in ('zl', 'zu', 'Zl', 'Zu'): setattr(o.cost, t, np.array([v if t == a else 1.]))
            elif how == 'bx':
                o.constraints.idxbx = np.array([1]); o.constraints.lbx = np.array([-v]); o.constraints.ubx = np.array([3.])
            else:
                if how == 'con' and a in ('lbx', 'ubx'):
                    o.constraints.idxbx = np.array([0]); o.constraints.lbx = np.array([-7.]); o.constraints.ubx = np.array([7.])
                setattr({'so': o.solver_options, 'con': o.constraints, 'cost': o.cost, 'gen': o.code_gen_options}[how], a, v)
            return o
        return g
    for n, b, how, a, v in MUT:
        O[n] = with_(O[b], how, a, v)
    S = {'sim': f(sim), 'sim_k': f(sim, k=3.1), 'sim_T': f(sim, T=.2), 'sim_st': f(sim, stages=4), 'sim_n': f(sim, steps=3), 'sim_irk': f(sim, integ='IRK'), 'sim_irk_k': f(sim, integ='IRK', k=3.1), 'sim_irk_nw': f(sim, integ='IRK', newton=7),
         'sim_p': f(sim, p=[.1, 0.]), 'sim_pv': f(sim, p=[.2, 0.]), 'sim_h': f(sim, hess=True), 'sim_fun': f(sim, fun=.1), 'sim_fun2': f(sim, fun=.2), 'sim_gnsf': f(sim, integ='GNSF')}
    return O, S


A = np.array
MUT = [(f'{b}.{a}' + (f'{i}' if i else ''), b, how, a, v) for i, (b, how, a, v) in enumerate([
    ('base', 'so', 'nlp_solver_max_iter', 33), ('base', 'so', 'nlp_solver_tol_eq', 1e-5), ('base', 'so', 'qp_solver_iter_max', 33), ('base', 'so', 'qp_solver_warm_start', 1), ('base', 'so', 'qp_solver_cond_N', 2), ('base', 'so', 'levenberg_marquardt', 1e-3),
    ('base', 'so', 'globalization', 'MERIT_BACKTRACKING'), ('base', 'so', 'regularize_method', 'MIRROR'), ('base', 'so', 'print_level', 1), ('base', 'so', 'sim_method_num_steps', 2), ('irk', 'so', 'sim_method_newton_iter', 5), ('irk', 'so', 'sim_method_newton_tol', 1e-9),
    ('irk', 'so', 'sim_method_jac_reuse', 1), ('irk', 'so', 'collocation_type', 'GAUSS_RADAU_IIA'), ('base', 'so', 'tf', .61), ('base', 'so', 'hpipm_mode', 'SPEED'), ('base', 'so', 'qp_solver_tol_stat', 1e-9), ('base', 'so', 'tau_min', 1e-5),
    ('base', 'so', 'store_iterates', True), ('base', 'so', 'cost_scaling', A([.2, .2, .3, 1.])), ('ls', 'so', 'fixed_hess', 1), ('base', 'so', 'timeout_max_time', 1.), ('base', 'so', 'reg_epsilon', 1e-3), ('base', 'so', 'qp_solver_mu0', 10.),
    ('base', 'so', 'qp_solver_ric_alg', 0), ('base', 'so', 'nlp_solver_ext_qp_res', 1), ('base', 'so', 'rti_log_residuals', 1), ('base', 'so', 'globalization_fixed_step_length', .5), ('base', 'so', 'with_adaptive_levenberg_marquardt', True),
    ('base', 'con', 'ubu', A([4.000001])), ('base', 'con', 'lbu', A([-3.])), ('base', 'con', 'x0', A([.5, 1e-9])), ('base', 'con', 'ubx', A([5.])), ('base', 'con', 'lbx', A([-5.])), ('base', 'cost', 'yref', A([0., 0., .1])), ('base', 'cost', 'yref_e', A([0., .1])),
    ('base', 'cost', 'W', np.diag([1., .1, .1 + 1e-9])), ('base', 'cost', 'W_e', np.diag([2., 1.1])), ('ls', 'cost', 'Vx', A([[1., 0], [0, 1.1], [0, 0]])), ('ls', 'cost', 'Vu', A([[0.], [0], [1.1]])), ('base', 'soft', 'zl', 2.), ('base', 'soft', 'Zu', 2.),
    ('base', 'soft', '', 1.), ('base', 'bx', '', 2.), ('base', 'bx', '', 2.5), ('h', 'con', 'uh', A([1.1])), ('h', 'con', 'lh', A([-1.1])), ('base', 'gen', 'ext_fun_expand_dyn', True), ('ext', 'so', 'hessian_approx', 'EXACT'), ('mocp', 'so', 'nlp_solver_max_iter', 33)])]
NAMES_O = ['base', 'k', 'N', 'w', 'b', 'x0', 'mx', 'irk', 'irk_k', 'disc', 'disc_k', 'ls', 'ext', 'ext_w', 'h', 'h2', 'p', 'p_v', 'pg', 'pg_v', 'pg_k', 'fun', 'fun2', 'tol', 'rti', 'full', 'stages', 'ts', 'exact', 'flags', 'batch',
           'mocp', 'mocp_k', 'mocp_n', 'mocp_w', 'mocp_i']
NAMES_M = [m[0] for m in MUT]
NAMES_S = ['sim', 'sim_k', 'sim_T', 'sim_st', 'sim_n', 'sim_irk', 'sim_irk_k', 'sim_irk_nw', 'sim_p', 'sim_pv', 'sim_h', 'sim_fun', 'sim_fun2', 'sim_gnsf']
# formulations that differ in one respect only, so that code of one is plausible for another
PAIRS = [('base', 'k'), ('base', 'w'), ('base', 'b'), ('base', 'N'), ('base', 'x0'), ('base', 'tol'), ('base', 'stages'), ('base', 'ts'), ('base', 'flags'), ('irk', 'irk_k'), ('disc', 'disc_k'), ('ext', 'ext_w'), ('h', 'h2'), ('p', 'p_v'),
         ('pg', 'pg_v'), ('pg', 'pg_k'), ('fun', 'fun2'), ('base', 'irk'), ('base', 'mx'), ('mocp', 'mocp_k'), ('mocp', 'mocp_n'), ('mocp', 'mocp_w'), ('mocp', 'mocp_i'), ('base', 'mocp'), ('base', 'rti'), ('base', 'full'), ('base', 'batch')]
PAIRS_S = [('sim', 'sim_k'), ('sim', 'sim_T'), ('sim', 'sim_st'), ('sim', 'sim_n'), ('sim_irk', 'sim_irk_k'), ('sim_irk', 'sim_irk_nw'), ('sim_p', 'sim_pv'), ('sim', 'sim_h'), ('sim_fun', 'sim_fun2'), ('sim', 'sim_irk'), ('sim', 'sim_gnsf')]
PYF = ['before', 'torn', 'after', 'enospc']


# ------------------------------------------------------------- the simulated machine
class Machine:
    """file writes, rendering, code export, make and the loader, with one fault per process lifetime"""
    def __init__(self, root):
        self.root = root
        self.ctl = root + '/cc.ctl'
        self.t = 1_000_000_000 * 10**9
        self.fired = {}
        self.events = []

    def life(self, fault, jump):
        self.n = 0
        self.fault = fault
        self.t += jump
        self.crashed = False
        self.hit = None
        self.gen = 0

    def stamp(self, path):
        self.t += 50_000_000
        if os.path.exists(path):
            os.utime(path, ns=(self.t, self.t))

    def fire(self, what, crash):
        self.hit = what
        self.fired[what] = self.fired.get(what, 0) + 1
        self.crashed = crash

    def step(self, label, path, write, error=OSError):
        """one write(path) that may be preceded, cut short or followed by the end of the process, or fail with a full disk"""
        if self.crashed:
            raise Crash()
        f = self.fault
        hit = f and f['t'] == 'py' and f['at'] == self.n
        self.n += 1
        self.events.append(label)
        kind = f['kind'] if hit else None
        if kind == 'before':
            self.fire('crash before ' + label, True); raise Crash()
        write()
        if kind in ('torn', 'enospc'):
            if os.path.isfile(path):
                n = os.path.getsize(path)
                with REAL_OPEN(path, 'r+b') as fh: fh.truncate(int(n * f['frac']))
            self.stamp(path)
            self.fire(('crash within ' if kind == 'torn' else 'disk full in ') + label, kind == 'torn')
            raise Crash() if kind == 'torn' else error(28, 'No space left on device')
        self.stamp(path)
        if kind == 'after':
            self.fire('crash after ' + label, True); raise Crash()

    # -- seams
    def open(self, path, mode='r', *a, **kw):
        if self.crashed:
            raise Crash()
        if not any(c in mode for c in 'wax+'):
            return REAL_OPEN(path, mode, *a, **kw)
        M = self
        path = os.path.abspath(path)
        if not path.startswith(self.root):
            raise RuntimeError('write outside of the scratch directory: ' + path)

        class F(io.StringIO):
            def __exit__(s, et, ev, tb):
                s.close()

            def close(s):
                if s.closed:
                    return
                txt = s.getvalue()

                def w():
                    with REAL_OPEN(path, mode) as fh: fh.write(txt)
                io.StringIO.close(s)
                M.step('write ' + os.path.splitext(path)[1], path, w)
        return F()

    def system(self, cmd):
        import shlex
        a = shlex.split(cmd)
        out = os.path.abspath(a[4])
        if not out.startswith(self.root):
            raise RuntimeError('render outside of the scratch directory: ' + out)
        ok = []

        def w():
            try:
                os.makedirs(os.path.dirname(out), exist_ok=True)
                tera.render_file(*a[1:5]); ok.append(1)
            except Exception as e:
                print('render:', e, file=sys.stderr)
        try:
            self.step('rendering', out, w)
        except OSError:
            return 256
        return 0 if ok else 256

    def export(self, fun, name, opts=None):
        path = os.path.abspath(name + '.c')
        if not path.startswith(self.root):
            raise RuntimeError('export outside of the scratch directory: ' + path)
        self.step('function export', path, lambda: REAL_GENERATE(fun, name, opts or {}), error=lambda *a: RuntimeError('disk full'))

    def copyfile(self, a, b, *k, **kw):
        self.step('copy', os.path.abspath(b), lambda: REAL_COPY(a, b))

    def call(self, cmd, **kw):
        """make: real, with stand-ins for the compiler, the linker and rm"""
        if self.crashed:
            raise Crash()
        cmd = cmd if isinstance(cmd, list) else cmd.split()
        if cmd[0] != 'make' or not os.getcwd().startswith(self.root):
            raise RuntimeError(f'unexpected command {cmd}')
        f = self.fault
        at, kind = (f['at'] - self.n, f['kind']) if f and f['t'] == 'cc' and not self.hit else (-1, 0)
        with REAL_OPEN(self.ctl, 'w') as fh: fh.write(f'0 {at} {kind} 0 {self.t} 50000000\n')
        env = {'PATH': self.root + '/bin:/usr/bin:/bin', 'DST_CC_CTL': self.ctl, 'LC_ALL': 'C'}
        rc = subprocess.call(['make', '-s'] + cmd[1:], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        n, _, _, crashed, self.t, _ = [int(v) for v in REAL_OPEN(self.ctl).read().split()]
        self.events.append(f'{" ".join(cmd[1:])} {n}')
        if at >= 0 and n > at:
            self.fire({1: 'compiler fails', 2: 'disk full in compiler', 3: 'crash before a command of make', 4: 'crash within a command of make', 5: 'crash after a command of make'}[kind], bool(crashed))
        self.n += n
        if crashed:
            raise Crash()
        return rc

    def load(self, path, winmode=None):
        if self.crashed:
            raise Crash()
        if os.path.basename(path).startswith('libacados.'):
            return object()
        try:
            txt = REAL_OPEN(path).read()
        except OSError:
            raise OSError(f'{path}: cannot open shared object file')
        if not txt.startswith('LIB ') or not txt.endswith('LIBEND\n'):
            raise OSError(f'{path}: file too short')
        raise Loaded(txt)


REAL_OPEN, REAL_COPY, REAL_GENERATE = builtins.open, shutil.copyfile, None
_mods = []


@contextlib.contextmanager
def installed(M):
    global REAL_GENERATE
    import casadi as ca
    import acados_template as at
    pk = [m for n, m in sys.modules.items() if n.startswith('acados_template') and m is not None]
    saved = []

    def put(o, k, v):
        saved.append((o, k, o.__dict__.get(k, saved)))
        setattr(o, k, v)
    REAL_GENERATE = REAL_GENERATE or ca.Function.generate
    put(ca.Function, 'generate', lambda fun, *a: M.export(fun, *a))
    put(os, 'system', M.system)
    put(shutil, 'copyfile', M.copyfile)
    # removal of files is a crash point, too
    rm = os.remove
    put(os, 'remove', lambda p, *a, **k: M.step('remove ' + os.path.splitext(p)[1], p, lambda: rm(p)))
    for m in pk:
        put(m, 'open', M.open)
        for k, v in (('call', M.call), ('get_shared_lib', M.load), ('is_tera_version_sufficient', lambda *a, **k: True), ('acados_lib_is_compiled_with_openmp', lambda *a: False)):
            if k in m.__dict__:
                put(m, k, v)
    try:
        yield
    finally:
        for o, k, v in reversed(saved):
            if v is saved: delattr(o, k)
            else: setattr(o, k, v)


def work():
    """the scratch directory of this run (private to the process of the run)"""
    root = os.getcwd()
    if not os.path.isdir(root + '/bin'):
        os.makedirs(root + '/bin')
        for n in ('cc', 'gcc', 'rm'):
            os.symlink(_cc(), f'{root}/bin/{n}')
    return root


def _cc():
    src = os.path.join(B.VERIF, 'fakecc', 'fakecc.c')
    out = os.path.join(zoo.setup(), 'bin', 'fakecc-' + hashlib.sha1(REAL_OPEN(src, 'rb').read()).hexdigest()[:8])
    if not os.path.exists(out):
        tmp = f'{out}.{os.getpid()}'
        subprocess.check_call(['gcc', '-O1', '-w', '-o', tmp, src])
        os.rename(tmp, out)
    return out


def setup(tier):
    zoo.setup()
    _cc()
    if _want:
        return
    # what a fresh directory yields, computed in two places: where both agree, the code does not depend on the place
    import multiprocessing as mp
    _fresh(('base', True, 'x'))      # loads the template cache
    names = [(n, b) for n in NAMES_O + NAMES_M + NAMES_S for b in (True, False)]
    with mp.get_context('fork').Pool(os.cpu_count()) as pool:
        got = pool.map(_fresh, [n + (d,) for n in names for d in ('x', 'yy')], 1)
    _want.clear()
    for i, n in enumerate(names):
        if got[2 * i] is not None and got[2 * i] == got[2 * i + 1]:
            _want[n] = got[2 * i]


def _fresh(a):
    name, named, d = a
    cwd = os.getcwd()
    _want.clear()
    with tempfile.TemporaryDirectory(prefix='dst-' + d) as t:
        os.chdir(t)
        try:
            return wanted(name, work(), named)
        except Violation:
            return None
        finally:
            os.chdir(cwd)


_F = None


def form(name):
    global _F
    if _F is None:
        zoo.setup()
        _F = forms()
    return (_F[1] if name.startswith('sim') else _F[0])[name]()


def make(name, root, named):
    o = form(name)
    if named:
        g = o.code_gen_options
        g.code_export_directory = export_dir(name, root)
        g.json_file = 'm.json'
        o.name = 'm'
    return o


def export_dir(name, root):
    return root + '/' + ('sim' if name.startswith('sim') else 'ocp')


def solver_class(name):
    from acados_template import AcadosOcpSolver, AcadosSimSolver
    return AcadosSimSolver if name.startswith('sim') else AcadosOcpSolver


# ------------------------------------------------------------- runs
def plan(seed, tier):
    r = W.rnd(seed, 'p12')
    simq = r.random() < .35
    names = list(NAMES_S if simq else NAMES_O)
    pool = list(r.choice(PAIRS_S if simq else PAIRS))
    if not simq and r.random() < .5:
        m = r.choice(MUT)
        pool = [m[0], m[1]]
        if m[2] in ('soft', 'bx') and r.random() < .6:
            pool[1] = r.choice([q[0] for q in MUT if q[2] == m[2] and q[0] != m[0]])
        if m[3] in ('lbx', 'ubx'):
            pool[1] = r.choice(['base.lbx33', 'base.ubx32'])
    r.shuffle(pool)
    if r.random() < .3:
        pool.append(r.choice(names))
    named = r.random() < .7
    ops, faults = [], []
    for i in range(r.randint(2, 6)):
        api = r.choices(['ctor', 'generate', 'build'], [8, 1.5, 1])[0]
        L = {'id': i, 'form': r.choice(pool), 'api': api, 'named': named, 'generate': True, 'build': True, 'jump': 0}
        if api == 'ctor' and r.random() < (.25 if i == 0 else .6):
            L['generate'] = not simq and r.random() < .2
            L['build'] = r.random() < (.6 if simq else .4)
        if r.random() < .45:
            if r.random() < .55:
                faults.append({'life': i, 't': 'py', 'at': r.randint(0, 27), 'kind': r.choice(PYF), 'frac': r.choice([0., .3, .9])})
            else:
                faults.append({'life': i, 't': 'cc', 'at': r.randint(14, 50), 'kind': r.randint(1, 5)})
        if r.random() < .3:
            L['jump'] = int(r.choice([-1, 1]) * 10 ** r.uniform(8, 13))
        ops.append(L)
    if r.random() < .8:
        ops.append({'id': 99, 'form': r.choice(pool), 'api': 'ctor', 'named': named, 'generate': False, 'build': r.random() < .4, 'jump': 0})
    return {'seed': seed, 'tier': tier, 'problem': 'sim' if simq else 'ocp', 'ops': ops, 'faults': faults}


def live(M, L, root, fault=None):
    """one process lifetime; -> (outcome, text)"""
    M.life(fault, L['jump'])
    name = L['form']
    cls = solver_class(name)
    np.random.seed(1)
    random.seed(1)
    os.chdir(root)
    gen = []
    og = cls.generate
    try:
        with warnings.catch_warnings(), installed(M), open(os.devnull, 'w') as nul, contextlib.redirect_stdout(nul):
            warnings.simplefilter('ignore')
            o = make(name, root, L['named'])
            if L['api'] == 'generate':
                cls.generate(o, verbose=False); return 'done', ''
            if L['api'] == 'build':
                o.make_consistent()
                d = o.code_gen_options.code_export_directory
                if not os.path.isdir(d):
                    return 'skip', ''
                cls.build(d, verbose=False); return 'done', ''
            cls.generate = staticmethod(lambda *a, **k: (gen.append(1), og(*a, **k))[1])
            try:
                cls(o, generate=L['generate'], build=L['build'], verbose=False)
            finally:
                cls.generate = staticmethod(og)
        return 'odd', 'constructor returned'
    except Loaded as e:
        M.gen = len(gen)
        return 'loaded', e.args[0]
    except Crash:
        return 'crash', ''
    except SystemExit as e:
        return 'raised', 'SystemExit'
    except Exception as e:
        return 'raised', f'{type(e).__name__}: {str(e)[:160]}'


_want = {}


def wipe(root):
    for d in os.listdir(root):
        if d in ('ocp', 'sim') or d.startswith('codegen_'):
            shutil.rmtree(root + '/' + d, ignore_errors=True)


def wanted(name, root, named=True):
    """the library a fresh directory yields for this formulation"""
    if (name, named) not in _want:
        wipe(root)
        M = Machine(root)
        st, txt = live(M, {'form': name, 'api': 'ctor', 'generate': True, 'build': True, 'jump': 0, 'named': named}, root)
        wipe(root)
        if st != 'loaded':
            raise Violation('fresh creation fails', f'{name}: creating the solver in an empty directory: {st} {txt}')
        _want[name, named] = txt
    return _want[name, named]


def dirstate(root):
    h = hashlib.sha1()
    for d, _, fs in sorted(os.walk(root)):
        if d.startswith(root + '/bin'):
            continue
        for f in sorted(fs):
            if f != 'cc.ctl':
                h.update((d[len(root):] + f).encode() + REAL_OPEN(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:12]


def execute(plan, trace=False):
    root = work()
    res = {'violation': None}
    M = Machine(root)
    log, states, nontrivial, t_sim = [], [], False, 0
    flt = {f['life']: f for f in plan['faults']}
    try:
        for n in dict.fromkeys((L['form'], L['named']) for L in plan['ops']):
            wanted(n[0], root, n[1])
        wipe(root)
        faulty, prev = False, None
        for i, L in enumerate(plan['ops']):
            states.append(f"{dirstate(root)}{L['form']}{L['api']}{L['generate']}{L['build']}")
            t0, want = M.t, _want[L['form'], L['named']]
            st, txt = live(M, L, root, flt.get(L['id']))
            t_sim += max(0, M.t - t0)
            log.append([L['form'], L['api'], L['generate'], L['build'], st, M.hit, hashlib.sha1(txt.encode()).hexdigest()[:8] if st == 'loaded' else txt.replace(root, '')])
            what = f"lifetime {i} ({L['form']}, {L['api']}, {'one directory, ' if L['named'] else ''}generate={L['generate']}, build={L['build']}{', fault: ' + M.hit if M.hit else ''})"
            if st == 'loaded':
                if faulty or not L['generate']:
                    nontrivial = True
                if txt != want:
                    other = [n for n in _want if _want[n] == txt]
                    raise Violation('stale library', f'{what}: the loaded library is not built from the code of this formulation' + (f' but from that of {other[0][0]}' if other else ': ' + differ(txt, want)))
                if prev == L['form'] and not L['generate'] and not L['build'] and not M.hit and M.gen and 'gnsf' not in prev:
                    raise Violation('unchanged code not reused', f'{what}: the code of the same formulation, created right before, was generated again')
            elif st == 'odd':
                raise Violation('no library loaded', f'{what}: {txt}')
            elif st == 'raised' and L['api'] != 'build' and not M.hit and not (txt.endswith('too short') and not L['build']):
                # (a library torn by a crash of the linker is reported and not repaired without a build)
                raise Violation('creation fails', f'{what}: fails without a fault: {txt}')
            faulty = faulty or bool(M.hit) or L['api'] != 'ctor'
            prev = L['form'] if st == 'loaded' and not M.hit else None
    except Violation as v:
        res['violation'] = {'sig': v.sig, 'msg': v.msg}
    res['hash'] = hashlib.sha1(repr((log, M.events)).encode()).hexdigest()[:16]
    res['stats'] = {'faults': dict(M.fired), 'counters': {'lifetimes': len(log), 'steps': len(M.events)}, 'states': states, 'nontrivial': nontrivial, 'key': res['hash'], 'sim_ns': t_sim, 'il': None}
    if trace:
        res['trace'] = [str(l)[:200] for l in log]
    return res


def differ(a, b):
    x, y = {l.split()[1]: l for l in a.splitlines()[1:-1]}, {l.split()[1]: l for l in b.splitlines()[1:-1]}
    return ', '.join(k for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k))[:200]
