"""Reference integrators: Runge-Kutta maps and their derivatives, written from the
method definitions with CasADi; shares no code with acados."""
import numpy as np

ERK = {1: ([[0.]], [1.]), 2: ([[0, 0], [.5, 0]], [0., 1.]), 3: ([[0, 0, 0], [.5, 0, 0], [-1, 2, 0]], [1/6, 2/3, 1/6]),
       4: ([[0]*4, [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1, 0]], [1/6, 1/3, 1/3, 1/6])}
RADAU = {1: [1.], 2: [1/3, 1.], 3: [(4 - 6**.5)/10, (4 + 6**.5)/10, 1.]}


def colloc(c):
    n = len(c)
    A = np.zeros((n, n)); b = np.zeros(n)
    for j in range(n):
        p = np.poly1d([1.])
        for k in range(n):
            if k != j:
                p *= np.poly1d([1., -c[k]]) / (c[j] - c[k])
        q = p.integ()
        A[:, j] = [q(ci) - q(0) for ci in c]
        b[j] = q(1) - q(0)
    return A, b


def lag0(c):
    """weights that extrapolate the polynomial through (c_j, v_j) to 0"""
    n = len(c)
    return [float(np.prod([(0 - c[k]) / (c[j] - c[k]) for k in range(n) if k != j])) for j in range(n)]


class RK:
    """y(x,u,p,T,t0) -> xn, S, S_p, z, S_alg, adj, hess for one AcadosSim description"""

    def __init__(self, sim):
        import casadi as ca
        m, o = sim.model, sim.solver_options
        S = ca.MX
        nx, nu = m.x.shape[0], m.u.shape[0]
        nz = m.z.shape[0] if hasattr(m.z, 'shape') else 0
        np_ = m.p.shape[0] if hasattr(m.p, 'shape') else 0
        t = m.t if hasattr(m.t, 'shape') and m.t.shape[0] else ca.SX.sym('t')
        zs = m.z if nz else ca.SX(0, 1)
        self.nx, self.nu, self.nz, self.np = nx, nu, nz, np_
        x, u, p, T, t0 = S.sym('x', nx), S.sym('u', nu), S.sym('p', np_), S.sym('T'), S.sym('t0')
        n = o.num_steps if not hasattr(o, 'sim_method_num_steps') else o.sim_method_num_steps
        ns = o.num_stages if not hasattr(o, 'sim_method_num_stages') else o.sim_method_num_stages
        h = T / n
        z = S(nz, 1)
        self.ztype = nz > 0
        if o.integrator_type == 'ERK':
            f = ca.Function('f', [m.x, m.u, m.p], [m.f_expl_expr])
            A, b = ERK[ns]
            y = x
            for _ in range(n):
                K = []
                for i in range(ns):
                    yi = y
                    for j in range(i):
                        if A[i][j]:
                            yi = yi + h * A[i][j] * K[j]
                    K.append(f(yi, u, p))
                y = y + h * sum(bi * k for bi, k in zip(b, K))
        else:
            f = ca.Function('f', [m.xdot, m.x, zs, m.u, m.p, t], [m.f_impl_expr])
            c = list((np.polynomial.legendre.leggauss(ns)[0] + 1) / 2) if o.collocation_type == 'GAUSS_LEGENDRE' else RADAU[ns]
            A, b = colloc(c)
            K, X, H, TT = S.sym('K', (nx + nz) * ns), S.sym('X', nx), S.sym('H'), S.sym('TT')
            kx = lambda i: K[i * nx:(i + 1) * nx]
            kz = lambda i: K[ns * nx + i * nz:ns * nx + (i + 1) * nz]
            g = []
            for i in range(ns):
                g.append(f(kx(i), X + H * sum(A[i, j] * kx(j) for j in range(ns)), kz(i), u, p, TT + c[i] * H))
            R = ca.rootfinder('R', 'newton', {'x': K, 'p': ca.vertcat(X, u, p, H, TT), 'g': ca.vertcat(*g)}, {'abstol': 1e-13, 'max_iter': 100, 'error_on_fail': True})
            y = x
            for s in range(n):
                k = R(x0=ca.DM.zeros((nx + nz) * ns), p=ca.vertcat(y, u, p, h, t0 + s * h))['x']
                if s == 0 and nz:
                    w = lag0(c)
                    z = sum(w[i] * k[ns * nx + i * nz:ns * nx + (i + 1) * nz] for i in range(ns))
                y = y + h * sum(b[i] * k[i * nx:(i + 1) * nx] for i in range(ns))
        xu = ca.vertcat(x, u)
        base = ca.Function('b', [x, u, p, T, t0], [y, z])
        w, sd = S.sym('w', nx + nu), S.sym('sd', nx)
        Y, Z = base(w[:nx], w[nx:], p, T, t0)
        adj = ca.jtimes(Y, w, sd, True)
        self.F = ca.Function('F', [w, p, T, t0, sd], [Y, ca.jacobian(Y, w), ca.jacobian(Y, p), Z, ca.jacobian(Z, w) if nz else ca.DM(0, nx + nu), adj])
        self.H = ca.Function('H', [w, p, T, t0, sd], [ca.jacobian(adj, w)]) if o.sens_hess else None

    def __call__(self, d, hess=False):
        sd = np.asarray(d.get('seed_adj', np.zeros(self.nx)), float)[:self.nx]
        a = (np.concatenate([d['x'], d['u']]), d['p'], d['T'], d.get('t0', 0.), sd)
        r = [np.array(v) for v in self.F(*a)]
        o = {'x': r[0].ravel(), 'S_forw': r[1], 'Sx': r[1][:, :self.nx], 'Su': r[1][:, self.nx:], 'S_p': r[2], 'z': r[3].ravel(), 'S_algebraic': r[4], 'S_adj': r[5].ravel()}
        if hess and self.H is not None:
            o['S_hess'] = np.array(self.H(*a))
        return o
