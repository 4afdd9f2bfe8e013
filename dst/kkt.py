"""Independent first-order optimality oracle.

Re-derives cost, dynamics (Runge-Kutta of the model) and constraints from the
Python problem description with CasADi and evaluates the KKT residuals of a
primal-dual point.  Shares no code with the solver under test."""
import numpy as np


def butcher(ns, kind='GAUSS_LEGENDRE'):
    from numpy.polynomial import polynomial as P
    if kind == 'GAUSS_LEGENDRE':
        c = (np.polynomial.legendre.leggauss(ns)[0] + 1) / 2
    else:
        import casadi as ca
        c = np.array(ca.collocation_points(ns, 'radau'))
    c = np.sort(c)
    A = np.zeros((ns, ns)); b = np.zeros(ns); L0 = np.zeros(ns)
    for j in range(ns):
        p = np.array([1.])
        for i in range(ns):
            if i != j:
                p = P.polymul(p, [-c[i] / (c[j] - c[i]), 1. / (c[j] - c[i])])
        q = P.polyint(p)
        A[:, j] = P.polyval(c, q); b[j] = P.polyval(1., q); L0[j] = P.polyval(0., p)
    return A, b, c, L0


ERK = {1: ([[0]], [1.]), 2: ([[0, 0], [.5, 0]], [0, 1.]), 3: ([[0, 0, 0], [.5, 0, 0], [-1, 2, 0]], [1 / 6, 2 / 3, 1 / 6]),
       4: ([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1, 0]], [1 / 6, 1 / 3, 1 / 3, 1 / 6])}


def integrator(m, kind, stages, steps, coll='GAUSS_LEGENDRE'):
    """-> Function (x,u,p,pg,dt) -> (xnext, z at start)"""
    import casadi as ca
    nx, nu = m.x.numel(), m.u.numel()
    nz = m.z.numel() if m.z is not None and not isinstance(m.z, list) else 0
    X, U, PP, PG, DT = ca.MX.sym('x', nx), ca.MX.sym('u', nu), ca.MX.sym('p', _n(m.p)), ca.MX.sym('pg', _n(m.p_global)), ca.MX.sym('dt')
    p_, pg_ = _v(m, m.p), _v(m, m.p_global)
    if kind == 'DISCRETE':
        f = ca.Function('f', [m.x, m.u, p_, pg_], [m.disc_dyn_expr])
        return ca.Function('F', [X, U, PP, PG, DT], [f(X, U, PP, PG), ca.MX(0, 1)])
    h = DT / steps
    if kind == 'ERK':
        f = ca.Function('f', [m.x, m.u, p_, pg_], [m.f_expl_expr])
        A, b = ERK[stages]
        x = X
        for _ in range(steps):
            K = []
            for i in range(stages):
                xi = x
                for j in range(i):
                    if A[i][j]:
                        xi = xi + h * A[i][j] * K[j]
                K.append(f(xi, U, PP, PG))
            x = x + h * sum(b[i] * K[i] for i in range(stages))
        return ca.Function('F', [X, U, PP, PG, DT], [x, ca.MX(0, 1)])
    if m.f_impl_expr is not None and not isinstance(m.f_impl_expr, list):
        z_ = m.z if nz else type(m.x).sym('z', 0)
        f = ca.Function('f', [m.xdot, m.x, m.u, z_, p_, pg_], [m.f_impl_expr])
    A, b, c, L0 = butcher(stages, coll)
    K = ca.MX.sym('K', (nx + nz) * stages)
    x0 = ca.MX.sym('x0', nx); hh = ca.MX.sym('h')
    Ks = [K[i * (nx + nz):i * (nx + nz) + nx] for i in range(stages)]
    Zs = [K[i * (nx + nz) + nx:(i + 1) * (nx + nz)] for i in range(stages)]
    res = [f(Ks[i], x0 + hh * sum(A[i, j] * Ks[j] for j in range(stages)), U, Zs[i], PP, PG) for i in range(stages)]
    rf = ca.rootfinder('rf', 'newton', {'x': K, 'p': ca.vertcat(x0, U, PP, PG, hh), 'g': ca.vertcat(*res)}, {'abstol': 1e-13, 'max_iter': 50, 'error_on_fail': False})
    out = ca.Function('o', [K, x0, hh], [x0 + hh * sum(b[i] * Ks[i] for i in range(stages)), sum((L0[i] * Zs[i] for i in range(stages)), ca.MX(nz, 1))])
    x = X
    z0 = None
    for s in range(steps):
        k = rf(x0=ca.DM.zeros((nx + nz) * stages), p=ca.vertcat(x, U, PP, PG, h))['x']
        x, z = out(k, x, h)
        if s == 0:
            z0 = z
    return ca.Function('F', [X, U, PP, PG, DT], [x, z0])


def _n(v):
    return 0 if v is None or isinstance(v, list) else v.numel()


def _v(m, v):
    import casadi as ca
    if v is None or isinstance(v, list):
        return type(m.x).sym('e', 0)
    return v


class Oracle:
    def __init__(self, meta):
        import casadi as ca
        self.m = meta
        o = meta.ocp
        so = o.solver_options
        self.ci = getattr(so, 'cost_discretization', 'EULER')
        self.fn = []
        cache = {}

        def opt(v, k):
            v = np.atleast_1d(np.array(v)).ravel()
            return int(v[k]) if v.size > 1 else int(v[0])
        N = meta.N
        self.dyn = {}
        for k in range(N + 1):
            ph = meta.phase[k]
            m, d, c, J = meta.P[ph]
            kind = so.integrator_type if not meta.mocp else o.mocp_opts.integrator_type[ph]
            sfx = '_e' if k == N else ('_0' if k == 0 else '')
            stg = steps = 1
            if k < N:
                stg, steps = opt(so.sim_method_num_stages, k), opt(so.sim_method_num_steps, k)
            key = (ph, sfx, stg, steps)
            if key not in cache:
                cache[key] = self._build(m, J, sfx, kind, stg, steps, getattr(so, 'collocation_type', 'GAUSS_LEGENDRE'), k, meta)
            self.fn.append(cache[key])

    def _build(self, m, J, sfx, kind, stg, steps, coll, k, meta):
        import casadi as ca
        N = meta.N
        D = meta.st[k]
        term = sfx == '_e'
        nx, nu, nz = meta.nx[k], meta.nu[k], meta.nz[k]
        x, u = ca.MX.sym('x', nx), ca.MX.sym('u', nu)
        p, pg, dt = ca.MX.sym('p', _n(m.p)), ca.MX.sym('pg', _n(m.p_global)), ca.MX.sym('dt')
        sc = ca.MX.sym('sc')
        pi = ca.MX.sym('pi', meta.dim('pi', k))
        nh, nphi, ng = D['_n']['h'], D['_n']['phi'], D['_n']['g']
        lh, lphi = ca.MX.sym('lh', nh), ca.MX.sym('lphi', nphi)
        ny = D['yref'].size if 'yref' in D else 0
        yref = ca.MX.sym('yref', ny)
        W = ca.MX.sym('W', ny, ny) if 'W' in D else ca.MX.sym('W', 0, 0)
        Vx = ca.MX.sym('Vx', *D['Vx'].shape) if 'Vx' in D else ca.MX.sym('Vx', 0, 0)
        Vu = ca.MX.sym('Vu', *D['Vu'].shape) if 'Vu' in D else ca.MX.sym('Vu', 0, 0)
        p_, pg_ = _v(m, m.p), _v(m, m.p_global)
        z_ = _v(m, m.z)
        u_ = m.u
        F = None
        z = ca.MX(0, 1)
        if not term:
            F = integrator(m, kind, stg, steps, coll)
            xn, z = F(x, u, p, pg, dt)
        um = u if not term else ca.MX.zeros(m.u.numel(), 1)
        zm = z if not term else ca.MX.zeros(z_.numel(), 1)
        args = (x, um, zm, p, pg)

        def E(e):
            return ca.Function('e', [m.x, u_, z_, p_, pg_], [e])(*args)

        def gm(base):
            v = getattr(m, base + sfx, None)
            if v is None or (isinstance(v, list) and not v):
                v = getattr(m, base) if sfx != '_e' else v
            return v
        ct = D['_ct']
        if ct == 'EXTERNAL':
            l = E(gm('cost_expr_ext_cost'))
        elif ct == 'LINEAR_LS':
            y = ca.mtimes(Vx, x) + (ca.mtimes(Vu, u) if not term else 0) - yref
            l = .5 * ca.mtimes([y.T, W, y])
        elif ct == 'NONLINEAR_LS':
            y = E(gm('cost_y_expr')) - yref
            l = .5 * ca.mtimes([y.T, W, y])
        elif ct == 'CONVEX_OVER_NONLINEAR':
            y = E(gm('cost_y_expr')) - yref
            psi, r = gm('cost_psi_expr'), gm('cost_r_in_psi_expr')
            l = ca.Function('psi', [r, p_, pg_], [psi])(y, p, pg)
        else:
            raise NotImplementedError(ct)
        if not term and self.ci == 'INTEGRATOR':
            # mean of the stage cost along the trajectory: a quadrature state of the same Runge-Kutta scheme
            l = self._quad(m, u_, z_, p_, pg_, ct, gm, kind, stg, steps, coll, ny)(x, u, p, pg, dt, yref, W)
        h = E(gm('con_h_expr')) if nh else ca.MX(0, 1)
        if nphi:
            r = E(gm('con_r_expr'))
            phi = ca.Function('phi', [gm('con_r_in_phi'), p_, pg_], [gm('con_phi_expr')])(r, p, pg)
        else:
            phi = ca.MX(0, 1)
        Lg = sc * l + ca.dot(lh, h) + ca.dot(lphi, phi)
        xn_ = ca.MX(0, 1)
        if not term:
            Lg = Lg + ca.dot(pi, xn)
            xn_ = xn
        f = ca.Function('S', [x, u, p, pg, dt, sc, yref, W, Vx, Vu, lh, lphi, pi],
                        [l, ca.gradient(Lg, x), ca.gradient(Lg, u) if nu else ca.MX(0, 1), xn_, z, h, phi])
        return f

    def _quad(self, m, u_, z_, p_, pg_, ct, gm, kind, stg, steps, coll, ny):
        import casadi as ca
        import copy
        S = type(m.x)
        yr, Ws, T, q, qd = S.sym('yr', ny), S.sym('W', ny, ny), S.sym('T'), S.sym('q'), S.sym('qd')
        y = gm('cost_y_expr') - yr
        if ct == 'NONLINEAR_LS':
            l = .5 * ca.mtimes([y.T, Ws, y])
        else:
            l = ca.Function('psi', [gm('cost_r_in_psi_expr'), p_, pg_], [gm('cost_psi_expr')])(y, p_, pg_)
        a = copy.copy(m)
        a.x, a.xdot = ca.vertcat(m.x, q), ca.vertcat(m.xdot, qd)
        nx, nz = m.x.numel(), z_.numel()
        a.f_impl_expr = ca.vertcat(m.f_impl_expr[:nx], qd - l / T, m.f_impl_expr[nx:])
        a.p = ca.vertcat(p_, T, yr, ca.reshape(Ws, -1, 1))
        F = integrator(a, kind, stg, steps, coll)
        x, u, p, pg, dt = ca.MX.sym('x', nx), ca.MX.sym('u', u_.numel()), ca.MX.sym('p', p_.numel()), ca.MX.sym('pg', pg_.numel()), ca.MX.sym('dt')
        yref = ca.MX.sym('y', ny)
        W = ca.MX.sym('W', ny, ny) if ct == 'NONLINEAR_LS' else ca.MX.sym('W', 0, 0)
        Wv = ca.reshape(W, -1, 1) if ct == 'NONLINEAR_LS' else ca.MX.zeros(ny * ny, 1)
        xn = F(ca.vertcat(x, 0), u, ca.vertcat(p, dt, yref, Wv), pg, dt)[0]
        return ca.Function('quad', [x, u, p, pg, dt, yref, W], [xn[nx]])

    def terms(self, it, data, d=None):
        """cost, dynamics gaps and constraint functions (in the order of the multipliers, > 0: violated; masked: 0) at it;
        with d = {'x','u','sl','su'} also their derivatives along d"""
        N = self.m.N
        cost = dcost = 0.
        gap, dgap, con, dcon, undef = [], [], [], [], False
        for k in range(N + 1):
            D = data[k]
            n, S, idx, ns = D['_n'], D['_s'], D['_idx'], D['_ns']
            x, u = it['x'][k], it['u'][k] if k < N else np.zeros(0)
            sl, su = it['sl'][k], it['su'][k]
            npi = self.m.dim('pi', k) if k < N else 0
            a = [x, u, D['p'], D['pg'], D['dt'], D['scaling'][0], D.get('yref', np.zeros(0)), D.get('W', np.zeros((0, 0))), D.get('Vx', np.zeros((0, 0))), D.get('Vu', np.zeros((0, 0))),
                 np.zeros(n['h']), np.zeros(n['phi']), np.zeros(self.m.dim('pi', k))]
            l, _, _, xn, z, h, phi = out = [np.array(v) for v in self.fn[k](*a)]
            sc = D['scaling'][0]
            cost += sc * float(l.ravel()[0]) + sc * float(D['zl'] @ sl + D['zu'] @ su + .5 * (D['Zl'] @ sl**2 + D['Zu'] @ su**2) if ns else 0)
            lo = np.concatenate([D['l' + t] for t in ('bu', 'bx', 'g', 'h', 'phi') if n[t]] or [[]])
            hi = np.concatenate([D['u' + t] for t in ('bu', 'bx', 'g', 'h', 'phi') if n[t]] or [[]])
            rows = np.zeros(0, int)
            if ns:
                o, off = 0, {}
                for t in ('bu', 'bx', 'g', 'h', 'phi'):
                    off[t] = o
                    o += n[t]
                rows = np.concatenate([off[t] + idx['s' + t] for t in off if S[t]]).astype(int)

            def vec(x, u, sl, su, h, phi):
                c = np.concatenate([u[idx['bu']] if n['bu'] else [], x[idx['bx']] if n['bx'] else [],
                                    (D['C'] @ x + (D['D'] @ u if k < N else 0)) if n['g'] else [], np.ravel(h), np.ravel(phi)])
                cl, cu = c.copy(), c.copy()
                if ns:
                    cl[rows] += sl; cu[rows] -= su
                return cl, cu
            cl, cu = vec(x, u, sl, su, h, phi)
            ml, mu = np.abs(lo) > 1e9, np.abs(hi) > 1e9
            undef |= bool(np.any(ml & ~np.isfinite(cl)) or np.any(mu & ~np.isfinite(cu)))     # undefined value of a side without bound
            con.append(np.concatenate([np.where(ml, 0, lo - cl), np.where(mu, 0, cu - hi), -sl, -su]))
            if k < N:
                gap.append(xn.ravel() - it['x'][k + 1])
            if d is not None:
                dx, du = d['x'][k], d['u'][k] if k < N else np.zeros(0)
                fw = self.fwd(k)(*a, *out, dx, du)
                dl, dxn, dh, dphi = [np.array(v) for v in fw]
                dcost += sc * float(dl.ravel()[0])
                if ns:
                    dcost += sc * float((D['zl'] + D['Zl'] * sl) @ d['sl'][k] + (D['zu'] + D['Zu'] * su) @ d['su'][k])
                al, au = vec(dx, du, d['sl'][k], d['su'][k], dh, dphi)
                dcon.append(np.concatenate([np.where(ml, 0, -al), np.where(mu, 0, au), -d['sl'][k], -d['su'][k]]))
                if k < N:
                    dgap.append(dxn.ravel() - d['x'][k + 1])
        return {'cost': cost, 'undef': undef, 'gap': gap, 'con': con, 'dcost': dcost, 'dgap': dgap, 'dcon': dcon}

    def fwd(self, k):
        import casadi as ca
        if not hasattr(self, '_fw'):
            self._fw = {}
        f = self.fn[k]
        if id(f) not in self._fw:
            I = [ca.MX.sym(f.name_in(j), f.sparsity_in(j)) for j in range(f.n_in())]
            O = [ca.MX.sym('o_' + f.name_out(j), f.sparsity_out(j)) for j in range(f.n_out())]
            dx, du = ca.MX.sym('dx', f.sparsity_in(0)), ca.MX.sym('du', f.sparsity_in(1))
            g = f.forward(1)
            seed = [dx, du] + [ca.MX.zeros(f.sparsity_in(j).shape) for j in range(2, f.n_in())]
            r = g(*I, *O, *seed)
            self._fw[id(f)] = ca.Function('fw', I + O + [dx, du], [r[0], r[3], r[5], r[6]])
        return self._fw[id(f)]

    def residuals(self, it, data):
        """it: {'x':[..],'u':..,'pi','lam','sl','su'}; data: list of per-stage dicts (like meta.st) + data[k]['dt'], 'pg'
        -> dict(stat, eq, ineq, comp, cost, F=[...], z=[...])"""
        m = self.m
        N = m.N
        stat = eq = ineq = comp = 0.
        cost = 0.
        zs, Fs = [], []
        worst = {}

        def up(name, v, k):
            v = np.asarray(v, float).ravel()
            if not v.size:
                return 0.
            r = np.max(np.abs(v)) if np.all(np.isfinite(v)) else np.inf
            if r > worst.get(name, (-1,))[0]:
                worst[name] = (r, k)
            return r
        for k in range(N + 1):
            D = data[k]
            n, S, idx, ns = D['_n'], D['_s'], D['_idx'], D['_ns']
            x, u = it['x'][k], it['u'][k] if k < N else np.zeros(0)
            lam = it['lam'][k]; sl, su = it['sl'][k], it['su'][k]
            nc = sum(n.values())
            ll, lu, lsl, lsu = lam[:nc], lam[nc:2 * nc], lam[2 * nc:2 * nc + ns], lam[2 * nc + ns:]
            off = {}
            o = 0
            for t in ('bu', 'bx', 'g', 'h', 'phi'):
                off[t] = o
                o += n[t]
            d = lu - ll
            pi = it['pi'][k] if k < N else np.zeros(0)
            l, gx, gu, xn, z, h, phi = [np.array(v) for v in self.fn[k](
                x, u, D['p'], D['pg'], D['dt'], D['scaling'][0], D.get('yref', np.zeros(0)), D.get('W', np.zeros((0, 0))), D.get('Vx', np.zeros((0, 0))), D.get('Vu', np.zeros((0, 0))),
                d[off['h']:off['h'] + n['h']], d[off['phi']:off['phi'] + n['phi']], pi)]
            gx, gu = gx.ravel(), gu.ravel()
            zs.append(z.ravel()); Fs.append(xn.ravel())
            sc = D['scaling'][0]
            cost += sc * float(l.ravel()[0])
            if n['bu']:
                np.add.at(gu, idx['bu'], d[off['bu']:off['bu'] + n['bu']])
            if n['bx']:
                np.add.at(gx, idx['bx'], d[off['bx']:off['bx'] + n['bx']])
            if n['g']:
                gx = gx + D['C'].T @ d[off['g']:off['g'] + n['g']]
                if k < N:
                    gu = gu + D['D'].T @ d[off['g']:off['g'] + n['g']]
            if k > 0:
                gx = gx - it['pi'][k - 1]
            up('stat', gx, k); up('stat', gu, k)
            # constraint values
            c = np.concatenate([u[idx['bu']] if n['bu'] else [], x[idx['bx']] if n['bx'] else [],
                                (D['C'] @ x + (D['D'] @ u if k < N else 0)) if n['g'] else [], h.ravel(), phi.ravel()])
            lo = np.concatenate([D['l' + t] for t in off if n[t]] or [[]]); hi = np.concatenate([D['u' + t] for t in off if n[t]] or [[]])
            cl, cu = c.copy(), c.copy()
            if ns:
                rows = np.concatenate([off[t] + idx['s' + t] for t in off if S[t]]).astype(int)
                cl[rows] += sl; cu[rows] -= su
                up('stat', sc * (D['Zl'] * sl + D['zl']) - ll[rows] - lsl, k)
                up('stat', sc * (D['Zu'] * su + D['zu']) - lu[rows] - lsu, k)
                up('ineq', np.maximum(0, -sl), k); up('ineq', np.maximum(0, -su), k)
                up('comp', lsl * sl, k); up('comp', lsu * su, k)
                cost += sc * float(D['zl'] @ sl + D['zu'] @ su + .5 * (D['Zl'] @ sl**2 + D['Zu'] @ su**2))
            up('ineq', np.maximum(0, lo - cl), k); up('ineq', np.maximum(0, cu - hi), k)
            up('comp', ll * np.where(np.abs(lo) > 1e9, 0, cl - lo), k); up('comp', lu * np.where(np.abs(hi) > 1e9, 0, hi - cu), k)
            up('sign', np.minimum(0, lam), k)
            if k < N:
                up('eq', xn.ravel() - it['x'][k + 1], k)
        r = {q: worst.get(q, (0., -1))[0] for q in ('stat', 'eq', 'ineq', 'comp', 'sign')}
        r['where'] = {q: worst[q][1] for q in worst}
        r['cost'], r['z'], r['F'] = cost, zs, Fs
        return r


# problems whose solver uses an implicit scheme: accuracy of its Newton iterations
IMPL = {'irkdae': 1e-6, 'merit': 1e-6, 'gnsf': 1e-6, 'lifted': 1e-5, 'asrnls': 1e-6, 'costint': 1e-6, 'costconl': 1e-6, 'mocp': 1e-7}
_or = {}


def oracle(n):
    if n not in _or:
        from dst import world
        _or[n] = Oracle(world.meta(n))
    return _or[n]
