"""Per-problem metadata (dimensions, default data) derived from the Python
problem description only - never from the library under test."""
import numpy as np
from . import zoo

LS = ('LINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR')


class Meta:
    """dims/defaults per stage; built from a consistent AcadosOcp / AcadosMultiphaseOcp"""

    def __init__(self, name, ocp=None):
        import contextlib, io, warnings
        self.name = name
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            o = self.ocp = ocp or zoo.ocp(name)
            o.make_consistent(verbose=False)
        so = o.solver_options
        self.N = N = so.N_horizon
        self.nlp = so.nlp_solver_type
        self.mocp = not hasattr(o, 'dims')
        self.integ = set(o.mocp_opts.integrator_type) if self.mocp else {so.integrator_type}
        self.ts = np.array(so.time_steps, float)
        cs = getattr(so, 'cost_scaling', None)
        self.cost_scaling = np.array(cs, float) if cs is not None else np.append(self.ts, 1.)
        if self.mocp:
            self.phase = []
            for i, n in enumerate(o.N_list):
                self.phase += [i] * n
            self.phase.append(len(o.N_list) - 1)
            P = [(o.model[i], o.phases_dims[i], o.constraints[i], o.cost[i]) for i in range(len(o.N_list))]
        else:
            self.phase = [0] * (N + 1)
            P = [(o.model, o.dims, o.constraints, o.cost)]
        self.P = P
        self.nx, self.nu, self.nz, self.np_ = [], [], [], []
        self.st = []     # per stage: dict of default data
        self.cnt = []    # per stage: constraint counts in multiplier order
        self.npg = int(getattr(P[0][1], 'np_global', 0) or 0)
        pv = o.parameter_values
        for k in range(N + 1):
            m, d, c, J = P[self.phase[k]]
            term = k == N
            sfx = '_e' if term else ('_0' if k == 0 else '')
            self.nx.append(d.nx); self.nu.append(0 if term else d.nu); self.nz.append(0 if term else d.nz)
            self.np_.append(d.np)

            def g(obj, base, s=sfx, dflt=None):
                for q in ((s, '') if base not in ('lbu', 'ubu', 'idxbu', 'C', 'D', 'lg', 'ug', 'idxsbu', 'lsbu', 'usbu', 'idxsbx', 'lsbx', 'usbx', 'idxsg', 'lsg', 'usg') else (s if term else '',)):
                    if hasattr(obj, base + q):
                        v = getattr(obj, base + q)
                        return v
                return dflt
            D = {}
            n = {}
            n['bu'] = 0 if term else d.nbu
            n['bx'] = d.nbx_e if term else (d.nbx_0 if k == 0 else d.nbx)
            n['g'] = d.ng_e if term else d.ng
            n['h'] = d.nh_e if term else (d.nh_0 if k == 0 else d.nh)
            n['phi'] = d.nphi_e if term else (d.nphi_0 if k == 0 else d.nphi)
            S = {}
            S['bu'] = 0 if term else d.nsbu
            S['bx'] = d.nsbx_e if term else (0 if k == 0 else d.nsbx)
            S['g'] = d.nsg_e if term else d.nsg
            S['h'] = d.nsh_e if term else (d.nsh_0 if k == 0 else d.nsh)
            S['phi'] = d.nsphi_e if term else (d.nsphi_0 if k == 0 else d.nsphi)
            ns = sum(S.values())
            idx = {}
            for t in n:
                if n[t]:
                    D['l' + t] = np.array(g(c, ('lb' + t[1:]) if t[0] == 'b' else 'l' + t), float).ravel()
                    D['u' + t] = np.array(g(c, ('ub' + t[1:]) if t[0] == 'b' else 'u' + t), float).ravel()
                    if t[0] == 'b':
                        idx[t] = np.array(g(c, 'idx' + t), int).ravel()
                    if S[t]:
                        idx['s' + t] = np.array(g(c, 'idxs' + t), int).ravel()
            if n['g']:
                D['C'] = np.array(g(c, 'C'), float)
                if not term:
                    D['D'] = np.array(g(c, 'D'), float)
            ct = getattr(J, 'cost_type' + sfx, None) or J.cost_type
            if term:
                ct = J.cost_type_e
            if ct in LS:
                D['yref'] = np.array(g(J, 'yref'), float).ravel()
                if ct != 'CONVEX_OVER_NONLINEAR':
                    D['W'] = np.array(g(J, 'W'), float)
                if ct == 'LINEAR_LS':
                    D['Vx'] = np.array(g(J, 'Vx'), float)
                    if not term:
                        D['Vu'] = np.array(g(J, 'Vu'), float)
            if ns:
                for f in ('zl', 'zu', 'Zl', 'Zu'):
                    D[f] = np.array(g(J, f), float).ravel()
            D['scaling'] = np.array([self.cost_scaling[k]])
            D['p'] = np.array(pv[self.phase[k]] if self.mocp else pv, float).ravel()
            D['_ct'] = ct
            D['_n'], D['_s'], D['_idx'], D['_ns'] = n, S, idx, ns
            self.st.append(D)
        self.has_x0 = bool(P[0][2].has_x0)
        pg = getattr(o, 'p_global_values', None)
        self.pg = np.array(pg, float).ravel() if self.npg else np.zeros(0)
        self.ns = [s['_ns'] for s in self.st]
        self.nlam = [2 * (sum(s['_n'].values()) + s['_ns']) for s in self.st]

    def dim(self, f, k):
        N = self.N
        return {'x': self.nx[k], 'u': self.nu[k], 'z': self.nz[k], 'pi': self.nx[k + 1] if k < N else 0, 'lam': self.nlam[k],
                'sl': self.ns[k], 'su': self.ns[k], 'p': self.np_[k]}[f]

    def bnames(self, t):
        return ('lb' + t[1:], 'ub' + t[1:]) if t[0] == 'b' else ('l' + t, 'u' + t)


_cache = {}


def meta(name):
    if name not in _cache:
        _cache[name] = Meta(name)
    return _cache[name]
