"""Reference for solution sensitivities: implicit function theorem on the optimality system
of the Python problem description (dense, CasADi derivatives, no code of the solver)."""
import numpy as np
from . import kkt

T = ('bu', 'bx', 'g', 'h', 'phi')


class Ift:
    def __init__(self, name):
        import casadi as ca
        self.o = kkt.oracle(name)
        self.m = self.o.m
        self.jac = {}
        for f in self.o.fn:
            if id(f) in self.jac:
                continue
            I = [ca.MX.sym(f.name_in(j), f.sparsity_in(j)) for j in range(f.n_in())]
            l, gx, gu, xn, z, h, phi = f(*I)
            w = ca.vertcat(I[0], I[1])
            th = I[3]
            g = ca.vertcat(gu, gx)          # order u, x
            c = ca.vertcat(h, phi)
            wu = ca.vertcat(I[1], I[0])
            W = ca.MX.sym('ux', I[0].numel() + I[1].numel())
            nu = I[1].numel()

            def J(e, v):
                return ca.jacobian(e, v)
            def Jw(e):
                return ca.horzcat(J(e, I[1]), J(e, I[0]))
            self.jac[id(f)] = ca.Function('ift', I, [Jw(g), J(g, th), Jw(xn), J(xn, th), Jw(c), J(c, th), c, J(l, th)])

    def system(self, it, data, tmin):
        """-> K, rhs(p_global), rhs(x0), layout, info at the primal-dual point `it`"""
        m, N = self.m, self.m.N
        off, n = {}, 0
        L = []
        for k in range(N + 1):
            D = data[k]
            nc = sum(D['_n'].values())
            d = {'u': m.nu[k] if k < N else 0, 'x': m.nx[k], 'sl': D['_ns'], 'su': D['_ns'], 'lam': 2 * (nc + D['_ns']), 'pi': m.dim('pi', k) if k < N else 0}
            s = {}
            for f in ('u', 'x', 'sl', 'su', 'lam', 'pi'):
                s[f] = slice(n, n + d[f])
                n += d[f]
            L.append(s)
        npg = m.npg
        K, Rp, gp = np.zeros((n, n)), np.zeros((n, max(npg, 1))), np.zeros(max(npg, 1))
        Rx = np.zeros((n, m.nx[0]))
        weak, act = np.inf, 0
        for k in range(N + 1):
            D, s = data[k], L[k]
            nn, S, idx, ns = D['_n'], D['_s'], D['_idx'], D['_ns']
            nu = m.nu[k] if k < N else 0
            nx = m.nx[k]
            x, u = it['x'][k], it['u'][k] if k < N else np.zeros(0)
            lam, sl, su = it['lam'][k], it['sl'][k], it['su'][k]
            nc = sum(nn.values())
            o, offc = 0, {}
            for t in T:
                offc[t] = o
                o += nn[t]
            dl = lam[nc:2 * nc] - lam[:nc]
            pi = it['pi'][k] if k < N else np.zeros(0)
            f = self.o.fn[k]
            Hw, Hp, Aw, Ap, Cw, Cp, c, lp = [np.array(v) for v in self.jac[id(f)](
                x, u, D['p'], D['pg'], D['dt'], D['scaling'][0], D.get('yref', np.zeros(0)), D.get('W', np.zeros((0, 0))), D.get('Vx', np.zeros((0, 0))), D.get('Vu', np.zeros((0, 0))),
                dl[offc['h']:offc['h'] + nn['h']], dl[offc['phi']:offc['phi'] + nn['phi']], pi)]
            sc = D['scaling'][0]
            w = slice(s['u'].start, s['x'].stop)
            K[w, w] += Hw
            if npg:
                Rp[w] -= Hp
                gp += sc * lp.ravel()
            # constraint rows
            C = np.zeros((nc, nu + nx)); Cth = np.zeros((nc, max(npg, 1))); cv = np.zeros(nc)
            for j, i in enumerate(idx['bu'] if nn['bu'] else []):
                C[offc['bu'] + j, i] = 1; cv[offc['bu'] + j] = u[i]
            for j, i in enumerate(idx['bx'] if nn['bx'] else []):
                C[offc['bx'] + j, nu + i] = 1; cv[offc['bx'] + j] = x[i]
            if nn['g']:
                r = slice(offc['g'], offc['g'] + nn['g'])
                C[r, nu:] = D['C']
                cv[r] = D['C'] @ x
                if k < N:
                    C[r, :nu] = D['D']; cv[r] += D['D'] @ u
            r = slice(offc['h'], nc)
            C[r] = Cw; cv[r] = c.ravel()
            if npg:
                Cth[r] = Cp
                gp += Cth.T @ dl
            la, lo_ = s['lam'].start, None
            K[w, la:la + nc] -= C.T
            K[w, la + nc:la + 2 * nc] += C.T
            if k < N:
                K[w, s['pi']] += Aw.T
                if npg:
                    gp += Ap.T @ pi
                K[s['pi'], w] += Aw
                xs = L[k + 1]['x']
                K[s['pi'], xs] -= np.eye(xs.stop - xs.start)
                K[xs, s['pi']] -= np.eye(xs.stop - xs.start)
                if npg:
                    Rp[s['pi']] -= Ap
            rows = np.zeros(0, int)
            if ns:
                rows = np.concatenate([offc[t] + idx['s' + t] for t in T if S[t]]).astype(int)
                K[s['sl'], s['sl']] += sc * np.diag(D['Zl']); K[s['su'], s['su']] += sc * np.diag(D['Zu'])
                for j, r in enumerate(rows):
                    K[s['sl'].start + j, la + r] -= 1; K[s['su'].start + j, la + nc + r] -= 1
                    K[s['sl'].start + j, la + 2 * nc + j] -= 1; K[s['su'].start + j, la + 2 * nc + ns + j] -= 1
            lo = np.concatenate([D['l' + t] for t in T if nn[t]] or [[]]); hi = np.concatenate([D['u' + t] for t in T if nn[t]] or [[]])
            tl, tu = cv - lo, hi - cv
            tl[rows] += sl; tu[rows] += su
            t = np.concatenate([tl, tu, sl, su])
            msk = np.concatenate([np.abs(lo) > 1e9, np.abs(hi) > 1e9, np.zeros(2 * ns, bool)])
            x0 = np.zeros(2 * (nc + ns), bool)
            if k == 0 and m.has_x0:
                x0[offc['bx']:offc['bx'] + nn['bx']] = True; x0[nc + offc['bx']:nc + offc['bx'] + nn['bx']] = True
            for i in range(2 * (nc + ns)):
                R = la + i
                if msk[i]:
                    K[R, R] = 1
                    continue
                if x0[i] and i >= nc:               # equality: only the difference of the two multipliers is determined
                    K[R, R] = 1
                    continue
                if x0[i]:                           # x0 - value = 0
                    K[R, w] += C[i]
                    Rx[R, i - offc['bx']] = 1
                    continue
                ti, li = max(t[i], tmin), max(lam[i], tmin)
                weak = min(weak, max(ti, li))
                q = max(ti, li)
                act += li > ti
                K[R, R] += ti / q
                if i < nc:
                    K[R, w] += li / q * C[i]; Rp[R] -= li / q * Cth[i]
                    if i in rows:
                        K[R, s['sl'].start + int(np.where(rows == i)[0][0])] += li / q
                elif i < 2 * nc:
                    K[R, w] -= li / q * C[i - nc]; Rp[R] += li / q * Cth[i - nc]
                    if i - nc in rows:
                        K[R, s['su'].start + int(np.where(rows == i - nc)[0][0])] += li / q
                elif i < 2 * nc + ns:
                    K[R, s['sl'].start + i - 2 * nc] += li / q
                else:
                    K[R, s['su'].start + i - 2 * nc - ns] += li / q
        return K, Rp[:, :npg], Rx, L, {'grad': gp[:npg], 'weak': weak, 'active': act}
