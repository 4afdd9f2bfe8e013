"""The model zoo: small optimal control problems and integrators covering the
solver types, integrators, costs, constraints and interfaces of acados.
`ocp(name)` builds the (unmodified) AcadosOcp description, `prepare(names)`
generates and compiles them with the code in the repository's working tree."""
import hashlib, os, sys, json, shutil, time, fcntl, subprocess, io, contextlib
import numpy as np
from . import build as B

REG = {}
SIMREG = {}


def reg(f):
    REG[f.__name__] = f
    return f


def simreg(f):
    SIMREG[f.__name__] = f
    return f


def _models():
    import casadi as ca
    return ca


def pend(name, SX=True, mx=False):
    """swing-up pendulum with friction parameter; nx=2 nu=1 np=2"""
    import casadi as ca
    from acados_template import AcadosModel
    S = ca.MX if mx else ca.SX
    m = AcadosModel()
    m.name = name
    x = S.sym('x', 2); u = S.sym('u', 1); xd = S.sym('xd', 2); p = S.sym('p', 2)
    f = ca.vertcat(x[1], 3.0 * ca.sin(x[0]) - p[0] * x[1] + u + 0.1 * p[1] * ca.cos(x[0]))
    m.x, m.u, m.p, m.xdot = x, u, p, xd
    m.f_expl_expr = f
    m.f_impl_expr = xd - f
    return m


def cart(name):
    """cart pendulum nx=4 nu=1"""
    import casadi as ca
    from acados_template import AcadosModel
    m = AcadosModel()
    m.name = name
    x = ca.SX.sym('x', 4); u = ca.SX.sym('u', 1); xd = ca.SX.sym('xd', 4)
    th, v, dth = x[1], x[2], x[3]
    M, mm, l, g = 1., .1, .8, 9.81
    den = M + mm - mm * ca.cos(th)**2
    f = ca.vertcat(v, dth, (-mm * l * ca.sin(th) * dth**2 + mm * g * ca.cos(th) * ca.sin(th) + u) / den,
                   (-mm * l * ca.cos(th) * ca.sin(th) * dth**2 + u * ca.cos(th) + (M + mm) * g * ca.sin(th)) / (l * den))
    m.x, m.u, m.xdot = x, u, xd
    m.f_expl_expr = f
    m.f_impl_expr = xd - f
    return m


def dae(name):
    """index-1 DAE nx=2 nz=1 nu=1 np=1"""
    import casadi as ca
    from acados_template import AcadosModel
    m = AcadosModel()
    m.name = name
    x = ca.SX.sym('x', 2); u = ca.SX.sym('u', 1); z = ca.SX.sym('z', 1); xd = ca.SX.sym('xd', 2); p = ca.SX.sym('p', 1)
    m.x, m.u, m.z, m.xdot, m.p = x, u, z, xd, p
    m.f_impl_expr = ca.vertcat(xd[0] - x[1], xd[1] - (z + u - 0.2 * x[1]), z + 0.1 * z**3 + p * ca.sin(x[0]))
    return m


def _base(model, N=6, tf=1.2):
    from acados_template import AcadosOcp
    ocp = AcadosOcp()
    ocp.model = model
    o = ocp.solver_options
    o.N_horizon = N
    o.tf = tf
    o.num_threads_in_batch_solve = 1
    o.with_batch_functionality = True
    o.nlp_solver_max_iter = 60
    o.qp_solver_iter_max = 80
    return ocp, o


def _nls(ocp, Wx, Wu, We, yref=0.):
    import casadi as ca
    m = ocp.model
    nx, nu = m.x.shape[0], m.u.shape[0]
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'NONLINEAR_LS'
    m.cost_y_expr = ca.vertcat(m.x, m.u)
    m.cost_y_expr_e = m.x
    ocp.cost.W = np.diag(list(Wx) + list(Wu)); ocp.cost.W_e = np.diag(We)
    ocp.cost.yref = np.full(nx + nu, yref); ocp.cost.yref_e = np.full(nx, yref)


def _ls(ocp, Wx, Wu, We):
    m = ocp.model
    nx, nu = m.x.shape[0], m.u.shape[0]
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'LINEAR_LS'
    ocp.cost.Vx = np.vstack([np.eye(nx), np.zeros((nu, nx))])
    ocp.cost.Vu = np.vstack([np.zeros((nx, nu)), np.eye(nu)])
    ocp.cost.Vx_e = np.eye(nx)
    ocp.cost.W = np.diag(list(Wx) + list(Wu)); ocp.cost.W_e = np.diag(We)
    ocp.cost.yref = np.zeros(nx + nu); ocp.cost.yref_e = np.zeros(nx)


def _ubound(ocp, b):
    nu = ocp.model.u.shape[0]
    c = ocp.constraints
    c.lbu = -b * np.ones(nu); c.ubu = b * np.ones(nu); c.idxbu = np.arange(nu)


@reg
def erk():
    ocp, o = _base(cart('erk'), N=8, tf=0.8)
    _nls(ocp, [10, 10, .1, .1], [.01], [10, 10, .1, .1])
    _ubound(ocp, 20.)
    c = ocp.constraints
    c.x0 = np.array([0, .3, 0, 0])
    c.idxbx = np.array([0]); c.lbx = np.array([-1.]); c.ubx = np.array([1.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.qp_solver_cond_N = 4; o.qp_solver_cond_block_size = [3, 1, 2, 2, 0]
    o.integrator_type = 'ERK'; o.sim_method_num_steps = 2
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    return ocp


@reg
def irkdae():
    """IRK with algebraic state, external cost, exact Hessian, soft nonlinear
    constraint, full condensing, merit line search, regularization"""
    import casadi as ca
    m = dae('irkdae')
    ocp, o = _base(m, N=5, tf=1.0)
    ocp.parameter_values = np.array([2.0])
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'EXTERNAL'
    m.cost_expr_ext_cost = 2 * m.x[0]**2 + .2 * m.x[1]**2 + .05 * m.u**2 + .01 * m.z**2 + .1 * m.x[0] * m.u
    m.cost_expr_ext_cost_e = 5 * m.x[0]**2 + m.x[1]**2
    m.con_h_expr = ca.vertcat(m.x[0]**2 + .1 * m.z**2 + m.x[1]**2, m.x[1] + 0.1 * m.u)
    m.con_h_expr_e = m.x[0]**2 + m.x[1]**2
    c = ocp.constraints
    c.lh = np.array([-1e3, -2.]); c.uh = np.array([1.2, 2.])
    c.lh_e = np.array([-1e3]); c.uh_e = np.array([1.0])
    c.idxsh = np.array([0]); c.idxsh_e = np.array([0])
    ocp.cost.Zl = ocp.cost.Zu = np.array([1.]); ocp.cost.zl = ocp.cost.zu = np.array([10.])
    ocp.cost.Zl_e = ocp.cost.Zu_e = np.array([1.]); ocp.cost.zl_e = ocp.cost.zu_e = np.array([10.])
    _ubound(ocp, 4.)
    c.x0 = np.array([.9, 0.3])
    o.qp_solver = 'FULL_CONDENSING_HPIPM'; o.integrator_type = 'IRK'; o.sim_method_num_stages = np.array([2, 2, 1, 2, 2]); o.sim_method_num_steps = np.array([2, 1, 2, 1, 2])
    o.sim_method_newton_iter = 6
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'EXACT'; o.regularize_method = 'PROJECT'
    return ocp


@reg
def merit():
    import casadi as ca
    m = pend('merit')
    ocp, o = _base(m, N=5, tf=1.0)
    ocp.parameter_values = np.array([.2, 1.])
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'EXTERNAL'
    m.cost_expr_ext_cost = 2 * m.x[0]**2 + .2 * m.x[1]**2 + .05 * m.u**2 + .1 * m.x[0] * m.u
    m.cost_expr_ext_cost_e = 5 * m.x[0]**2 + m.x[1]**2
    m.con_h_expr = ca.vertcat(m.x[0]**2 + m.x[1]**2, m.x[1] + 0.1 * m.u)
    m.con_h_expr_e = m.x[0]**2 + m.x[1]**2
    c = ocp.constraints
    c.lh = np.array([-1e3, -2.]); c.uh = np.array([1.2, 2.])
    c.lh_e = np.array([-1e3]); c.uh_e = np.array([1.0])
    c.idxsh = np.array([0]); c.idxsh_e = np.array([0])
    ocp.cost.Zl = ocp.cost.Zu = np.array([1.]); ocp.cost.zl = ocp.cost.zu = np.array([10.])
    ocp.cost.Zl_e = ocp.cost.Zu_e = np.array([1.]); ocp.cost.zl_e = ocp.cost.zu_e = np.array([10.])
    _ubound(ocp, 4.)
    c.x0 = np.array([.9, 0.3])
    o.qp_solver = 'FULL_CONDENSING_HPIPM'; o.integrator_type = 'IRK'; o.sim_method_num_stages = 2; o.sim_method_num_steps = 2
    o.sim_method_newton_iter = 6
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'EXACT'; o.regularize_method = 'PROJECT_REDUC_HESS'
    o.globalization = 'MERIT_BACKTRACKING'
    return ocp


@reg
def gnsf():
    import casadi as ca
    m = pend('gnsf')
    ocp, o = _base(m, N=5, tf=.8)
    ocp.parameter_values = np.array([.2, 1.])
    _ls(ocp, [4, .3], [.05], [8, 1])
    _ubound(ocp, 6.)
    c = ocp.constraints
    c.x0 = np.array([.7, 0.])
    c.idxbx = np.array([0, 1]); c.lbx = np.array([-.6, -2.]); c.ubx = np.array([.8, .5])
    c.idxbx_e = np.array([1]); c.lbx_e = np.array([-1.]); c.ubx_e = np.array([1.])
    c.idxsbx = np.array([0, 1]); c.idxsbx_e = np.array([0])
    ocp.cost.Zl = ocp.cost.Zu = np.array([1., 1.]); ocp.cost.zl = ocp.cost.zu = np.array([5., 5.])
    ocp.cost.Zl_e = ocp.cost.Zu_e = np.array([1.]); ocp.cost.zl_e = ocp.cost.zu_e = np.array([5.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
    o.integrator_type = 'GNSF'; o.sim_method_num_stages = 2; o.sim_method_num_steps = 2; o.sim_method_newton_iter = 4
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    return ocp


@reg
def rti():
    import casadi as ca
    m = pend('rti')
    ocp, o = _base(m, N=6, tf=1.2)
    ocp.parameter_values = np.array([.2, 1.])
    _ls(ocp, [4, .3], [.05], [8, 1])
    _ubound(ocp, 6.)
    c = ocp.constraints
    c.x0 = np.array([.6, 0.])
    c.C = np.array([[1., .3]]); c.D = np.array([[.1]]); c.lg = np.array([-2.]); c.ug = np.array([2.])
    c.C_e = np.array([[1., 1.]]); c.lg_e = np.array([-1.5]); c.ug_e = np.array([1.5])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.qp_solver_cond_N = 3
    o.integrator_type = 'ERK'; o.nlp_solver_type = 'SQP_RTI'; o.hessian_approx = 'GAUSS_NEWTON'
    o.as_rti_iter = 2; o.as_rti_level = 4
    return ocp


def _asrti(level, name):
    import casadi as ca
    ocp = rti()
    m = ocp.model
    m.name = name
    ocp.solver_options.as_rti_level = level
    ocp.solver_options.rti_log_residuals = 1
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'EXTERNAL'
    m.cost_expr_ext_cost = 2 * m.x[0]**2 + .2 * m.x[1]**2 + .05 * m.u**2
    m.cost_expr_ext_cost_e = 4 * m.x[0]**2 + m.x[1]**2
    return ocp


@reg
def asrti0(): return _asrti(0, 'asrti0')


@reg
def asrti1(): return _asrti(1, 'asrti1')


@reg
def asrti2(): return _asrti(2, 'asrti2')


@reg
def asrti3(): return _asrti(3, 'asrti3')


@reg
def rtisqp():
    """the problem of rti, solved with SQP"""
    ocp = rti()
    ocp.model.name = 'rtisqp'
    ocp.solver_options.nlp_solver_type = 'SQP'
    return ocp


@reg
def asrnls():
    """advanced-step RTI (level chosen at run time), nonlinear least squares, IRK, soft polytopic constraints"""
    import casadi as ca
    m = pend('asrnls')
    ocp, o = _base(m, N=5, tf=1.0)
    ocp.parameter_values = np.array([.2, 1.])
    _nls(ocp, [4, .3], [.05], [8, 1])
    m.cost_y_expr = ca.vertcat(m.x[0], m.x[1] + .1 * m.x[0]**2, m.u)
    _ubound(ocp, 6.)
    c = ocp.constraints
    c.x0 = np.array([.6, 0.])
    c.C = np.array([[1., .3]]); c.D = np.array([[.1]]); c.lg = np.array([-2.]); c.ug = np.array([2.])
    c.C_e = np.array([[1., 1.]]); c.lg_e = np.array([-1.5]); c.ug_e = np.array([1.5])
    c.idxbx = np.array([1]); c.lbx = np.array([-4.]); c.ubx = np.array([4.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.qp_solver_cond_N = 2
    o.integrator_type = 'IRK'; o.sim_method_num_stages = 2; o.sim_method_newton_iter = 8
    o.nlp_solver_type = 'SQP_RTI'; o.hessian_approx = 'GAUSS_NEWTON'
    o.as_rti_iter = 2; o.as_rti_level = 3
    return ocp


@reg
def asrh():
    """advanced-step RTI, exact Hessian with CONVEXIFY regularization, nonlinear constraints"""
    import casadi as ca
    m = pend('asrh')
    ocp, o = _base(m, N=5, tf=.8)
    ocp.parameter_values = np.array([.2, 1.])
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'EXTERNAL'
    m.cost_expr_ext_cost = 2 * m.x[0]**2 + .2 * m.x[1]**2 + .05 * m.u**2 + .1 * ca.sin(m.x[0] * m.u)
    m.cost_expr_ext_cost_e = 4 * m.x[0]**2 + m.x[1]**2
    _ubound(ocp, 6.)
    c = ocp.constraints
    c.x0 = np.array([.6, 0.])
    m.con_h_expr = m.x[0]**2 + .5 * m.x[1]**2 + .1 * m.u; c.lh = np.array([-10.]); c.uh = np.array([1.8])
    m.con_h_expr_e = m.x[0] * m.x[1]; c.lh_e = np.array([-1.]); c.uh_e = np.array([1.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
    o.integrator_type = 'ERK'; o.nlp_solver_type = 'SQP_RTI'; o.hessian_approx = 'EXACT'; o.regularize_method = 'CONVEXIFY'
    o.as_rti_iter = 1; o.as_rti_level = 1
    return ocp


@reg
def lq():
    """linear-quadratic problem: every RTI variant must return its exact solution"""
    import casadi as ca
    from acados_template import AcadosModel
    m = AcadosModel(); m.name = 'lq'
    x = ca.SX.sym('x', 3); u = ca.SX.sym('u', 2); xd = ca.SX.sym('xd', 3); p = ca.SX.sym('p', 2)
    m.x, m.u, m.xdot, m.p = x, u, xd, p
    m.f_expl_expr = ca.vertcat(x[1], p[0] * x[0] - .3 * x[1] + u[0], -.5 * x[2] + .4 * x[0] + u[1] + p[1])
    m.f_impl_expr = xd - m.f_expl_expr
    ocp, o = _base(m, N=9, tf=1.8)
    ocp.parameter_values = np.array([.5, .1])
    _ls(ocp, [4, .3, 1], [.05, .1], [8, 1, 2])
    _ubound(ocp, 3.)
    c = ocp.constraints
    c.x0 = np.array([.6, 0., .3])
    c.idxbx = np.array([1]); c.lbx = np.array([-2.]); c.ubx = np.array([2.])
    c.C = np.array([[1., .3, .2]]); c.D = np.array([[.1, 0.]]); c.lg = np.array([-2.]); c.ug = np.array([2.])
    o.qp_solver = 'FULL_CONDENSING_HPIPM'
    o.integrator_type = 'ERK'; o.nlp_solver_type = 'SQP_RTI'; o.hessian_approx = 'GAUSS_NEWTON'
    o.as_rti_iter = 1; o.as_rti_level = 3
    o.cost_scaling = np.array([.2] * 9 + [1.7])
    return ocp


@reg
def slackb():
    """soft state and input bounds and polytopic constraints at all stages, merit line search, Anderson-free SQP"""
    m = pend('slackb')
    ocp, o = _base(m, N=5, tf=1.0)
    ocp.parameter_values = np.array([.2, 1.])
    _ls(ocp, [4, .3], [.05], [8, 1])
    _ubound(ocp, 3.)
    c = ocp.constraints
    c.x0 = np.array([.9, 0.])
    c.idxsbu = np.array([0])
    c.idxbx = np.array([0, 1]); c.lbx = np.array([-.5, -1.]); c.ubx = np.array([.8, 1.]); c.idxsbx = np.array([1])
    c.idxbx_e = np.array([0, 1]); c.lbx_e = np.array([-.1, -.2]); c.ubx_e = np.array([.1, .2]); c.idxsbx_e = np.array([0, 1])
    c.C = np.array([[1., .3], [0., 1.]]); c.D = np.array([[.1], [.2]]); c.lg = np.array([-1., -1.]); c.ug = np.array([1., 1.]); c.idxsg = np.array([1])
    c.C_e = np.array([[1., 1.]]); c.lg_e = np.array([-.2]); c.ug_e = np.array([.2]); c.idxsg_e = np.array([0])
    c.idxbx = np.array([0, 1]); c.idxsbx = np.array([0, 1])
    J = ocp.cost
    J.Zl = J.Zu = np.array([1., .5, 2., 1.]); J.zl = np.array([5., 3., 4., 2.]); J.zu = np.array([4., 3., 5., 2.])
    J.Zl_0 = J.Zu_0 = np.array([1., 1.]); J.zl_0 = J.zu_0 = np.array([5., 2.])
    J.Zl_e = J.Zu_e = np.array([1., 2., 1.]); J.zl_e = J.zu_e = np.array([5., 3., 4.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.qp_solver_cond_N = 2
    o.integrator_type = 'ERK'; o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    o.globalization = 'MERIT_BACKTRACKING'
    return ocp


@reg
def costint():
    """cost discretized with the integrator (IRK, nonlinear least squares)"""
    import casadi as ca
    m = pend('costint')
    ocp, o = _base(m, N=5, tf=1.0)
    ocp.parameter_values = np.array([.2, 1.])
    _nls(ocp, [4, .3], [.05], [8, 1])
    m.cost_y_expr = ca.vertcat(m.x[0], m.x[1] + .1 * m.x[0]**2, m.u)
    _ubound(ocp, 6.)
    ocp.constraints.x0 = np.array([.6, 0.])
    o.cost_discretization = 'INTEGRATOR'
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
    o.integrator_type = 'IRK'; o.sim_method_num_stages = 2; o.sim_method_num_steps = 2; o.sim_method_newton_iter = 8
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    o.globalization = 'MERIT_BACKTRACKING'
    return ocp


@reg
def costconl():
    """convex-over-nonlinear cost discretized with the integrator"""
    import casadi as ca
    m = pend('costconl')
    ocp, o = _base(m, N=4, tf=.8)
    ocp.parameter_values = np.array([.2, 1.])
    r = ca.SX.sym('r', 3); re = ca.SX.sym('re', 2)
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'CONVEX_OVER_NONLINEAR'
    m.cost_r_in_psi_expr = r; m.cost_y_expr = ca.vertcat(m.x, m.u + .1 * m.x[0]**2)
    m.cost_psi_expr = ca.sqrt(1 + 4 * r[0]**2) + .3 * r[1]**2 + .1 * r[2]**2
    m.cost_r_in_psi_expr_e = re; m.cost_y_expr_e = m.x
    m.cost_psi_expr_e = ca.sqrt(1 + 9 * re[0]**2) + re[1]**2
    ocp.cost.yref = np.array([.1, 0., 0.]); ocp.cost.yref_e = np.array([.1, 0.])
    _ubound(ocp, 4.)
    ocp.constraints.x0 = np.array([.8, .1])
    o.cost_discretization = 'INTEGRATOR'
    o.qp_solver = 'FULL_CONDENSING_HPIPM'
    o.integrator_type = 'IRK'; o.sim_method_num_stages = 2; o.sim_method_newton_iter = 8
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    return ocp


@reg
def fixhess():
    """fixed Hessian, dense weights, storage of iterates, external QP residuals"""
    m = pend('fixhess')
    ocp, o = _base(m, N=5, tf=1.0)
    ocp.parameter_values = np.array([.2, 1.])
    _ls(ocp, [4, .3], [.05], [8, 1])
    ocp.cost.W = np.array([[4, .2, .05], [.2, .3, .01], [.05, .01, .05]])
    _ubound(ocp, 4.)
    c = ocp.constraints
    c.x0 = np.array([.9, 0.])
    c.idxbx = np.array([1]); c.lbx = np.array([-1.]); c.ubx = np.array([1.]); c.idxsbx = np.array([0])
    J = ocp.cost
    J.Zl = J.Zu = np.array([1.]); J.zl = J.zu = np.array([5.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
    o.integrator_type = 'ERK'; o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    o.fixed_hess = 1; o.store_iterates = True; o.nlp_solver_ext_qp_res = 1
    o.log_primal_step_norm = True; o.log_dual_step_norm = True
    return ocp


@reg
def anders():
    """Anderson acceleration"""
    m = cart('anders')
    ocp, o = _base(m, N=6, tf=.6)
    _nls(ocp, [10, 10, .1, .1], [.01], [10, 10, .1, .1])
    _ubound(ocp, 15.)
    c = ocp.constraints
    c.x0 = np.array([0, .3, 0, 0])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
    o.integrator_type = 'ERK'; o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    o.with_anderson_acceleration = True; o.anderson_activation_threshold = 10.
    o.nlp_solver_max_iter = 80
    return ocp


@reg
def rtiirk():
    """RTI, IRK with DAE, convex-over-nonlinear cost, soft constraints"""
    import casadi as ca
    m = dae('rtiirk')
    ocp, o = _base(m, N=5, tf=1.0)
    ocp.parameter_values = np.array([2.0])
    r = ca.SX.sym('r', 3); re = ca.SX.sym('re', 2)
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'CONVEX_OVER_NONLINEAR'
    m.cost_r_in_psi_expr = r; m.cost_y_expr = ca.vertcat(m.x, m.u + 0.1 * m.x[0]**2)
    m.cost_psi_expr = ca.sqrt(1 + 4 * r[0]**2) + .3 * r[1]**2 + .1 * r[2]**2
    m.cost_r_in_psi_expr_e = re; m.cost_y_expr_e = m.x
    m.cost_psi_expr_e = ca.sqrt(1 + 9 * re[0]**2) + re[1]**2
    ocp.cost.yref = np.array([.1, 0., 0.]); ocp.cost.yref_e = np.array([.1, 0.])
    _ubound(ocp, 4.)
    c = ocp.constraints
    c.idxsbu = np.array([0])
    m.con_h_expr = m.x[0] * m.x[1]; c.lh = np.array([-1.]); c.uh = np.array([1.])
    c.idxsh = np.array([0])
    ocp.cost.Zl = ocp.cost.Zu = np.array([1., 2.]); ocp.cost.zl = ocp.cost.zu = np.array([10., 3.])
    ocp.cost.Zl_0 = ocp.cost.Zu_0 = np.array([1.]); ocp.cost.zl_0 = ocp.cost.zu_0 = np.array([10.])
    c.x0 = np.array([.8, 0.1])
    o.qp_solver = 'FULL_CONDENSING_HPIPM'; o.integrator_type = 'IRK'; o.sim_method_num_stages = 2
    o.sim_method_newton_iter = 5; o.sim_method_jac_reuse = 1
    o.nlp_solver_type = 'SQP_RTI'; o.hessian_approx = 'GAUSS_NEWTON'
    return ocp


@reg
def ddp():
    m = pend('ddp')
    ocp, o = _base(m, N=6, tf=1.0)
    ocp.parameter_values = np.array([.2, 1.])
    _nls(ocp, [4, .3], [.05], [8, 1])
    ocp.constraints.x0 = np.array([.6, 0.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.integrator_type = 'ERK'
    o.nlp_solver_type = 'DDP'; o.hessian_approx = 'GAUSS_NEWTON'
    o.globalization = 'MERIT_BACKTRACKING'; o.with_adaptive_levenberg_marquardt = True
    return ocp


@reg
def ddpfix():
    """DDP with full steps, free initial state partly fixed by a stage-0 constraint on all states"""
    m = pend('ddpfix')
    ocp, o = _base(m, N=7, tf=.7)
    ocp.parameter_values = np.array([.2, 1.])
    _nls(ocp, [4, .3], [.05], [8, 1])
    ocp.constraints.x0 = np.array([.5, .1])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.integrator_type = 'IRK'
    o.sim_method_num_stages = 2
    o.nlp_solver_type = 'DDP'; o.hessian_approx = 'GAUSS_NEWTON'
    o.globalization = 'FIXED_STEP'
    return ocp


@reg
def mbt():
    """merit function line search with hard two-sided nonlinear, polytopic and terminal constraints"""
    import casadi as ca
    m = pend('mbt')
    ocp, o = _base(m, N=6, tf=1.2)
    ocp.parameter_values = np.array([.2, 1.])
    _nls(ocp, [20, .05], [.05], [8, 1])
    ocp.cost.yref = np.array([-2., 0., 0.]); ocp.cost.yref_e = np.array([-.6, 0.])
    _ubound(ocp, 15.)
    c = ocp.constraints
    c.x0 = np.array([.9, 0.])
    m.con_h_expr = ca.vertcat(m.x[0]**2 + m.x[1]**2, ca.log(.5 + m.x[0]) + .1 * m.x[1] * m.u)       # not defined everywhere
    c.lh = np.array([-1., -2.]); c.uh = np.array([9., 1.1])
    m.con_h_expr_e = ca.cos(m.x[0]) + .2 * m.x[1]; c.lh_e = np.array([.1]); c.uh_e = np.array([1.3])
    c.idxbx = np.array([1]); c.lbx = np.array([-5.]); c.ubx = np.array([5.])
    c.C = np.array([[1., .3]]); c.D = np.array([[.1]]); c.lg = np.array([-3.]); c.ug = np.array([1.2])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.integrator_type = 'ERK'
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'; o.globalization = 'MERIT_BACKTRACKING'
    return ocp


@reg
def fnl():
    """funnel globalization with hard two-sided constraints, discrete dynamics, exact Hessian"""
    import casadi as ca
    m = pend('fnl')
    x, u, p = m.x, m.u, m.p
    m.disc_dyn_expr = ca.vertcat(x[0] + .2 * x[1], x[1] + .2 * (p[1] * ca.sin(x[0]) * 2 - p[0] * x[1] + u * ca.cos(x[0])))
    ocp, o = _base(m, N=6, tf=1.2)
    ocp.parameter_values = np.array([.2, 1.])
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'EXTERNAL'
    m.cost_expr_ext_cost = 10 * (1 - ca.cos(.6 * m.x[0] + 1.2)) + .1 * m.x[1]**2 + .05 * m.u**2
    m.cost_expr_ext_cost_e = 8 * (1 - ca.cos(m.x[0] + .5)) + m.x[1]**2
    _ubound(ocp, 15.)
    c = ocp.constraints
    c.x0 = np.array([.9, 0.])
    m.con_h_expr = ca.vertcat(m.x[0]**2 + m.x[1]**2, ca.sqrt(.5 + m.x[0]) + .1 * m.x[1] * m.u)       # not defined everywhere
    c.lh = np.array([-1., .2]); c.uh = np.array([9., 1.6])
    c.idxbx = np.array([1]); c.lbx = np.array([-5.]); c.ubx = np.array([5.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.integrator_type = 'DISCRETE'
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'EXACT'; o.regularize_method = 'MIRROR'; o.globalization = 'FUNNEL_L1PEN_LINESEARCH'
    return ocp


@reg
def wfqp():
    import casadi as ca
    m = pend('wfqp')
    ocp, o = _base(m, N=5, tf=1.0)
    ocp.parameter_values = np.array([.2, 1.])
    _nls(ocp, [4, .3], [.05], [8, 1])
    _ubound(ocp, 5.)
    c = ocp.constraints
    c.x0 = np.array([.6, 0.])
    m.con_h_expr = m.x[0]**2 + .5 * m.x[1]**2; c.lh = np.array([-1e3]); c.uh = np.array([1.5])
    m.con_h_expr_e = m.x[0]**2 + .5 * m.x[1]**2; c.lh_e = np.array([-1e3]); c.uh_e = np.array([1.0])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.integrator_type = 'ERK'
    o.nlp_solver_type = 'SQP_WITH_FEASIBLE_QP'; o.hessian_approx = 'GAUSS_NEWTON'
    o.globalization = 'FUNNEL_L1PEN_LINESEARCH'; o.search_direction_mode = 'BYRD_OMOJOKUN'
    o.globalization_full_step_dual = True; o.globalization_use_SOC = False
    return ocp


@reg
def disc():
    """discrete dynamics, external cost, p_global, exact Hessian, solution sensitivities"""
    import casadi as ca
    from acados_template import AcadosModel
    m = AcadosModel(); m.name = 'disc'
    x = ca.MX.sym('x', 2); u = ca.MX.sym('u', 1); p = ca.MX.sym('p', 1); pg = ca.MX.sym('pg', 2)
    m.x, m.u, m.p, m.p_global = x, u, p, pg
    h = .15
    a = ca.sin(pg[0]) + pg[1]**2
    m.disc_dyn_expr = ca.vertcat(x[0] + h * x[1], x[1] + h * (a * x[0] - .3 * x[1] + u) + .02 * p)
    ocp, o = _base(m, N=6, tf=.9)
    ocp.parameter_values = np.array([.5]); ocp.p_global_values = np.array([.4, .7])
    ocp.cost.cost_type = ocp.cost.cost_type_e = ocp.cost.cost_type_0 = 'EXTERNAL'
    m.cost_expr_ext_cost = (2 + pg[0]) * x[0]**2 + .2 * x[1]**2 + .1 * u**2 + .03 * u**4
    m.cost_expr_ext_cost_0 = m.cost_expr_ext_cost
    m.cost_expr_ext_cost_e = (5 + a) * x[0]**2 + x[1]**2
    _ubound(ocp, 2.)
    c = ocp.constraints
    c.x0 = np.array([.9, 0.])
    m.con_h_expr = x[1] + .1 * a * x[0]; c.lh = np.array([-.8]); c.uh = np.array([.8])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.qp_solver_cond_N = 6
    o.integrator_type = 'DISCRETE'; o.nlp_solver_type = 'SQP'; o.hessian_approx = 'EXACT'
    o.qp_solver_ric_alg = 1; o.qp_solver_cond_ric_alg = 1
    o.with_solution_sens_wrt_params = True; o.with_value_sens_wrt_params = True
    return ocp


def _sens(name, nlp):
    """solution sensitivities with soft constraints, polytopic, initial and terminal constraints that depend on global parameters"""
    import casadi as ca
    from acados_template import AcadosModel
    m = AcadosModel(); m.name = name
    x = ca.SX.sym('x', 2); u = ca.SX.sym('u', 2); p = ca.SX.sym('p', 1); pg = ca.SX.sym('pg', 3)
    m.x, m.u, m.p, m.p_global = x, u, p, pg
    h = .2
    m.disc_dyn_expr = ca.vertcat(x[0] + h * (x[1] + .1 * u[1] * pg[2]), x[1] + h * (ca.sin(pg[0] * x[0]) - .3 * x[1] * pg[1] + u[0]) + .02 * p)
    ocp, o = _base(m, N=5, tf=1.)
    ocp.parameter_values = np.array([.5]); ocp.p_global_values = np.array([.9, .7, .4])
    ocp.cost.cost_type = ocp.cost.cost_type_e = ocp.cost.cost_type_0 = 'EXTERNAL'
    m.cost_expr_ext_cost = (2 + pg[0]) * (x[0] - .2 * p)**2 + .2 * x[1]**2 + .1 * u[0]**2 + .2 * u[1]**2 + .03 * u[0]**4 + .05 * pg[2] * u[0] * x[0]
    m.cost_expr_ext_cost_0 = .3 * u[0]**2 + (.2 + pg[1]**2) * u[1]**2 + .2 * u[0] * pg[2]
    m.cost_expr_ext_cost_e = (3 + pg[1]) * (x[0] - .3 * pg[2])**2 + x[1]**2
    c = ocp.constraints
    c.idxbu = np.array([1]); c.lbu = np.array([-.4]); c.ubu = np.array([.5])
    c.x0 = np.array([.9, -.2])
    c.idxbx = np.array([1]); c.lbx = np.array([-.55]); c.ubx = np.array([2.])
    c.C = np.array([[.2, .1]]); c.D = np.array([[1., .3]]); c.lg = np.array([-1.6]); c.ug = np.array([1.5])
    m.con_h_expr_0 = u[0] + .5 * u[1] * pg[0]; c.lh_0 = np.array([-1.2]); c.uh_0 = np.array([1.2])
    m.con_h_expr = ca.vertcat(x[1] + .2 * pg[0] * x[0] + .1 * u[0], x[0]**2 + pg[1] * u[1]); c.lh = np.array([-.4, -.3]); c.uh = np.array([.8, .6])
    m.con_h_expr_e = ca.vertcat(x[1] + pg[2] * x[0]**2 + .3 * pg[0], x[0] - .1 * pg[1]); c.lh_e = np.array([-.1, -1.]); c.uh_e = np.array([.4, .6])
    c.idxsbx = np.array([0]); c.idxsh = np.array([1]); c.idxsh_e = np.array([0])
    ocp.cost.zl, ocp.cost.zu, ocp.cost.Zl, ocp.cost.Zu = np.array([1., .8]), np.array([1.2, .5]), np.array([2., 1.]), np.array([1., 3.])
    ocp.cost.zl_e, ocp.cost.zu_e, ocp.cost.Zl_e, ocp.cost.Zu_e = np.array([.6]), np.array([.9]), np.array([1.]), np.array([2.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.qp_solver_cond_N = 5
    o.integrator_type = 'DISCRETE'; o.nlp_solver_type = nlp; o.hessian_approx = 'EXACT'
    o.qp_solver_ric_alg = 0; o.qp_solver_cond_ric_alg = 0
    o.with_solution_sens_wrt_params = True; o.with_value_sens_wrt_params = True
    return ocp


@reg
def senss(): return _sens('senss', 'SQP')


@reg
def sensr(): return _sens('sensr', 'SQP_RTI')


@reg
def bgp():
    """convex-over-nonlinear constraint and cost, mirror regularization"""
    import casadi as ca
    m = pend('bgp')
    ocp, o = _base(m, N=5, tf=.8)
    ocp.parameter_values = np.array([.2, 1.])
    r = ca.SX.sym('r', 3); re = ca.SX.sym('re', 2); rc = ca.SX.sym('rc', 2)
    ocp.cost.cost_type = ocp.cost.cost_type_e = 'CONVEX_OVER_NONLINEAR'
    m.cost_r_in_psi_expr = r; m.cost_y_expr = ca.vertcat(m.x, m.u)
    m.cost_psi_expr = ca.sqrt(1 + 4 * r[0]**2) + .3 * r[1]**2 + .1 * r[2]**2
    m.cost_r_in_psi_expr_e = re; m.cost_y_expr_e = m.x
    m.cost_psi_expr_e = 3 * re[0]**2 + re[1]**2
    ocp.cost.yref = np.zeros(3); ocp.cost.yref_e = np.zeros(2)
    c = ocp.constraints
    c.constr_type = 'BGP'
    m.con_r_in_phi = rc; m.con_r_expr = ca.vertcat(m.x[1], m.u[0] * .3); m.con_phi_expr = rc[0]**2 + rc[1]**2
    c.lphi = np.array([-1e3]); c.uphi = np.array([1.0])
    c.idxsphi = np.array([0])
    ocp.cost.Zl = ocp.cost.Zu = np.array([1.]); ocp.cost.zl = ocp.cost.zu = np.array([10.])
    c.x0 = np.array([.6, 0.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.integrator_type = 'ERK'
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'; o.regularize_method = 'MIRROR'
    return ocp


@reg
def funnel():
    """funnel globalization, QP scaling"""
    import casadi as ca
    m = pend('funnel')
    ocp, o = _base(m, N=5, tf=1.0)
    ocp.parameter_values = np.array([.2, 1.])
    _nls(ocp, [400, 30], [.05], [800, 100])
    _ubound(ocp, 8.)
    c = ocp.constraints
    c.x0 = np.array([.6, 0.])
    m.con_h_expr = 50 * (m.x[0]**2 + .5 * m.x[1]**2); c.lh = np.array([-1e4]); c.uh = np.array([60.])
    c.idxsh = np.array([0])
    ocp.cost.Zl = ocp.cost.Zu = np.array([1.]); ocp.cost.zl = ocp.cost.zu = np.array([20.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.qp_solver_cond_N = 2
    o.integrator_type = 'ERK'; o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    o.globalization = 'FUNNEL_L1PEN_LINESEARCH'
    o.qpscaling_scale_objective = 'OBJECTIVE_GERSHGORIN'; o.qpscaling_scale_constraints = 'INF_NORM'
    o.levenberg_marquardt = 1e-3
    return ocp


@reg
def lifted():
    m = pend('lifted')
    ocp, o = _base(m, N=5, tf=.8)
    ocp.parameter_values = np.array([.2, 1.])
    _ls(ocp, [4, .3], [.05], [8, 1])
    _ubound(ocp, 6.)
    ocp.constraints.x0 = np.array([.6, 0.])
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
    o.integrator_type = 'LIFTED_IRK'; o.sim_method_num_stages = 2
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    return ocp


@reg
def mhe():
    """no initial state constraint, time varying parameters, full condensing, non-uniform grid"""
    import casadi as ca
    from acados_template import AcadosModel
    m = AcadosModel(); m.name = 'mhe'
    x = ca.SX.sym('x', 3); w = ca.SX.sym('w', 2); xd = ca.SX.sym('xd', 3); p = ca.SX.sym('p', 1)
    f = ca.vertcat(x[1] + w[0], -ca.sin(x[0]) * x[2] + p + w[1], 0)
    m.x, m.u, m.xdot, m.p = x, w, xd, p
    m.f_expl_expr = f; m.f_impl_expr = xd - f
    ocp, o = _base(m, N=6, tf=.9)
    ocp.parameter_values = np.array([.1])
    ocp.cost.cost_type = ocp.cost.cost_type_0 = ocp.cost.cost_type_e = 'NONLINEAR_LS'
    m.cost_y_expr_0 = ca.vertcat(x[0], w, x); ocp.cost.W_0 = np.diag([10, 1, 1, .5, .5, .5]); ocp.cost.yref_0 = np.array([.3, 0, 0, .2, 0., 1.])
    m.cost_y_expr = ca.vertcat(x[0], w); ocp.cost.W = np.diag([10, 1, 1.]); ocp.cost.yref = np.array([.3, 0, 0.])
    m.cost_y_expr_e = x[0]; ocp.cost.W_e = np.diag([10.]); ocp.cost.yref_e = np.array([.3])
    c = ocp.constraints
    c.idxbx = np.array([2]); c.lbx = np.array([.2]); c.ubx = np.array([3.])
    c.idxbx_0 = np.array([2]); c.lbx_0 = np.array([.2]); c.ubx_0 = np.array([3.])
    o.time_steps = np.array([.1, .1, .15, .15, .2, .2])
    o.qp_solver = 'FULL_CONDENSING_HPIPM'; o.integrator_type = 'ERK'
    o.nlp_solver_type = 'SQP'; o.hessian_approx = 'GAUSS_NEWTON'
    return ocp


@reg
def mocp():
    """multi-phase: 4-state erk phase, discrete transition, 2-state phase"""
    import casadi as ca
    from acados_template import AcadosModel, AcadosOcp, AcadosMultiphaseOcp
    o1 = AcadosOcp(); m1 = AcadosModel(); m1.name = 'mo1'
    x = ca.SX.sym('x', 3); u = ca.SX.sym('u', 1); p = ca.SX.sym('p', 1); xd = ca.SX.sym('xd', 3)
    f = ca.vertcat(x[1], x[2] - .1 * ca.sin(x[0]) * p, u)
    m1.x, m1.u, m1.p, m1.xdot, m1.f_expl_expr, m1.f_impl_expr = x, u, p, xd, f, xd - f
    o1.model = m1
    _nls(o1, [1, .1, .1], [.01], [1, 1, 1.])
    o1.parameter_values = np.array([1.])
    c = o1.constraints
    _ubound(o1, 20.)
    c.x0 = np.array([1., 0., 0.])
    ot = AcadosOcp(); mt = AcadosModel(); mt.name = 'mot'
    x = ca.SX.sym('x', 3); mt.x = x; mt.u = ca.SX.sym('u', 0, 0); mt.disc_dyn_expr = x[:2]; mt.p = ca.SX.sym('p', 1)
    ot.model = mt; ot.cost.cost_type = 'NONLINEAR_LS'; mt.cost_y_expr = x; ot.cost.W = np.diag([.1, .1, 1e-2]); ot.cost.yref = np.zeros(3)
    ot.parameter_values = np.array([1.])
    o2 = AcadosOcp(); m2 = AcadosModel(); m2.name = 'mo2'
    x = ca.SX.sym('x', 2); u = ca.SX.sym('u', 1); xd = ca.SX.sym('xd', 2); p = ca.SX.sym('p', 12)
    f = ca.vertcat(x[1], u - p[0] * x[1] + 0.01 * p[1])
    m2.x, m2.u, m2.xdot, m2.p, m2.f_expl_expr, m2.f_impl_expr = x, u, xd, p, f, xd - f
    o2.model = m2; _nls(o2, [1, .1], [.01], [4, 1.]); _ubound(o2, 10.)
    o2.parameter_values = np.array([0, 1.] + [0.] * 10)   # mostly zero: generated as sparse default
    mo = AcadosMultiphaseOcp(N_list=[3, 1, 3])
    mo.set_phase(o1, 0); mo.set_phase(ot, 1); mo.set_phase(o2, 2)
    mo.name = 'mocp'
    o = mo.solver_options
    o.nlp_solver_type = 'SQP'; o.tf = 1.4 + 1.0; o.time_steps = np.array([.2] * 3 + [1.] + [.25] * 3)
    o.tf = float(o.time_steps.sum())
    mo.mocp_opts.integrator_type = ['ERK', 'DISCRETE', 'IRK']
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; o.hessian_approx = 'GAUSS_NEWTON'
    o.nlp_solver_max_iter = 60
    return mo


# ------------------------------------------------------------- integrators
def _sim(model, kind, **kw):
    from acados_template import AcadosSim
    s = AcadosSim()
    s.model = model
    o = s.solver_options
    o.T = .1; o.integrator_type = kind; o.num_stages = kw.get('stages', 2); o.num_steps = kw.get('steps', 3)
    o.newton_iter = kw.get('newton', 8); o.newton_tol = kw.get('tol', 0.)
    o.sens_forw = kw.get('forw', True); o.sens_adj = kw.get('adj', True); o.sens_hess = kw.get('hess', False)
    o.sens_algebraic = kw.get('alg', False); o.output_z = kw.get('z', False); o.sim_method_jac_reuse = kw.get('reuse', 0)
    s.solver_options.num_threads_in_batch_solve = 1
    o.with_batch_functionality = kw.get('batch', True)
    if kw.get('radau'):
        o.collocation_type = 'GAUSS_RADAU_IIA'
    o.sens_forw_p = kw.get('S_p', False)
    s.parameter_values = np.array(kw['p'])
    return s


@simreg
def serk(): return _sim(pend('serk'), 'ERK', stages=4, p=[.2, 1.], hess=True)


@simreg
def sirk(): return _sim(pend('sirk'), 'IRK', p=[.2, 1.], hess=True, newton=14, reuse=1)


@simreg
def sdae(): return _sim(dae('sdae'), 'IRK', p=[2.], z=True, alg=True, stages=3, newton=10)


@simreg
def stol(): return _sim(dae('stol'), 'IRK', p=[2.], z=True, alg=True, stages=2, newton=20, tol=1e-9)


@simreg
def sgnsf(): return _sim(pend('sgnsf'), 'GNSF', p=[.2, 1.], stages=3, newton=10)


def tvar(name, z=False):
    """explicitly time dependent"""
    import casadi as ca
    m = dae(name) if z else pend(name)
    m.t = ca.SX.sym('t')
    e = ca.vertcat(0, ca.cos(3 * m.t) * m.x[0] + .5 * m.t * m.u[0])
    if z:
        m.f_impl_expr -= ca.vertcat(e, 0)
    else:
        m.f_expl_expr += e
        m.f_impl_expr -= e
    return m


@simreg
def serk3(): return _sim(pend('serk3'), 'ERK', stages=3, steps=2, p=[.2, 1.], S_p=True)


@simreg
def sradau(): return _sim(tvar('sradau', True), 'IRK', stages=2, steps=2, p=[2.], z=True, alg=True, radau=True, S_p=True, newton=10)


@simreg
def sgnsfz():
    """GNSF structure given by the user: index-1 DAE whose algebraic equations contain state derivatives, with a linear output system"""
    import casadi as ca
    from acados_template import AcadosModel
    from acados_template.gnsf import GnsfModel
    m = AcadosModel(); m.name = 'sgnsfz'
    x = ca.SX.sym('x', 3); z = ca.SX.sym('z', 3); u = ca.SX.sym('u', 2); xd = ca.SX.sym('xd', 3); p = ca.SX.sym('p', 2)
    m.x, m.z, m.u, m.xdot, m.p = x, z, u, xd, p
    I1, I2 = [2, 0], [1]       # x1 = (x2, x0), x2 = (x1)
    J1, J2 = [1, 2], [0]       # z1 = (z1, z2), z2 = (z0)
    x1, k1, z1 = x[I1], xd[I1], z[J1]
    E = np.array([[1., 0., 1., .2], [.1, 1., 0., 1.], [.9, .8, 1., .1], [.8, .9, 0., 1.]])
    A = np.array([[-.3, 1.], [-1., 0.], [-.3, .1], [0., .5]])
    Bm = np.array([[0., .1], [1., 0.], [.2, 0.], [0., -.1]])
    C = np.array([[.5, 0.], [0., .4], [0., .3], [-.2, 0.]])
    c = np.array([.05, 0., 0., .02])
    y, uh = ca.vertcat(x1[0], k1[1], z1[0]), u[0]
    ph = lambda y, w: ca.vertcat(p[0] * ca.sin(y[0]) + .2 * y[2] * w, ca.cos(y[1] + w) * p[1])
    flo = ca.vertcat(ca.sin(x1[0]) * p[1] + .2 * k1[1], .3 * x1[1] * u[0] + .1 * z1[1])
    E_LO = np.array([[1., .2], [.3, 1.]]); A_LO = np.array([[-.4], [.6]]); B_LO = np.array([[.1, .2], [0., .3]]); c_LO = np.array([[.03], [-.1]])
    m.f_impl_expr = ca.vertcat(E @ ca.vertcat(k1, z1) - A @ x1 - Bm @ u - C @ ph(y, uh) - c,
                               E_LO @ ca.vertcat(xd[I2], z[J2]) - A_LO @ x[I2] - B_LO @ u - flo - c_LO)
    m.gnsf_model = GnsfModel(x=x, u=u, z=z, xdot=xd, p=p, p_global=[], y=y, uhat=uh, phi=ph(y, uh), f_LO=flo, A=A, B=Bm, C=C, E=E, A_LO=A_LO, c=c, E_LO=E_LO, B_LO=B_LO, c_LO=c_LO,
                             idx_perm_x=np.array(I1 + I2), idx_perm_z=np.array(J1 + J2))
    return _sim(m, 'GNSF', p=[.5, .4], stages=2, steps=3, newton=14, z=True, alg=True)


# ------------------------------------------------------------- preparation
def iface_files():
    out = []
    for d, _, fs in os.walk(os.path.join(B.REPO, 'interfaces', 'acados_template', 'acados_template')):
        out += [os.path.join(d, f) for f in fs if f.endswith(('.py', '.in.c', '.in.h', '.json', '.in', '.pyx', '.pxd')) or '.in' in f]
    return sorted(out)


_root = None


def setup():
    """build the library and point the Python interface at it"""
    global _root
    if _root:
        return _root
    _root = B.build()
    os.environ['ACADOS_SOURCE_DIR'] = _root
    os.environ['ACADOS_INSTALL_DIR'] = _root
    os.environ['CC'] = _root + '/bin/simcc'
    os.environ['MAKEFLAGS'] = f'-j4 CC={_root}/bin/simcc'
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    p = os.path.join(B.REPO, 'interfaces', 'acados_template')
    if p not in sys.path:
        sys.path.insert(0, p)
    return _root


# ------------------------------------------------------------- variants: the same problem, generated with another discretization
def _ts(N, q=1.1, t0=.09):
    return [round(t0 * q ** i, 6) for i in range(N)]


def _vts(base, N=None, q=1.1, t0=.09, cond=None):
    def f(o):
        so = o.solver_options
        n = N or so.N_horizon
        if N or q:
            ts = np.array(_ts(n, q, t0))
            so.N_horizon = n
            so.time_steps = ts
            so.tf = float(np.sum(ts))
            if so.cost_scaling is not None:     # terminal weight
                so.cost_scaling = np.append(ts, so.cost_scaling[-1])
            for a in ('sim_method_num_steps', 'sim_method_num_stages', 'sim_method_jac_reuse'):
                v = getattr(so, a)
                if isinstance(v, np.ndarray) and v.size > 1:
                    setattr(so, a, np.array([v[min(i, v.size - 1)] for i in range(n)]))
        if cond:
            so.qp_solver_cond_N = cond
        if N or cond:
            so._AcadosOcpOptions__qp_solver_cond_block_size = None
    f.base, f.ts, f.cond = base, bool(N or q), cond
    return f


VREG = {'erk_ts': _vts('erk'), 'erk_n5': _vts('erk', 5, .9, .15), 'erk_n11': _vts('erk', 11, 1.05, .06), 'erk_c2': _vts('erk', None, None, cond=2),
        'irkdae_ts': _vts('irkdae', None, .9, .22), 'irkdae_n7': _vts('irkdae', 7, 1.1, .1), 'irkdae_n3': _vts('irkdae', 3, 1.1, .2),
        'gnsf_n7': _vts('gnsf', 7, 1.1, .1), 'gnsf_ts': _vts('gnsf', None, 1.1, .12), 'gnsf_c3': _vts('gnsf', None, None, cond=3),
        'costint_ts': _vts('costint'), 'costint_n3': _vts('costint', 3, 1.2, .1),
        'rtiirk_ts': _vts('rtiirk', None, 1.2, .08), 'asrti1_ts': _vts('asrti1', None, .85, .15), 'ddp_ts': _vts('ddp', None, 1.1, .1), 'ddp_n4': _vts('ddp', 4, 1.1, .2),
        'mhe_ts': _vts('mhe'), 'bgp_ts': _vts('bgp', None, 1.1, .12), 'lq_n11': _vts('lq', 11, 1.1, .1), 'funnel_ts': _vts('funnel', None, 1.1, .1)}


# ------------------------------------------------------------- variants: the same problem, generated with other values and options
def _dopts(r, so):
    """(attribute of the description, name at run time, how to set it, value)"""
    nlp = so.nlp_solver_type
    lg = lambda a, b: float('%.5g' % 10 ** r.uniform(a, b))
    un = lambda a, b: float('%.5g' % r.uniform(a, b))
    O = []
    for t in ('stat', 'eq', 'ineq', 'comp'):
        O.append(('nlp_solver_tol_' + t, 'tol_' + t, 'py', lg(-7, -3)))
    for t in ('stat', 'eq', 'ineq', 'comp'):
        O.append(('qp_solver_tol_' + t, 'qp_tol_' + t, 'py', lg(-9, -5)))
    O.append(('levenberg_marquardt', 'levenberg_marquardt', 'py', lg(-4, -1)))
    O.append(('qp_solver_iter_max', 'qp_iter_max', 'ci', r.randint(6, 40)))
    O.append(('tau_min', 'tau_min', 'py', lg(-6, -3)))
    O.append(('qp_solver_mu0', 'qp_mu0', 'py', lg(-2, 3)))
    O.append(('qp_solver_warm_start', 'qp_warm_start', 'py', r.choice([0, 1, 1, 2])))
    if nlp != 'SQP_RTI':
        O.append(('nlp_solver_max_iter', 'max_iter', 'py', max(2, so.nlp_solver_max_iter - r.randint(1, 5))))
    if nlp == 'SQP':
        O += [('nlp_solver_warm_start_first_qp', 'warm_start_first_qp', 'py', True), ('nlp_solver_warm_start_first_qp_from_nlp', 'warm_start_first_qp_from_nlp', 'py', so.qp_solver.startswith('PARTIAL') and so.qp_solver_cond_N in (None, so.N_horizon) and r.random() < .5),
              ('eval_residual_at_max_iter', 'eval_residual_at_max_iter', 'cb', r.random() < .5), ('nlp_solver_tol_min_step_norm', 'tol_min_step_norm', 'cd', lg(-12, -4))]
    if so.globalization == 'FIXED_STEP' and nlp in ('SQP', 'SQP_RTI') and not so.with_anderson_acceleration:
        O.append(('globalization_fixed_step_length', 'globalization_fixed_step_length', 'py', un(.4, 1)))
    if so.globalization == 'MERIT_BACKTRACKING':
        O += [('globalization_alpha_min', 'globalization_alpha_min', 'py', lg(-4, -1)), ('globalization_alpha_reduction', 'globalization_alpha_reduction', 'py', un(.3, .8)),
              ('globalization_eps_sufficient_descent', 'globalization_eps_sufficient_descent', 'py', lg(-5, -1)),
              ('globalization_full_step_dual', 'globalization_full_step_dual', 'py', r.randint(0, 1))]
        if nlp == 'SQP':
            O.append(('globalization_line_search_use_sufficient_descent', 'globalization_line_search_use_sufficient_descent', 'py', r.randint(0, 1)))
    if so.globalization.startswith('FUNNEL'):
        O += [('globalization_alpha_min', 'globalization_alpha_min', 'py', lg(-6, -1)), ('globalization_alpha_reduction', 'globalization_alpha_reduction', 'py', un(.3, .8)),
              ('globalization_funnel_init_increase_factor', 'globalization_funnel_init_increase_factor', 'py', un(2, 20)), ('globalization_funnel_init_upper_bound', 'globalization_funnel_init_upper_bound', 'py', lg(-1, 1)),
              ('globalization_funnel_sufficient_decrease_factor', 'globalization_funnel_sufficient_decrease_factor', 'py', un(.5, .95)), ('globalization_funnel_kappa', 'globalization_funnel_kappa', 'py', un(.5, .95)),
              ('globalization_funnel_fraction_switching_condition', 'globalization_funnel_fraction_switching_condition', 'py', lg(-4, -1)),
              ('globalization_funnel_initial_penalty_parameter', 'globalization_funnel_initial_penalty_parameter', 'py', un(.1, 1)),
              ('globalization_eps_sufficient_descent', 'globalization_eps_sufficient_descent', 'py', lg(-7, -2))]
    if so.with_adaptive_levenberg_marquardt or nlp == 'DDP' or (nlp == 'SQP' and r.random() < .3):
        O += [('with_adaptive_levenberg_marquardt', 'with_adaptive_levenberg_marquardt', 'py', True), ('adaptive_levenberg_marquardt_lam', 'adaptive_levenberg_marquardt_lam', 'py', un(2, 9)),
              ('adaptive_levenberg_marquardt_mu_min', 'adaptive_levenberg_marquardt_mu_min', 'py', lg(-10, -4)), ('adaptive_levenberg_marquardt_mu0', 'adaptive_levenberg_marquardt_mu0', 'py', lg(-4, -1)),
              ('adaptive_levenberg_marquardt_obj_scalar', 'adaptive_levenberg_marquardt_obj_scalar', 'cd', un(.5, 4))]
    if so.regularize_method in ('PROJECT', 'MIRROR'):
        O.append(('reg_epsilon', 'reg_epsilon', 'cd', lg(-5, -1)))
        if r.random() < .6:
            O += [('reg_adaptive_eps', 'reg_adaptive_eps', 'cb', True), ('reg_max_cond_block', 'reg_max_cond_block', 'cd', lg(2, 5)), ('reg_min_epsilon', 'reg_min_epsilon', 'cd', lg(-7, -2))]
    elif so.regularize_method == 'CONVEXIFY':
        O.append(('reg_epsilon', 'reg_epsilon', 'cd', lg(-5, -1)))
    if so.nlp_qp_tol_strategy != 'FIXED_QP_TOL' and nlp == 'SQP':
        O += [('nlp_qp_tol_reduction_factor', 'nlp_qp_tol_reduction_factor', 'cd', lg(-3, -.5)), ('nlp_qp_tol_safety_factor', 'nlp_qp_tol_safety_factor', 'cd', un(.05, .9))] + \
             [('nlp_qp_tol_min_' + t, 'nlp_qp_tol_min_' + t, 'cd', lg(-10, -7)) for t in ('stat', 'eq', 'ineq', 'comp')]
    if so.with_anderson_acceleration:
        O.append(('anderson_activation_threshold', 'anderson_activation_threshold', 'py', lg(-2, 1)))
    if nlp == 'SQP_RTI' and so.as_rti_level in (0, 1, 2, 3):
        O.append(('as_rti_iter', 'as_rti_iter', 'ci', max(1, so.as_rti_iter - 1)))
    return [o for o in O if r.random() < .8 or 'tol_' in o[0]]


def _vdesc(base, tag='d1'):
    import random

    def f(o):
        r = random.Random(base + tag)
        mp = hasattr(o, 'mocp_opts')
        so = o.solver_options
        f.opts = _dopts(r, so)
        for a, _, _, v in f.opts:
            setattr(so, a, v)
        for i in range(len(o.cost) if mp else 1):
            c, J = (o.constraints[i], o.cost[i]) if mp else (o.constraints, o.cost)
            arr = lambda v: np.array(v.full() if hasattr(v, 'full') else v, float)
            rn = lambda v, sc: np.round(arr(v) + sc * np.array([r.uniform(-1, 1) for _ in range(arr(v).size)]).reshape(arr(v).shape), 4)
            x0 = c.has_x0 if hasattr(c, 'has_x0') else False
            for b in ('bx', 'bu', 'g', 'h', 'phi'):
                for sf in ('', '_0', '_e'):
                    ln, un = ('lb' + b[1] + sf, 'ub' + b[1] + sf) if b[0] == 'b' else ('l' + b + sf, 'u' + b + sf)
                    if not hasattr(c, ln) or getattr(c, ln) is None or not arr(getattr(c, ln)).size:
                        continue
                    lo, hi = arr(getattr(c, ln)), arr(getattr(c, un))
                    if b == 'bx' and sf == '_0' and x0:
                        lo = hi = rn(lo, .1)
                    else:
                        w = np.minimum(np.abs(hi - lo), 4.)
                        d = np.array([[r.uniform(-.15, .15), r.uniform(-.1, .2), r.random(), r.random()] for _ in range(lo.size)]).reshape(-1, 4)
                        lo, hi = np.where(d[:, 2] < .12, -1e10, np.round(lo + w * d[:, 0], 4)), np.where(d[:, 3] < .12, 1e10, np.round(hi + w * d[:, 1], 4))
                        hi = np.where(w == 0, lo, hi)
                    if b != 'phi':          # (lower bounds of convex-over-nonlinear constraints: not in the run-time interface)
                        setattr(c, ln, lo)
                    setattr(c, un, hi)
            for n in ('C', 'D', 'C_e'):
                v = getattr(c, n)
                if v is not None and arr(v).size:
                    setattr(c, n, rn(v, .1))
            for sf in ('', '_0', '_e'):
                ct = getattr(J, 'cost_type' + sf)
                if ct in ('LINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR'):
                    y = getattr(J, 'yref' + sf)
                    if y is not None and arr(y).size:
                        setattr(J, 'yref' + sf, rn(y, .2))
                    w = getattr(J, 'W' + sf)
                    if w is not None and arr(w).size and ct != 'CONVEX_OVER_NONLINEAR':
                        w = arr(w)
                        g = rn(np.zeros_like(w), .3) if r.random() < .6 else np.diag(np.diag(rn(np.zeros_like(w), .3)))
                        sd = np.sqrt(np.abs(np.diag(w)))
                        setattr(J, 'W' + sf, w * 1.25 + g @ g.T * np.outer(sd, sd))
                    if ct == 'LINEAR_LS':
                        for n in ('Vx' + sf, 'Vu' + sf):
                            v = getattr(J, n, None)
                            if v is not None and arr(v).size:
                                setattr(J, n, rn(v, .1))
                for n in ('zl', 'zu', 'Zl', 'Zu'):
                    v = getattr(J, n + sf, None)
                    if v is not None and arr(v).size:
                        setattr(J, n + sf, np.round(arr(v) * np.array([r.uniform(.4, 2) for _ in range(arr(v).size)]), 4))
            pv = o.parameter_values[i] if mp else o.parameter_values
            if arr(pv).size:
                v = rn(pv, .1)
                if mp:
                    o.parameter_values[i] = v
                else:
                    o.parameter_values = v
        if getattr(o, 'p_global_values', None) is not None and np.size(o.p_global_values):
            o.p_global_values = rn(o.p_global_values, .05)
        ts = so.time_steps if so.time_steps is not None else np.full(sum(o.N_list) if mp else so.N_horizon, so.tf / (sum(o.N_list) if mp else so.N_horizon))
        if r.random() < .5:
            so.cost_scaling = np.round(np.append(np.asarray(ts, float), 1.) * np.array([r.uniform(.5, 2) for _ in range(len(ts) + 1)]), 5)
    f.base, f.opts = base, []
    return f


_DB = ('erk', 'irkdae', 'merit', 'gnsf', 'rti', 'asrti1', 'asrti3', 'asrnls', 'asrh', 'lq', 'slackb', 'costint', 'costconl', 'anders', 'rtiirk', 'ddp', 'mbt', 'fnl', 'wfqp', 'disc', 'senss', 'bgp', 'funnel', 'mhe', 'mocp')
DREG = {b + '_d1': _vdesc(b) for b in _DB}
DREG.update({b + '_d2': _vdesc(b, 'd2') for b in ('erk', 'slackb', 'mbt', 'fnl', 'lq', 'mocp')})


def variant(name):
    v = VREG.get(name) or DREG[name]
    o = REG[v.base]()
    if hasattr(o, 'mocp_opts'):
        o.name = name
    else:
        o.model.name = name
    v(o)
    return o


def zoo_root():
    r = setup()
    own = [os.path.join(B.VERIF, 'dst', f) for f in ('zoo.py', 'tera.py', 'simcc.py')]
    return os.path.join(B.BUILD, 'zoo-' + B.hsh(iface_files() + own, os.path.basename(r)))


RTI = ('rti', 'rtiirk', 'sensr', 'asrti0', 'asrti1', 'asrti2', 'asrti3', 'asrnls', 'asrh', 'lq')
ASRTI = RTI[3:]
LOGGED = ('irkdae', 'merit', 'gnsf', 'slackb', 'costconl', 'fixhess', 'anders', 'ddp', 'ddpfix', 'wfqp', 'disc', 'bgp', 'funnel', 'lifted', 'mhe', 'mocp', 'mbt', 'fnl', 'senss')
INTCOST = ('costint', 'costconl')      # get_cost runs the integrators, which start from their last stage values
if os.environ.get('DST_ONLY'):       # development: restrict the zoo
    REG = {k: v for k, v in REG.items() if k in os.environ['DST_ONLY'].split(',')}


def ocp(name):
    setup()
    o = REG[name]() if name in REG else variant(name)
    base = name if name in REG else (VREG.get(name) or DREG[name]).base
    if base in LOGGED:
        so = o.solver_options
        so.store_iterates = so.log_primal_step_norm = so.log_dual_step_norm = True
        if so.nlp_solver_type in ('SQP', 'DDP') and base not in ('merit', 'ddpfix'):
            so.nlp_solver_ext_qp_res = 1
        if so.nlp_solver_type == 'SQP_WITH_FEASIBLE_QP':
            so.log_pi_norm_inf = so.log_lam_norm_inf = True
    _dirs(o, name)
    return o


def sim(name):
    setup()
    s = SIMREG[name]()
    _dirs(s, name)
    return s


def _dirs(o, name):
    d = os.path.join(zoo_root(), name)
    g = o.code_gen_options if hasattr(o, 'code_gen_options') else o.code_gen_opts
    g.code_export_directory = os.path.join(d, 'c')
    g.json_file = os.path.join(d, name + '.json')


def _gen(name):
    import warnings
    warnings.simplefilter('ignore')
    d = os.path.join(zoo_root(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    np.random.seed(1)     # the structure detection checks itself at random points
    from acados_template import AcadosOcpSolver, AcadosSimSolver
    if name in REG or name in VREG or name in DREG:
        o = ocp(name)
        AcadosOcpSolver.generate(o, verbose=False)
        for _ in range(2):
            try:
                AcadosOcpSolver.build(o.code_gen_options.code_export_directory, verbose=False)
            except RuntimeError as e:
                print(e)
            if _has_lib(o.code_gen_options.code_export_directory):
                return
        sys.exit('no shared library after make')
    else:
        s = sim(name)
        s.make_consistent() if hasattr(s, 'make_consistent') else None
        try:
            AcadosSimSolver(s, verbose=False)
        except RuntimeError:
            AcadosSimSolver(s, verbose=False)


def _has_lib(d):
    return any(f.endswith('.so') for f in os.listdir(d))


def prepare(names):
    """generate + compile, in parallel processes; cached"""
    root = zoo_root()
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(B.BUILD, 'zoolock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        olds = sorted((d for d in os.listdir(B.BUILD) if d.startswith('zoo-')), key=lambda d: os.path.getmtime(os.path.join(B.BUILD, d)))
        for d in olds[:-4]:
            if d != os.path.basename(root):
                shutil.rmtree(os.path.join(B.BUILD, d), ignore_errors=True)
        todo = [n for n in names if not os.path.exists(os.path.join(root, n, 'ok'))]
        procs = []
        while todo or procs:
            while todo and len(procs) < (os.cpu_count() or 8):
                n = todo.pop(0)
                log = os.path.join(root, n + '.log')
                procs.append((n, log, subprocess.Popen([sys.executable, '-m', 'dst.zoo', n], cwd=B.VERIF, stdout=open(log, 'w'), stderr=subprocess.STDOUT)))
            n, log, p = procs.pop(0)
            if p.wait():
                for q in procs:
                    q[2].kill()
                raise B.BuildError(f'zoo problem {n} failed to generate/compile:\n' + open(log).read()[-3000:])
            open(os.path.join(root, n, 'ok'), 'w').close()
    return root


if __name__ == '__main__':
    if sys.argv[1] == 'all':
        setup()
        t = time.time()
        print(prepare(list(REG) + list(SIMREG) + list(VREG) + list(DREG)), time.time() - t)
    else:
        _gen(sys.argv[1])
