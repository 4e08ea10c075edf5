"""Trainer objects with a discrete- or continuous-time system, a Lyapunov
network and a parameterized or fixed R."""
import contextlib
import io

import numpy as np
import torch

import gen
import lyap
import p14_discrete_certificates as p14
import p15_continuous_certificates as p15
import systems
import neural_network_lyapunov.continuous_time_lyapunov as ctl
import neural_network_lyapunov.lyapunov as lyapunov
import neural_network_lyapunov.r_options as ro
import neural_network_lyapunov.train_lyapunov_barrier as tlb

E = lyapunov.ConvergenceEps


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class Setup:
    pass


def roptions(T, n, fixed=False):
    """(options, matrix)"""
    k = T.choice(("fixed", "fixed", "spd", "svd", "free")) if not fixed \
        else "fixed"
    m = n + T.int(0, 1)
    if k == "fixed":
        R = lyap.matrix(T, n)
        R = np.eye(n) if R is None else R
        o = ro.FixedROptions(gen.t(R))
    elif k == "spd":
        o = ro.SearchRwithSPDOptions((m, n), .1)
        o.set_variable_value_directly(
            T.array((n * (n + 1) // 2 + (m - n) * n, ), -1., 1.))
    elif k == "svd":
        o = ro.SearchRwithSVDOptions((m, n), np.full(n, .2))
        o.set_variable_value(np.eye(m, n) * T.float(.5, 1.5))
    else:
        o = ro.SearchRfreeOptions((m, n))
        o.set_variable_value(np.eye(m, n) + .2 * T.array((m, n), -1., 1.))
    T.label("R=" + k)
    return o


def setup(T, continuous=None, loops=True, hybrid=True):
    S = Setup()
    S.cont = T.int(0, 3) == 0 if continuous is None else continuous
    if S.cont:
        S.D, S.c, S.code = p15.smooth_system(T)
        S.kind = E.ExpLower
        S.R = roptions(T, S.D.nx)
        T.label("continuous")
    else:
        S.D = p14.dynamics(T, loops)
        S.c = lyap.cert(T, S.D.lo, S.D.up, xeq=S.D.xeq, max_hidden=1)
        S.code = lyapunov.LyapunovDiscreteTimeHybridSystem(
            S.D.code, S.c.net.torch)
        S.code.network_bound_propagate_method = T.choice(systems.METHODS)
        S.kind = T.choice(list(E))
        S.R = roptions(T, S.D.nx)
        T.label("discrete")
        if not hybrid and S.D.hybrid:
            T.reject("hybrid")
    D, c = S.D, S.c
    c.R = c.Rm = S.R.R().detach().numpy().copy()
    if S.cont and S.kind != E.ExpLower:
        raise AssertionError
    S.eps = T.float(0., 1., special=(0., .1, 1.))
    S.eps2 = T.float(0., 1., special=(0., .1, .5))
    tr = S.tr = tlb.Trainer()
    tr.add_lyapunov(S.code, float(c.lam), c.xt, S.R)
    tr.lyapunov_positivity_epsilon = S.eps2
    tr.lyapunov_derivative_epsilon = S.eps
    tr.lyapunov_derivative_eps_type = S.kind
    T.note(kind=D.kind, nx=D.nx, widths=c.net.hidden, lam=c.lam, eps=S.eps,
           eps2=S.eps2)
    S.loop = getattr(D, "loop", None)
    return S


def pviol(S, x):
    return S.eps2 * S.c.l1(x) - S.c.V(x)


def dviol(S, x, tol=0.):
    """possible values of the decrease violation at x"""
    if S.cont:
        v = p15.combos(S.D, S.c, S.eps, x, tol)
        return [] if v is None else v
    ys = [y for y in (S.D.f(x, tol) if S.D.hybrid and tol else S.D.f(x))
          if p14.inbox(S.D, y, 1e-6)]
    return [p14.crit(S.c, S.eps, S.kind, x, y) for y in ys]


def programs(S):
    """fresh optima (positivity, derivative) at the current parameters; None
    for an infeasible program"""
    out = []
    r = S.code.lyapunov_positivity_as_milp(S.c.xt, S.c.lam, S.eps2,
                                           R=S.R.R())
    m = r[0].gurobi_model
    m.setParam("OutputFlag", 0)
    m.optimize()
    out.append(m.ObjVal if m.status == 2 else None)
    r = S.code.lyapunov_derivative_as_milp(S.c.xt, S.c.lam, S.eps, S.kind,
                                           R=S.R.R())
    m = r.milp.gurobi_model
    m.setParam("OutputFlag", 0)
    m.optimize()
    out.append(m.ObjVal if m.status == 2 else None)
    return out


def params(S):
    """all trainable tensors: network, controller, R"""
    out = list(S.c.net.torch.parameters())
    if S.loop is not None:
        out += list(S.D.code.controller_network.parameters())
    return out + list(S.R.variables())


def values(ps):
    return [p.detach().numpy().copy() for p in ps]


def successors(S, X):
    """torch tensor of successors (velocities), differentiable"""
    if len(X) == 0:
        return torch.empty((0, S.D.nx), dtype=gen.DT)
    return torch.stack([S.D.code.step_forward(gen.t(x)) for x in X])


def samples(T, S, k):
    """k generated states with one successor"""
    out = []
    for _ in range(k):
        x = gen.inside(T, S.D.lo, S.D.up)
        if S.D.hybrid and not (len(S.D.f(x, 1e-6)) ==
                               len(S.D.f(x, -1e-6)) == 1):
            continue
        out.append(x)
    return np.array(out).reshape(-1, S.D.nx)
