# TECHNIQUE: property-based testing (Hypothesis): generated discrete-time systems, Lyapunov networks, boxes and enlargements; the computed level is compared with sampled escaping states and with an independent face-by-face minimization
# NOTE: soundness is decided on sampled states (200 per case) and, exactly, by minimizing the Lyapunov value over each of the 2n exit regions separately.
"""P16 Region of attraction."""
import gurobipy
import numpy as np
import torch

import gen
import lyap
import prog
import systems
from pbt import case, to_np
import p14_discrete_certificates as p14
import neural_network_lyapunov.dynamic_system as dynamic_system
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.lyapunov as lyapunov

CASES = []
PROPERTY = "P16"
SCALE = 3
RULE = ("a sampled state's successor leaves the box inside the larger box "
        "(boundary cases: the Lyapunov value varies on the boundary)")
ASSUMPTIONS = ["gurobipy stand-in", "tolerance 1e-5 (relative)"]
G = gurobipy.GRB


def larger(T, D):
    n = D.nx
    k = T.int(0, 3)
    if k == 0:
        return D.lo - 10., D.up + 10.
    return (D.lo - T.array((n, ), .05, 2.), D.up + T.array((n, ), .05, 2.))


def base(T, D, c, code):
    """min V(x) with x_next = f(x); no restriction on x_next"""
    mip = gtm.GurobiTorchMILP(gen.DT)
    x = mip.addVars(D.nx, lb=-G.INFINITY, vtype=G.CONTINUOUS, name="x")
    y = mip.addVars(D.nx, lb=-G.INFINITY, vtype=G.CONTINUOUS, name="y")
    if not hasattr(dynamic_system, "_add_system_constraint"):
        T.reject("renamed")
    dynamic_system._add_system_constraint(D.code, mip, x, y)
    z, beta, a, b, _ = code.add_lyap_relu_output_constraint(mip, x)
    s, _ = code.add_state_error_l1_constraint(mip, c.xt, x, R=c.Rt)
    P = prog.Prog(mip)
    obj = P.vec([(z, to_np(a)), (s, np.full(len(s), c.lam))])
    return P, x, y, obj, float(b) - c.y0


def minimum(P, obj, k, bounds):
    """bounds: list of (vars, lo, up)"""
    lb, ub = P.lb.copy(), P.ub.copy()
    try:
        for vs, lo, up in bounds:
            for v, l, u in zip(vs, lo, up):
                P.lb[v.index] = max(P.lb[v.index], l)
                P.ub[v.index] = min(P.ub[v.index], u)
                if P.lb[v.index] > P.ub[v.index]:
                    return np.inf
        s, o, _ = P.opt(obj)
        return o + k if s == "optimal" else np.inf
    finally:
        P.lb, P.ub = lb, ub


@case(quick=150, thorough=5000, shards=6, weight=20)
def level(T):
    D, c, code, eps = p14.draw(T)
    lo, up = larger(T, D)
    Vub = T.choice((None, np.inf, "value", "value", 0.))
    if Vub == "value":
        Vub = float(c.V(gen.inside(T, D.lo, D.up)))
    as_np = T.bool()
    R = c.Rt
    a, b = (lo.copy(), up.copy()) if as_np else (gen.t(lo), gen.t(up))
    rho = float(code.compute_region_of_attraction(c.lam, R, c.xt, Vub, a, b))
    T.close(a, lo, "an argument was changed", 0, 0)
    T.close(b, up, "an argument was changed", 0, 0)
    T.check(Vub is None or rho <= Vub, "larger than the given upper bound",
            got=rho, bound=Vub)
    # sampled states that leave the box inside the larger one
    tol = 1e-5 * (1 + abs(rho)) if np.isfinite(rho) else 0.
    esc = 0
    for x in gen.cloud(T, D.lo, D.up, 200):
        for y in D.f(x):
            if not p14.inbox(D, y, 1e-6) and np.all(y >= lo) and \
                    np.all(y <= up):
                esc += 1
                out = np.sum((y < D.lo - 1e-6) | (y > D.up + 1e-6))
                T.label("leaves_in_one" if out == 1 else
                        "leaves_in_several")
                T.check(rho <= c.V(x) + tol, "a state of the box with a "
                        "Lyapunov value below the computed level leaves the "
                        "box", x=x, V=c.V(x), level=rho, successor=y,
                        box=(D.lo, D.up), larger=(lo, up))
    T.nontrivial(esc > 0)
    P, x, y, obj, k = base(T, D, c, code)
    o1 = o2 = np.inf
    I = np.full(D.nx, np.inf)
    for i in range(D.nx):
        for side in (0, 1):
            l, u = lo.copy(), up.copy()
            if side:
                l[i] = D.up[i]
            else:
                u[i] = D.lo[i]
            o1 = min(o1, minimum(P, obj, k, [(y, l, u)]))
            l, u = -I, I.copy()
            l[i] = u[i] = (D.up if side else D.lo)[i]
            o2 = min(o2, minimum(P, obj, k, [(x, l, u), (y, D.lo, D.up)]))
    T.label(f"obj1={np.isfinite(o1)}", f"obj2={np.isfinite(o2)}")
    exp = min(o1, o2, np.inf if Vub is None else Vub)
    if np.isinf(exp) or np.isinf(rho):
        T.check(exp == rho, "region-of-attraction level", got=rho,
                expected=exp, obj1=o1, obj2=o2)
        return
    T.check(abs(rho - exp) <= 1e-5 * (1 + abs(exp)), "region-of-attraction "
            "level", got=rho, expected=exp, obj1=o1, obj2=o2, bound=Vub)
    c.net.unchanged(T, "the Lyapunov network")
    D.unchanged(T)


def boundary_points(T, lo, up, n):
    X = gen.cloud(T, lo, up, n)
    r = T.rng()
    for x in X:
        i = r.integers(len(lo))
        x[i] = (lo, up)[r.integers(2)][i]
    return X


@case(quick=200, thorough=6000, shards=4, weight=8)
def boundary(T):
    """the program for the smallest value on the boundary"""
    nx = T.int(1, 3)
    s = systems.autonomous(T, ("relu", ), nx=nx, max_hidden=1, max_width=1)
    c = lyap.cert(T, s.lo, s.up, max_width=4)
    code = lyapunov.LyapunovDiscreteTimeHybridSystem(s.code, c.net.torch)
    code.network_bound_propagate_method = T.choice(systems.METHODS)
    if not hasattr(code, "_construct_milp_for_roa_boundary"):
        T.reject("renamed")
    R = np.eye(nx) if c.R is None else c.R
    milp, x = code._construct_milp_for_roa_boundary(
        c.lam, None if c.R is None and T.bool() else gen.t(R), c.xt)
    milp.gurobi_model.setParam(G.Param.OutputFlag, 0)
    milp.gurobi_model.optimize()
    T.check(milp.gurobi_model.status == G.Status.OPTIMAL, "boundary program "
            "has no solution", status=milp.gurobi_model.status)
    rho = milp.gurobi_model.ObjVal
    xs = np.array([v.x for v in x])
    d = min(np.abs(xs - s.lo).min(), np.abs(xs - s.up).min())
    T.check(d < 1e-5 and np.all(xs >= s.lo - 1e-6) and
            np.all(xs <= s.up + 1e-6), "the reported state is not on the "
            "boundary", x=xs, lo=s.lo, up=s.up)
    T.check(abs(c.V(xs) - rho) <= 1e-4 * (1 + abs(rho)), "the minimum is "
            "not attained at the reported state", x=xs, V=c.V(xs),
            minimum=rho)
    X = boundary_points(T, s.lo, s.up, 120)
    V = np.array([c.V(p) for p in X])
    T.nontrivial(V.max() > V.min() + 1e-6)
    T.check(V.min() >= rho - 1e-5 * (1 + abs(rho)), "a boundary state has a "
            "smaller value", x=X[V.argmin()], V=V.min(), minimum=rho)
    # every boundary state is admitted with its value, interior ones are not
    P = prog.Prog(milp)
    p = X[T.int(0, len(X) - 1)]
    o = p14.fixed(T, P, [(x, p)], "boundary program", x=p)
    T.check(o is not None and p14.near(o[0], c.V(p)) and
            p14.near(o[1], c.V(p)), "the boundary program at a boundary "
            "state", x=p, got=o, expected=c.V(p))
    q = s.lo + (.05 + .9 * T.array((nx, ), 0., 1.)) * (s.up - s.lo)
    T.check(p14.fixed(T, P, [(x, q)], "boundary program") is None,
            "the boundary program admits an interior state", x=q)
    c.net.unchanged(T, "the Lyapunov network")
