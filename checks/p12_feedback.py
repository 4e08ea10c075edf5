# TECHNIQUE: property-based testing (Hypothesis): generated forward systems, network and linear controllers, limits and bound methods; evaluation against a numpy model; closed-loop programs (also strengthened and relaxed ones) examined by an independent MILP oracle
# NOTE: input limits are generated inside the forward system's input box (outside it the forward encoding is not defined).
"""P12 Closed-loop systems."""
import gurobipy
import numpy as np
import torch

import closed
import gen
import prog
from pbt import case, to_np
from warm import modules, warm
import neural_network_lyapunov.dynamic_system as dynamic_system
import neural_network_lyapunov.gurobi_torch_mip as gtm

PROPERTY = "P12"
SCALE = 3
RULE = ("the controller is saturated in a coordinate at one of the states, "
        "or has a unit that changes sides on the box")
ASSUMPTIONS = ["gurobipy stand-in", "encoding tolerance 1e-5 (relative)"]
G = gurobipy.GRB


def draw(T, **kw):
    L = closed.loop(T, **kw)
    T.label("forward=" + L.fwd.kind,
            "linear controller" if L.net is None else "network controller",
            "method=" + L.method.name)
    T.note(forward=L.fwd.kind, nx=L.nx, nu=L.nu, limits=[
        list(np.round(L.limits[0], 4)), list(np.round(L.limits[1], 4))],
        widths=None if L.net is None else L.net.hidden)
    if np.any(np.isinf(L.limits[0])):
        T.label("unlimited input")
    c = False
    if L.net is not None:
        pl, pu, _, _ = L.net.ia(L.lo, L.up)
        c = bool(np.any((np.concatenate(pl) < 0) & (np.concatenate(pu) > 0)))
    T.nontrivial(c)
    earlier(T, L)
    return L


def earlier(T, L):
    x = gen.t((L.lo + L.up) / 2)

    def program():
        mip = gtm.GurobiTorchMILP(gen.DT)
        L.code.add_dynamics_mip_constraint(
            mip, mip.addVars(L.nx, lb=-G.INFINITY),
            mip.addVars(L.nx, lb=-G.INFINITY), "u", "a", "b", "c", "d")
    warm(T, modules(L.code), lambda: L.code.compute_u(x),
         lambda: L.code.step_forward(x), program)


def saturated(L, x):
    v = L.pre(x)
    return bool(np.any(v < L.limits[0]) or np.any(v > L.limits[1]))


@case(quick=300, thorough=12000, shards=2, weight=4, large=16)
def control(T):
    L = draw(T)
    n = T.count(1, 4)
    X = []
    for _ in range(n):
        x = gen.inside(T, L.lo, L.up)
        if T.int(0, 4) == 0:
            # the controller is defined everywhere
            x = x * 10.
        X.append(x)
    for x in X:
        u = L.code.compute_u(gen.t(x))
        T.check(tuple(u.shape) == (L.nu, ), "shape", got=tuple(u.shape))
        T.close(u, L.u(x), "control", 1e-9, 1e-9, x=x)
        u = to_np(u)
        T.check(np.all(u >= L.limits[0]) and np.all(u <= L.limits[1]),
                "control outside the limits", x=x, u=u, limits=L.limits)
        if saturated(L, x):
            T.nontrivial(True)
            T.label("saturated")
    T.close(L.code.compute_u(gen.t(L.xeq)), L.ueq, "control at the "
            "equilibrium", 1e-12, 1e-12)
    U = L.code.compute_u(gen.t(np.array(X)))
    T.check(tuple(U.shape) == (n, L.nu), "shape of a batch",
            got=tuple(U.shape))
    T.close(U, np.array([L.u(x) for x in X]), "batch of controls", 1e-9,
            1e-9)
    L.unchanged(T)


@case(quick=200, thorough=8000, shards=2, weight=5, large=12)
def stepping(T):
    L = draw(T)
    n = T.count(1, 3)
    X = [gen.inside(T, L.lo, L.up) for _ in range(n)]
    ys = []
    for x in X:
        sure, maybe = L.f(x), L.f(x, 1e-9)
        if len(sure) != len(maybe) or not sure:
            T.reject("on a border up to rounding")
        T.nontrivial(T._nontrivial or saturated(L, x))
        y = L.code.step_forward(gen.t(x))
        T.close(y, sure[0], "next state", 1e-8, 1e-8, x=x)
        dx = L.code.possible_dx(gen.t(x))
        T.check(len(dx) == len(sure), "number of possible next states",
                got=len(dx), expected=len(sure))
        for d, r in zip(dx, sure):
            T.close(d, r, "possible next state", 1e-8, 1e-8)
        ys.append(sure[0])
    Y = L.code.step_forward(gen.t(np.array(X)))
    T.close(Y, np.array(ys), "batch of next states", 1e-8, 1e-8)
    if L.fwd.xeq is not None:
        y = L.code.step_forward(gen.t(L.xeq))
        T.close(y, L.xeq if L.discrete else np.zeros(L.nx),
                "the equilibrium is not kept", 1e-12, 1e-12)
    T.close(L.code.x_lo_all, L.lo, "state bound", 1e-7, 0)
    T.close(L.code.x_up_all, L.up, "state bound", 1e-7, 0)
    vs = L.code.controller_variables()
    T.check(len(vs) == len(list(L.module.parameters())) and
            all(a is b for a, b in zip(vs, L.module.parameters())),
            "controller_variables")


def build(T, L, mip, x_var, y_var, vt):
    if T.bool():
        ret = L.code.add_dynamics_mip_constraint(
            mip, x_var, y_var, "u", "fs", "fb", "cs", "cb", vt)
        u, fr, cr = ret
    else:
        r = dynamic_system._add_system_constraint(
            L.code, mip, x_var, y_var, binary_var_type=vt) \
            if hasattr(dynamic_system, "_add_system_constraint") else None
        if r is None:
            T.reject("no such function")
        fr, cr = r.forward_dynamics_return, r.controller_mip_cnstr_return
        nf, nc = len(fr.slack), len(cr.slack)
        T.check(len(r.slack) == L.nu + nf + nc and
                len(r.binary) == len(fr.binary) + len(cr.binary),
                "the returned variables", got=(len(r.slack), len(r.binary)))
        u = r.slack[:L.nu]
    return u, fr, cr


def states(T, L, n):
    out = []
    for _ in range(n):
        x = gen.inside(T, L.lo, L.up)
        if len(L.f(x, 1e-5)) != len(L.f(x)) or not L.f(x):
            continue
        out.append(x)
    if T.int(0, 2) == 0 and np.all(L.xeq >= L.lo) and \
            np.all(L.xeq <= L.up) and len(L.f(L.xeq, 1e-5)) == len(L.f(L.xeq)) and \
            L.f(L.xeq):
        out.append(L.xeq)
    return out


def exact(T, P, L, x_var, u_var, y_var, x, what):
    fix = [(x_var, x)]
    P.exact(T, u_var, fix, L.u(x), what + ": control", x=x)
    fs = L.f(x)
    w, lo, up, x1, x2 = P.range(T, y_var, fix, what, x=x)
    v = [w @ y for y in fs]
    sc = 1e-5 * (1 + max(np.abs(y).max() for y in fs))
    T.check(abs(lo - min(v)) <= sc and abs(up - max(v)) <= sc,
            what + ": next states admitted", x=x, expected=fs,
            got=(P.values(x1, y_var), P.values(x2, y_var)))


@case(quick=200, thorough=6000, shards=4, weight=20, large=12)
def program(T):
    L = draw(T)
    mip = gtm.GurobiTorchMILP(gen.DT)
    x_var = mip.addVars(L.nx, lb=-G.INFINITY)
    y_var = mip.addVars(L.nx, lb=-G.INFINITY)
    relax = T.int(0, 2) == 0
    vt = gtm.BINARYRELAX if relax and T.bool() else \
        G.CONTINUOUS if relax else G.BINARY
    u_var, fr, cr = build(T, L, mip, x_var, y_var, vt)
    L.unchanged(T)
    P = prog.Prog(mip)
    T.label("relaxed" if relax else "binary")
    B = None
    if L.method != closed.M.IA:
        B = prog.Prog(cr.control_bound_prog.prog)
    for x in states(T, L, 3):
        u = L.u(x)
        T.nontrivial(T._nontrivial or saturated(L, x))
        fix = [(x_var, x)]
        if relax:
            P.covers(T, u_var, fix, u, "relaxed closed loop: control")
            P.covers(T, y_var, fix, L.f(x)[0], "relaxed closed loop: next "
                     "state")
        else:
            exact(T, P, L, x_var, u_var, y_var, x, "closed loop")
        T.leq(to_np(cr.u_lower_bound), u, "lower bound of the control",
              1e-6, x=x)
        T.leq(u, to_np(cr.u_upper_bound), "upper bound of the control",
              1e-6, x=x)
        if L.net is not None:
            pre, post, _ = L.net.layers(x)
            for a, v, b, what in (
                    (cr.relu_input_lo, pre, cr.relu_input_up,
                     "pre-activation bound of the controller"),
                    (cr.relu_output_lo, post, cr.relu_output_up,
                     "post-activation bound of the controller")):
                v = np.concatenate(v)
                T.leq(to_np(a), v, what, 1e-6)
                T.leq(v, to_np(b), what, 1e-6)
        if B is not None:
            B.covers(T, cr.control_bound_prog.u_var,
                     [(cr.control_bound_prog.x_var, x)], u,
                     "program for the control's bounds")
    T.check(np.all(to_np(cr.u_lower_bound) >= L.limits[0] - 1e-9) and
            np.all(to_np(cr.u_upper_bound) <= L.limits[1] + 1e-9),
            "the bounds of the control exceed its limits",
            got=(to_np(cr.u_lower_bound), to_np(cr.u_upper_bound)))


@case(quick=120, thorough=4000, shards=4, weight=20)
def strengthened(T):
    """cuts added at the optimum of a relaxation remove no integer point"""
    L = draw(T, linear=False, method=closed.M.IA)
    mip = gtm.GurobiTorchMILP(gen.DT)
    x_var = mip.addVars(L.nx, lb=-G.INFINITY)
    y_var = mip.addVars(L.nx, lb=-G.INFINITY)
    relax = T.int(0, 3) > 0
    u_var, fr, cr = build(T, L, mip, x_var, y_var,
                          gtm.BINARYRELAX if relax else G.BINARY)
    n0 = prog.Prog(mip)
    rows = len(n0.rows[0])
    for _ in range(T.int(1, 2)):
        mip.setObjective([gen.t(T.array((L.nx, ))), gen.t(T.array(
            (L.nx, ))), gen.t(T.array((L.nu, )))], [x_var, y_var, u_var],
            0., G.MAXIMIZE if T.bool() else G.MINIMIZE)
        mip.gurobi_model.setParam(G.Param.OutputFlag, False)
        mip.gurobi_model.optimize()
        T.check(mip.gurobi_model.status == G.Status.OPTIMAL, "status",
                got=mip.gurobi_model.status)
        L.code.strengthen_dynamics_constraint(mip, fr, cr)
    L.unchanged(T)
    P = prog.Prog(mip)
    if len(P.rows[0]) > rows:
        T.label("cuts")
    T.nontrivial(len(P.rows[0]) > rows)
    P.integ = np.zeros(P.n, bool)
    for v in mip.zeta:
        P.integ[v.index] = True
    for x in states(T, L, 4):
        exact(T, P, L, x_var, u_var, y_var, x, "strengthened closed loop")


@case(quick=80, thorough=2500, shards=4, weight=30)
def reach(T):
    """over the whole box the program's extreme next states bound those of
    all sampled states and are attained"""
    L = draw(T)
    mip = gtm.GurobiTorchMILP(gen.DT)
    x_var = mip.addVars(L.nx, lb=-G.INFINITY)
    y_var = mip.addVars(L.nx, lb=-G.INFINITY)
    u_var, fr, cr = build(T, L, mip, x_var, y_var, G.BINARY)
    P = prog.Prog(mip)
    box = [(x_var, L.lo, L.up)]
    for v, a, b in zip(x_var, L.lo, L.up):
        # (a residue network bounds only the states it uses)
        P.lb[v.index] = max(P.lb[v.index], a)
        P.ub[v.index] = min(P.ub[v.index], b)
    w, lo, up, x1, x2 = P.range(T, y_var, [], "closed loop on the box")
    tol = 1e-5 * (1 + abs(lo) + abs(up))
    for x in gen.cloud(T, L.lo, L.up, 30):
        for y in L.f(x):
            T.check(lo - tol <= w @ y <= up + tol, "a next state is outside "
                    "the program's range", x=x, value=w @ y, range=(lo, up))
    for z in (x1, x2):
        x = P.values(z, x_var)
        T.close(P.values(z, u_var), L.u(x), "control at the extreme state",
                1e-4, 1e-4)
        y = P.values(z, y_var)
        T.check(any(np.allclose(y, r, 1e-4, 1e-4)
                    for r in L.f(x, 1e-5)), "the extreme next state is not "
                "attained", x=x, got=y, expected=L.f(x, 1e-5))
