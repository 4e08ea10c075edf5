# TECHNIQUE: property-based testing (Hypothesis): generated networks, equilibria and boxes for every dynamics-model class; evaluation against a numpy model; the generated constraints and the programs they are added to are examined by an independent MILP oracle
# NOTE: second-order models are used with as many positions as velocities and the equilibrium velocity zero (documented).
"""P10 Learned dynamics models."""
import gurobipy
import numpy as np
import torch

import gen
import mipo
import prog
import systems
from pbt import case, to_np
from warm import modules, warm
import neural_network_lyapunov.gurobi_torch_mip as gtm

PROPERTY = "P10"
SCALE = 2
RULE = ("the network has a unit that changes sides on the box (for "
        "evaluation cases: the batch has two elements on different pieces)")
ASSUMPTIONS = ["gurobipy stand-in", "encoding tolerance 1e-5 (relative)"]
M = systems.M
G = gurobipy.GRB


def crossing(s, lo, up):
    return any(bool(np.any((np.concatenate(n.ia(lo, up)[0]) < 0) &
                           (np.concatenate(n.ia(lo, up)[1]) > 0)))
               for n in s.nets)


def netbox(s):
    if s.nu == 0:
        return s.lo, s.up
    idx = getattr(s, "idx", list(range(s.nx)))
    return (np.concatenate((s.lo[idx], s.ulo)),
            np.concatenate((s.up[idx], s.uup)))


def draw(T):
    if T.bool():
        s = systems.autonomous(T, systems.AUTO)
    else:
        s = systems.forward(T, systems.FORWARD)
    T.label(("auto-" if s.nu == 0 else "") + s.kind,
            "discrete" if s.discrete else "continuous")
    T.note(kind=s.kind, nx=s.nx, nu=s.nu, widths=s.nets[0].hidden)
    earlier(T, s)
    return s


def earlier(T, s):
    x, u = gen.t((s.lo + s.up) / 2), ()
    if s.nu:
        u = (gen.t((s.ulo + s.uup) / 2), )

    def program():
        mip = gtm.GurobiTorchMIP(gen.DT)
        v = [mip.addVars(k, lb=-G.INFINITY) for k in
             ((s.nx, s.nx, s.nu) if s.nu else (s.nx, s.nx))]
        s.code.add_dynamics_constraint(mip, *v, "s", "b")
    warm(T, modules(s.code), lambda: s.code.step_forward(x, *u),
         lambda: s.code.possible_dx(x, *u), program,
         lambda: s.code.mixed_integer_constraints())


def pair(T, s, outside=False):
    x = s.state(T)
    u = s.input(T) if s.nu else None
    return x, u


def args(x, u):
    return (gen.t(x), ) if u is None else (gen.t(x), gen.t(u))


@case(quick=300, thorough=12000, shards=2, weight=3, large=16)
def evaluate(T):
    s = draw(T)
    n = T.count(1, 4)
    pts = [pair(T, s) for _ in range(n)]
    if s.xeq is not None and T.bool():
        pts[0] = (s.xeq, s.ueq)
        T.label("equilibrium")
    k = set()
    for x, u in pts:
        a = args(x, u)
        y = s.code.step_forward(*a)
        T.check(tuple(y.shape) == (s.nx, ), "shape", got=tuple(y.shape))
        T.close(y, s.one(x, u), "next state", 1e-9, 1e-9, x=x, u=u)
        dx = s.code.possible_dx(*a)
        T.check(len(dx) == 1, "one possible next state")
        T.close(dx[0], s.one(x, u), "possible next state", 1e-9, 1e-9)
        T.close(a[0], x, "the state was changed", 0, 0)
        if u is not None:
            T.close(a[1], u, "the input was changed", 0, 0)
        z = x if u is None else np.concatenate(
            (x[getattr(s, "idx", list(range(s.nx)))], u))
        k.add(tuple((np.concatenate(s.nets[0].layers(z)[0]) > 0)))
    T.nontrivial(len(k) > 1 or T.labels.count("equilibrium") > 0)
    X = np.array([p[0] for p in pts])
    U = None if s.nu == 0 else np.array([p[1] for p in pts])
    Y = s.code.step_forward(*args(X, U))
    T.check(tuple(Y.shape) == (n, s.nx), "shape of a batch",
            got=tuple(Y.shape))
    T.close(Y, np.array([s.one(x, u) for x, u in pts]), "batch of next "
            "states", 1e-9, 1e-9, x=X, u=U)
    if s.xeq is not None:
        a = args(s.xeq, s.ueq)
        y = s.code.step_forward(*a)
        ref = s.xeq if s.discrete else np.zeros(s.nx)
        T.close(y, ref, "the equilibrium is not kept", 1e-12, 1e-12,
                network=[list(np.ravel(w)) for w in s.nets[0].Ws])
        T.close(s.code.x_equilibrium, s.xeq, "the equilibrium changed", 0, 0)
    T.close(s.code.x_lo_all, s.lo, "state bound", 0, 0)
    T.close(s.code.x_up_all, s.up, "state bound", 0, 0)
    s.unchanged(T)


@case(quick=250, thorough=8000, shards=4, weight=12, large=16)
def encoding(T):
    """mixed_integer_constraints()"""
    s = draw(T)
    if not hasattr(s.code, "mixed_integer_constraints"):
        T.reject("no such function")
    l, u = netbox(s)
    T.nontrivial(crossing(s, l, u))
    kw = {}
    ulo, uup = s.ulo, s.uup
    if s.nu and T.int(0, 2) == 0:
        mid = s.input(T)
        ulo = np.minimum(mid, gen.inside(T, s.ulo, s.uup))
        uup = np.maximum(mid, gen.inside(T, s.ulo, s.uup))
        kw = dict(u_lo=gen.t(ulo), u_up=gen.t(uup))
        T.label("tightened")
    c = s.code.mixed_integer_constraints(**kw)
    if T.bool():
        # a second generation gives the same (nothing accumulates)
        T.label("twice")
        a = mipo.snapshot(c)
        c = s.code.mixed_integer_constraints(**kw)
        mipo.same(T, a, mipo.snapshot(c), "constraints generated again")
    s.unchanged(T)
    st = mipo.Set(c)
    T.check(st.ni == s.nx + s.nu and st.no == s.nx, "sizes of the encoding",
            got=(st.ni, st.no))
    for k in range(3):
        x = s.state(T)
        v = gen.inside(T, ulo, uup) if s.nu else None
        if k == 0 and s.xeq is not None and (
                s.nu == 0 or (np.all(s.ueq >= ulo) and
                              np.all(s.ueq <= uup))):
            x, v = s.xeq, s.ueq
        z = x if v is None else np.concatenate((x, v))
        mipo.exact(T, st, z, s.one(x, v), "dynamics encoding", kind=s.kind)
    if T.bool():
        lo = s.lo if s.nu == 0 else np.concatenate((s.lo, ulo))
        up = s.up if s.nu == 0 else np.concatenate((s.up, uup))
        mipo.rejects(T, st, gen.outside(T, lo, up), "dynamics encoding")


@case(quick=250, thorough=8000, shards=4, weight=14, large=12)
def program(T):
    """add_dynamics_constraint(): the program admits exactly the next state;
    relaxed binaries do not cut it off; the returned bounds contain it."""
    s = draw(T)
    l, u = netbox(s)
    T.nontrivial(crossing(s, l, u))
    mip = gtm.GurobiTorchMILP(gen.DT)
    relax = T.int(0, 2) == 0
    vt = T.choice((G.CONTINUOUS, gtm.BINARYRELAX)) if relax else G.BINARY
    x_var = mip.addVars(s.nx, lb=-G.INFINITY)
    y_var = mip.addVars(s.nx, lb=-G.INFINITY)
    ulo, uup = s.ulo, s.uup
    if s.nu:
        u_var = mip.addVars(s.nu, lb=-G.INFINITY)
        kw = {}
        if T.int(0, 2) == 0:
            T.label("additional input bounds")
            mid = s.input(T)
            al = mid - T.array((s.nu, ), 0., 2.)
            au = mid + T.array((s.nu, ), 0., 2.)
            if T.int(0, 3):
                kw["additional_u_lo"] = gen.t(al)
                ulo = np.maximum(ulo, al)
            if T.int(0, 3):
                kw["additional_u_up"] = gen.t(au)
                uup = np.minimum(uup, au)
        ret = s.code.add_dynamics_constraint(
            mip, x_var, y_var, u_var, "s", "b", binary_var_type=vt, **kw)
    else:
        u_var = []
        ret = s.code.add_dynamics_constraint(mip, x_var, y_var, "s", "b",
                                             vt)
    s.unchanged(T)
    T.label("relaxed" if relax else "binary")
    P = prog.Prog(mip)
    nu = s.nets[0].num_units
    T.check(len(ret.binary) == nu and len(ret.slack) == nu,
            "number of slack and binary variables",
            got=(len(ret.slack), len(ret.binary)), expected=nu)
    B = None
    if ret.x_next_bound_prog is not None:
        T.label("bound program")
        B = prog.Prog(ret.x_next_bound_prog)
    if s.nu == 0:
        ia = s.method in (M.IA, M.IA_MIP)
        T.check((ret.x_next_lb_IA is not None) == ia and
                (ret.x_next_ub_IA is not None) == ia,
                "interval bounds for the methods that use them")
        T.check((B is not None) == (s.method != M.IA), "bound program for "
                "the methods that use one")
    for k in range(3):
        x = s.state(T)
        v = gen.inside(T, ulo, uup) if s.nu else None
        y = s.one(x, v)
        fix = [(x_var, x)] + ([(u_var, v)] if s.nu else [])
        if relax:
            P.covers(T, y_var, fix, y, "relaxed dynamics in a program")
        else:
            P.exact(T, y_var, fix, y, "dynamics in a program", kind=s.kind)
        if ret.x_next_lb_IA is not None:
            T.leq(to_np(ret.x_next_lb_IA), y, "lower bound of the next "
                  "state", 1e-6, x=x, u=v)
        if ret.x_next_ub_IA is not None:
            T.leq(y, to_np(ret.x_next_ub_IA), "upper bound of the next "
                  "state", 1e-6, x=x, u=v)
        if B is not None:
            B.covers(T, ret.x_next_bound_var, [(ret.x_var, x)], y,
                     "bound program")
        z = x if v is None else np.concatenate(
            (x[getattr(s, "idx", list(range(s.nx)))], v))
        pre, post, out = s.nets[0].layers(z)
        for lo_, val, up_, what in (
                (ret.relu_input_lo, np.concatenate(pre), ret.relu_input_up,
                 "pre-activation bound"),
                (ret.relu_output_lo, np.concatenate(post),
                 ret.relu_output_up, "post-activation bound"),
                (ret.nn_output_lo, out, ret.nn_output_up, "network output "
                 "bound"), (ret.nn_input_lo, z, ret.nn_input_up,
                            "network input bound")):
            if lo_ is not None:
                T.leq(to_np(lo_), val, what, 1e-6)
            if up_ is not None:
                T.leq(val, to_np(up_), what, 1e-6)
    if T.bool() and not relax:
        fx = [(x_var, gen.outside(T, s.lo, s.up))]
        if s.kind == "residue":
            # only the states that enter the network are bounded
            return
        if P.opt(np.zeros(P.n), fx)[0] != "infeasible":
            T.fail("a state outside the box is admitted", x=fx[0][1])


@case(quick=120, thorough=3000, shards=2, weight=14)
def bound_program(T):
    """the programs offered for bounding the next state give valid and, with
    binaries, exact bounds."""
    s = systems.autonomous(T, systems.AUTO, nx=T.int(1, 2),
                           method=T.choice((M.LP, M.MIP, M.IA_MIP)))
    T.nontrivial(crossing(s, s.lo, s.up))
    T.label(s.kind, s.method.name)
    mip = gtm.GurobiTorchMILP(gen.DT)
    x_var = mip.addVars(s.nx, lb=-G.INFINITY)
    y_var = mip.addVars(s.nx, lb=-G.INFINITY)
    ret = s.code.add_dynamics_constraint(mip, x_var, y_var, "s", "b",
                                         G.BINARY)
    P = prog.Prog(mip)
    B = prog.Prog(ret.x_next_bound_prog)
    w = np.resize(mipo.W, s.nx)
    e1, lo, up, x1, x2 = P.range(T, y_var, [], "program")
    e2, blo, bup, b1, b2 = B.range(T, ret.x_next_bound_var, [],
                                   "bound program")
    for p, vx, vy, z in ((P, x_var, y_var, x1), (P, x_var, y_var, x2)):
        T.close(w @ p.values(z, vy), w @ s.one(p.values(z, vx)),
                "extreme next state is not attained", 1e-4, 1e-4)
    tol = 1e-5 * (1 + abs(lo) + abs(up))
    T.check(blo <= lo + tol and bup >= up - tol, "the bound program cuts "
            "next states off", exact=(lo, up), got=(blo, bup))
    if s.method != M.LP:
        T.check(blo >= lo - tol and bup <= up + tol, "the bound program "
                "with binaries is not exact", exact=(lo, up), got=(blo, bup))
    for x in gen.cloud(T, s.lo, s.up, 20):
        v = w @ s.one(x)
        T.check(lo - tol <= v <= up + tol, "a next state is outside the "
                "program's range", x=x, value=v, range=(lo, up))
