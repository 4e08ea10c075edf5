# TECHNIQUE: property-based testing (Hypothesis): generated Lyapunov networks, equilibria, norm weights and matrices, states on and off kinks; values and gradient sets against a numpy reference; the encoding examined by an independent MILP oracle
# NOTE: gradients are compared as sets at states with up to 6 simultaneous kinks (exact zeros from dyadic weights) and with nonzero tolerances.
"""P13 Lyapunov function value, encoding and gradient."""
import itertools

import gurobipy
import numpy as np
import torch

import gen
import lyap
import prog
import systems
from pbt import case, to_np
import warm
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.lyapunov as lyapunov
import neural_network_lyapunov.continuous_time_lyapunov as ctl
import neural_network_lyapunov.utils as utils

PROPERTY = "P13"
RULE = ("the states lie on different affine pieces, or on a kink (for "
        "helper cases: at least one ambiguous entry)")
ASSUMPTIONS = ["gurobipy stand-in", "encoding tolerance 1e-5 (relative)"]
M = systems.M
G = gurobipy.GRB


def draw(T, R="draw", nx=None, xeq=None, box=None):
    s = systems.autonomous(T, ("relu", "hybrid"), nx=nx, box=box,
                           max_hidden=1, max_width=2)
    c = lyap.cert(T, s.lo, s.up, xeq=xeq, R=R)
    kinds = [lyapunov.LyapunovHybridLinearSystem,
             lyapunov.LyapunovDiscreteTimeHybridSystem]
    if s.kind == "hybrid" or True:
        kinds.append(ctl.LyapunovContinuousTimeHybridSystem)
    cls = T.choice(kinds)
    code = cls(s.code, c.net.torch)
    T.label(s.kind, cls.__name__, "R" if c.R is not None else "noR")
    T.note(widths=c.net.hidden, nx=s.nx, lam=c.lam)
    warm.certificate(T, code, c, s)
    return s, c, code


def call(code, c, x):
    return code.lyapunov_value(x, c.xt, c.lam, R=c.Rt)


def pattern(c, x):
    return (tuple(np.concatenate(c.net.layers(x)[0]) > 0),
            tuple(np.sign(c.Rm @ (x - c.xeq))))


@case(quick=300, thorough=10000, shards=2, weight=2, large=16)
def value(T):
    s, c, code = draw(T)
    n = T.count(1, 5) if T.large else T.choice((1, 1, 2, 3, 5))
    X = np.array([gen.inside(T, s.lo, s.up) for _ in range(n)])
    if T.int(0, 3) == 0:
        X[T.int(0, n - 1)] = c.xeq
    if T.int(0, 4) == 0:
        X[0] = gen.outside(T, s.lo, s.up)
    ref = np.array([c.V(x) for x in X])
    T.nontrivial(len({pattern(c, x) for x in X}) > 1 or n == 1)
    T.label(f"n={n}")
    for x, v in zip(X, ref):
        a = gen.t(x)
        y = call(code, c, a)
        T.check(y.numel() == 1, "one value", shape=tuple(y.shape))
        T.close(y.reshape(()), v, "Lyapunov value", 1e-9, 1e-9, x=x,
                xeq=c.xeq, R=c.Rm, lam=c.lam)
        T.close(a, x, "the state was changed", 0, 0)
    if n > 1 or s.nx > 0:
        Y = call(code, c, gen.t(X))
        T.check(Y.numel() == n, "number of values of a batch",
                shape=tuple(Y.shape))
        T.close(Y.reshape((-1, )), ref, "Lyapunov values of a batch", 1e-9,
                1e-9, X=X, xeq=c.xeq)
    T.close(call(code, c, c.xt).reshape(()), 0., "value at the equilibrium",
            1e-12)
    c.net.unchanged(T, "the Lyapunov network")


@case(quick=200, thorough=6000, shards=4, weight=8, large=12)
def encoding(T):
    s, c, code = draw(T)
    code.network_bound_propagate_method = T.choice(systems.METHODS)
    T.label(str(code.network_bound_propagate_method))
    mip = gtm.GurobiTorchMILP(gen.DT)
    x = mip.addVars(s.nx, lb=-G.INFINITY, vtype=G.CONTINUOUS, name="x")
    whole = hasattr(code, "_lyapunov_value_as_milp") and T.bool()
    if whole:
        co, va, k, sl = code._lyapunov_value_as_milp(mip, x, c.xt, c.lam,
                                                     c.Rt)
        terms = list(zip(co, va))
        k = float(k)
        T.label("value_as_milp")
    else:
        z, beta, a, b, _ = code.add_lyap_relu_output_constraint(mip, x)
        sl, al = code.add_state_error_l1_constraint(mip, c.xt, x, R=c.Rt)
        terms = [(a, z), (c.lam * np.ones(len(sl)), sl)]
        k = float(b) - c.y0
    T.check(len(sl) == len(c.Rm), "number of norm terms", got=len(sl))
    y = mip.addVars(1, lb=-G.INFINITY, vtype=G.CONTINUOUS, name="V")
    e = gurobipy.LinExpr()
    for co, va in terms:
        for q, v in zip(np.ravel(to_np(co)), va):
            e += q * v
    mip.gurobi_model.addLConstr(e - y[0] == -k)
    P = prog.Prog(mip)
    pats = set()
    for i in range(3):
        p = c.xeq if T.int(0, 5) == 0 else gen.inside(T, s.lo, s.up)
        P.exact(T, y, [(x, p)], [c.V(p)], "encoding of the Lyapunov value",
                x=p, xeq=c.xeq, R=c.Rm, lam=c.lam)
        P.exact(T, sl, [(x, p)], np.abs(c.Rm @ (p - c.xeq)),
                "encoding of |R(x-x*)|", x=p)
        pats.add(pattern(c, p))
    T.nontrivial(len(pats) > 1)
    p = gen.outside(T, s.lo, s.up)
    T.check(P.opt(np.zeros(P.n), [(x, p)])[0] == "infeasible",
            "the encoding admits a state off the box", x=p, lo=s.lo, up=s.up)
    c.net.unchanged(T, "the Lyapunov network")


@case(quick=200, thorough=5000, shards=2, weight=4)
def norm_binaries(T):
    """meaning of the norm's binary variables"""
    s, c, code = draw(T)
    if T.int(0, 5) == 0:
        bad = gen.outside(T, s.lo, s.up)
        mip = gtm.GurobiTorchMILP(gen.DT)
        x = mip.addVars(s.nx, lb=-G.INFINITY, vtype=G.CONTINUOUS)
        T.check(T.call_raises(lambda: code.add_state_error_l1_constraint(
            mip, gen.t(bad), x, R=c.Rt)),
            "an equilibrium off the box is accepted", x=bad)
        return
    three = T.bool()
    mip = gtm.GurobiTorchMILP(gen.DT)
    x = mip.addVars(s.nx, lb=gen.t(s.lo), ub=gen.t(s.up),
                    vtype=G.CONTINUOUS)
    sl, al = code.add_state_error_l1_constraint(
        mip, c.xt, x, R=c.Rt, binary_for_zero_input=three)
    P = prog.Prog(mip)
    al = [a if isinstance(a, (list, tuple)) else [a] for a in al]
    T.label("three" if three else "one")
    for i in range(2):
        p = c.xeq if i and T.bool() else gen.inside(T, s.lo, s.up)
        e = c.Rm @ (p - c.xeq)
        P.exact(T, sl, [(x, p)], np.abs(e), "|R(x-x*)|", x=p)
        amb = np.abs(e) < 1e-9
        T.nontrivial(bool(amb.any() or len(set(np.sign(e))) > 1))
        for a, v, z in zip(al, e, amb):
            if len(a) == 1:
                if z:
                    continue
                want = 1. if v > 0 else 0.
                rng = mip and P.lb[a[0].index] == P.ub[a[0].index]
                if abs(v) > 1e-4 and not rng:
                    st = P.opt(np.zeros(P.n), [(x, p), (a, [1. - want])])[0]
                    T.check(st == "infeasible", "the sign binary may have "
                            "the wrong value", x=p, error=v, binary=1 - want)
                    st = P.opt(np.zeros(P.n), [(x, p), (a, [want])])[0]
                    T.check(st == "optimal", "the sign binary may not have "
                            "the right value", x=p, error=v, binary=want)
            elif abs(v) > 1e-4:
                T.check(len(a) == 3, "three binaries per term")
                for j, ok in enumerate((v < 0, False, v > 0)):
                    st = P.opt(np.zeros(P.n), [(x, p), ([a[j]], [1.])])[0]
                    T.check((st == "optimal") == ok, "the sign binaries of "
                            "the norm", which=j, x=p, error=v, admitted=st)


def sets_equal(T, got, exp, what, **info):
    for a, b, m in ((got, exp, "reports a gradient of no adjacent piece"),
                    (exp, got, "misses the gradient of an adjacent piece")):
        for x in a:
            if not any(np.allclose(x, y, 1e-8, 1e-9) for y in b):
                T.fail(f"{what} {m}", gradient=x, got=list(got),
                       expected=list(exp), **info)


@case(quick=300, thorough=12000, shards=2, weight=2, large=12)
def gradient(T):
    s, c, code = draw(T)
    if not hasattr(code, "_lyapunov_gradient"):
        T.reject("renamed")
    kind = T.int(0, 3)
    tol = T.choice((0., 1e-8, 1e-3, .1))
    if kind == 0:
        x = c.xeq.copy()
    elif kind == 1:
        # one coordinate of the error zero
        x = gen.inside(T, s.lo, s.up)
        i = T.int(0, s.nx - 1)
        x[i] = c.xeq[i]
    elif kind == 2 and tol:
        x = c.xeq + tol * T.array((s.nx, ), -.5, .5)
    else:
        x = gen.inside(T, s.lo, s.up)
    pre = np.concatenate(c.net.layers(x)[0] + [c.Rm @ (x - c.xeq)])
    pre = np.where(np.abs(pre) < 1e-13, 0., pre)
    if np.any((np.abs(np.abs(pre) - tol) < 1e-12) & (pre != 0)) or \
            (tol == 0. and np.any((pre != 0) & (np.abs(pre) < 1e-9))):
        T.reject("on the tolerance")
    if c.R is not None and np.any((pre == 0)) and tol == 0. and kind:
        T.reject("rounding of R (x - x*)")
    amb = int(np.sum(np.abs(pre) <= tol))
    if amb > 6:
        T.reject("too many kinks")
    T.nontrivial(amb > 0)
    T.label(f"ambiguous={amb}", f"tol={tol}")
    exp = c.grads(x, tol)
    got = code._lyapunov_gradient(gen.t(x), c.xt, c.lam, gen.t(c.Rm), tol)
    T.check(got.shape[1:] == (s.nx, ), "shape of the gradients",
            shape=tuple(got.shape))
    sets_equal(T, list(to_np(got)), exp, "the Lyapunov gradient", x=x,
               tol=tol)
    c.net.unchanged(T, "the Lyapunov network")


@case(quick=200, thorough=8000, shards=2, weight=2, large=16)
def gradient_batch(T):
    s, c, code = draw(T)
    if not hasattr(code, "_lyapunov_gradient_batch"):
        T.reject("renamed")
    n = T.count(1, 4) if T.large else T.choice((1, 2, 4))
    X = np.array([gen.inside(T, s.lo, s.up) for _ in range(n)])
    if min(c.margin(x) for x in X) < 1e-7:
        T.reject("kink")
    T.nontrivial(len({pattern(c, x) for x in X}) > 1)
    a = gen.t(X)
    rg = T.bool()
    a.requires_grad_(rg)
    graph = T.bool()
    g = code._lyapunov_gradient_batch(a, c.xt, c.lam, gen.t(c.Rm), graph)
    T.check(tuple(g.shape) == (n, s.nx), "shape", got=tuple(g.shape))
    T.check(a.requires_grad == rg, "requires_grad of the states changed")
    T.check(bool(g.requires_grad) == graph, "create_graph is not respected")
    T.close(g, np.array([c.grads(x)[0] for x in X]), "gradient of a batch",
            1e-8, 1e-8, X=X)
    T.close(a, X, "the states were changed", 0, 0)


@case(quick=400, thorough=15000, shards=1)
def l1_gradient(T):
    n = T.int(1, 5)
    tol = T.choice((0., 0., 1e-6, .05, .3))
    x = T.array((n, ), -1., 1.)
    for i in range(n):
        k = T.int(0, 4)
        if k == 0:
            x[i] = 0.
        elif k == 1 and tol:
            x[i] = tol * T.float(-.9, .9)
    if np.any((np.abs(np.abs(x) - tol) < 1e-12) & (x != 0)):
        T.reject("on the tolerance")
    sub = None
    if T.int(0, 2) == 0:
        sub = np.array(sorted(set(T.floats(T.int(1, 3), -.9, .9))))
    amb = np.abs(x) <= tol
    opts = [((1., -1.) + (() if sub is None else tuple(sub))) if b else
            (np.sign(v), ) for b, v in zip(amb, x)]
    exp = [np.array(o) for o in itertools.product(*opts)]
    if len(exp) > 300:
        T.reject("too many")
    T.nontrivial(bool(amb.any()))
    T.label(f"ambiguous={int(amb.sum())}", f"tol={tol > 0}")
    kw = {} if tol == 0. and T.bool() else dict(zero_tol=tol)
    if sub is not None:
        kw["subgradient_samples"] = sub
    a = gen.t(x)
    g = to_np(utils.l1_gradient(a, **kw))
    T.check(g.shape == (len(exp), n), "number of reported gradients",
            got=g.shape, expected=(len(exp), n), x=x, tol=tol)
    sets_equal(T, list(g), exp, "l1_gradient", x=x, tol=tol)
    T.close(a, x, "the argument was changed", 0, 0)


@case(quick=300, thorough=10000, shards=1)
def linf_gradient(T):
    n = T.int(1, 5)
    x = T.array((n, ), -1., 1., coarse=T.bool())
    tol = T.choice((0., 0., 1e-6, .1))
    if T.int(0, 5) == 0:
        x = np.zeros(n)
    elif T.int(0, 3) == 0:
        m = np.abs(x).max()
        x[T.int(0, n - 1)] = m * T.choice((1., -1.)) * (1. - tol / 2)
    m = np.abs(x).max()
    d = np.abs(x) - (m - tol)
    if m > tol and np.any((np.abs(d) < 1e-12) & (np.abs(x) < m)):
        T.reject("on the tolerance")
    I = np.eye(n)
    if m <= tol:
        exp = list(I) + list(-I)
    else:
        exp = []
        for i in range(n):
            # within tol of +m, respectively of -m
            if abs(x[i] - m) <= tol and abs(x[i] + m) <= tol:
                T.reject("both signs within the tolerance")
            if abs(x[i] - m) <= tol:
                exp.append(I[i])
            elif abs(x[i] + m) <= tol:
                exp.append(-I[i])
    T.nontrivial(len(exp) > 1)
    g = to_np(utils.l_infinity_gradient(gen.t(x), **(
        {} if tol == 0. and T.bool() else dict(max_tol=tol))))
    T.check(g.shape == (len(exp), n), "number of reported gradients",
            got=g.shape, expected=(len(exp), n), x=x, tol=tol)
    sets_equal(T, list(g), exp, "l_infinity_gradient", x=x, tol=tol)


@case(quick=200, thorough=5000, shards=1)
def minkowski(T):
    sh = [T.int(1, 3) for _ in range(T.int(0, 2))]
    a = T.array([T.int(1, 4)] + sh, -1., 1.)
    b = T.array([T.int(1, 4)] + sh, -1., 1.)
    T.nontrivial(len(a) > 1 and len(b) > 1)
    ref = np.array([x + y for x in a for y in b])
    T.close(utils.minkowski_sum(gen.t(a), gen.t(b)), ref, "Minkowski sum",
            1e-12)
