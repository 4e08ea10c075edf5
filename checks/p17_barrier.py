# TECHNIQUE: property-based testing (Hypothesis): generated systems, barrier networks, constants, rates and regions (boxes, slices, unions, box boundaries); programs examined at fixed states by an independent MILP oracle and their optima compared with a sample cloud and with the value at the reported state
# NOTE: gurobipy is replaced by the stand-in in /verif/shim.
"""P17 Barrier functions and their verification programs."""
import gurobipy
import numpy as np
import torch

import gen
import p14_discrete_certificates as p14
import p18_losses as p18
import prog
import systems
from pbt import case, to_np
import warm
from p14_discrete_certificates import border, fixed, inbox, near, solve
import neural_network_lyapunov.barrier as barrier
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.utils as utils

PROPERTY = "P17"
RULE = ("at least two generated states meet the side conditions and lie on "
        "different pieces of the barrier network, or the region has "
        "binaries")
ASSUMPTIONS = ["gurobipy stand-in", "tolerance 1e-5 (relative) at fixed "
               "states, 1e-4 for optima",
               "a region may stick out of the verified box: the program may "
               "leave such states out but not misjudge them"]
CASES = []


class Infeasible(Exception):
    pass


class Bar:
    def __init__(self, net, xs, c):
        self.net, self.xs, self.c = net, xs, c
        self.xt = gen.t(xs)

    def h(self, x):
        return self.net(x)[0] - self.net(self.xs)[0] + self.c

    def rate(self, eps, x, y):
        return -self.h(y) + (1 - eps) * self.h(x)

    def pat(self, x):
        return tuple(np.concatenate(self.net.layers(x)[0]) > 0)


def draw(T, loops=True):
    D = p14.dynamics(T, loops)
    net = gen.net(T, D.nx, 1, max_hidden=2, max_width=3, wmax=1.2)
    xs = gen.inside(T, D.lo, D.up)
    B = Bar(net, xs, T.float(.05, 3., special=(.5, 1.)))
    code = barrier.DiscreteTimeBarrier(D.code, net.torch)
    code.network_bound_propagate_method = T.choice(systems.METHODS)
    T.note(kind=D.kind, nx=D.nx, widths=net.hidden, c=B.c)
    warm.barrier(T, code, B.xs, B.c, D, B.xt, p=5)
    return D, B, code


class Region:
    """boxes: list of (lo, up); the set is their union"""
    def __init__(self, code, boxes, kind):
        self.code, self.boxes, self.kind = code, boxes, kind

    def has(self, x, tol=0.):
        return any(np.all(x >= l - tol) and np.all(x <= u + tol)
                   for l, u in self.boxes)

    def state(self, T):
        l, u = T.choice(self.boxes)
        return gen.inside(T, l, u)


def subbox(T, lo, up, stick=False):
    a, b = gen.inside(T, lo, up), gen.inside(T, lo, up)
    l, u = np.minimum(a, b), np.maximum(a, b)
    i = T.int(0, len(lo) - 1)
    if stick:
        u[i] = up[i] + .5
    return l, u


KINDS = ("box", "bounds", "slice", "union", "boundary", "stick")


def region(T, D, kinds=KINDS):
    c = gtm.MixedIntegerConstraintsReturn()
    n = D.nx
    k = T.choice(kinds)
    I = np.eye(n)
    if k in ("box", "stick"):
        l, u = subbox(T, D.lo, D.up, k == "stick")
        c.Ain_input = gen.t(np.vstack((I, -I)))
        c.rhs_in = gen.t(np.concatenate((u, -l)))
        boxes = [(l, u)]
    elif k == "bounds":
        l, u = subbox(T, D.lo, D.up)
        c.Ain_input = torch.zeros((0, n), dtype=gen.DT)
        c.rhs_in = torch.zeros((0, ), dtype=gen.DT)
        c.input_lo, c.input_up = gen.t(l), gen.t(u)
        boxes = [(l, u)]
    elif k == "slice":
        l, u = subbox(T, D.lo, D.up)
        i = T.int(0, n - 1)
        l[i] = u[i]
        rest = [j for j in range(n) if j != i]
        c.Aeq_input, c.rhs_eq = gen.t(I[[i]]), gen.t(u[[i]])
        if rest:
            c.Ain_input = gen.t(np.vstack((I[rest], -I[rest])))
            c.rhs_in = gen.t(np.concatenate((u[rest], -l[rest])))
        boxes = [(l, u)]
    elif k == "union":
        # x = sum s_i, b_i l_i <= s_i <= b_i u_i, sum b = 1
        m = T.int(2, 3)
        boxes = [subbox(T, D.lo, D.up) for _ in range(m)]
        As, Ab = [], []
        for i, (l, u) in enumerate(boxes):
            S = np.zeros((n, n * m))
            S[:, i * n:(i + 1) * n] = I
            for s, v in ((1, u), (-1, l)):
                B = np.zeros((n, m))
                B[:, i] = -s * v
                As.append(s * S)
                Ab.append(B)
        c.Ain_slack, c.Ain_binary = gen.t(np.vstack(As)), gen.t(np.vstack(Ab))
        c.rhs_in = torch.zeros(2 * n * m, dtype=gen.DT)
        c.Aeq_input = gen.t(np.vstack((I, np.zeros((1, n)))))
        c.Aeq_slack = gen.t(np.vstack((-np.tile(I, m), np.zeros((1, n * m)))))
        c.Aeq_binary = gen.t(np.vstack((np.zeros((n, m)), np.ones((1, m)))))
        c.rhs_eq = gen.t(np.concatenate((np.zeros(n), [1.])))
    else:
        l, u = (D.lo, D.up) if T.bool() else subbox(T, D.lo, D.up)
        if np.any(u - l < 1e-3):
            T.reject("degenerate box")
        c = utils.box_boundary(gen.t(l), gen.t(u))
        boxes = []
        for i in range(n):
            for e in (l, u):
                a, b = l.copy(), u.copy()
                a[i] = b[i] = e[i]
                boxes.append((a, b))
    T.label("region=" + k)
    return Region(c, boxes, k)


@case(quick=500, thorough=20000, shards=2, weight=3, large=16)
def values(T):
    """the value at one state, at a batch, and at the anchor"""
    D, B, code = draw(T)
    x = gen.inside(T, D.lo, D.up)
    T.close(float(code.value(gen.t(x), B.xt, B.c)), B.h(x),
            "value at a state", 1e-9, 1e-9, x=x)
    T.close(float(code.value(B.xt, B.xt, B.c)), B.c,
            "value at the anchor", 1e-9, 1e-9)
    k = T.count(1, 4)
    X = np.array([gen.inside(T, D.lo, D.up) for _ in range(k)])
    got = to_np(code.value(gen.t(X), B.xt, B.c)).reshape(-1)
    T.close(got, np.array([B.h(p) for p in X]), "value at a batch", 1e-9,
            1e-9)
    eps = T.float(0., 1.5, special=(0., .1, 1.))
    if not D.hybrid:
        y = D.f(x)[0]
        T.close(float(code.derivative(gen.t(x), B.xt, B.c, eps)),
                B.rate(eps, x, y), "rate at a state", 1e-8, 1e-8, x=x,
                successor=y)
    T.nontrivial(len({B.pat(p) for p in X} | {B.pat(x)}) > 1)


@case(quick=800, thorough=16000, shards=5, weight=10, large=10)
def regions(T):
    D, B, code = draw(T, loops=False)
    R = region(T, D)
    safe = T.bool()
    s = -1. if safe else 1.
    milp, x = code.value_as_milp(B.xt, B.c, R.code, safe)
    P = prog.Prog(milp)
    pats = set()
    what = f"the {'safe' if safe else 'unsafe'}-region program"
    for _ in range(3):
        p = R.state(T)
        pats.add(B.pat(p))
        o = fixed(T, P, [(x, p)], what, x=p)
        if o is None:
            T.check(not inbox(D, p, -1e-9) and not inbox(D, p),
                    what + " rejects a state of the region", x=p, kind=R.kind)
            T.label("left_out")
            continue
        for a in o:
            T.check(near(a, s * B.h(p)), what + ": objective at a state",
                    x=p, got=o, expected=s * B.h(p))
    p = gen.inside(T, D.lo, D.up)
    if not R.has(p, 1e-4):
        T.label("off_region")
        T.check(fixed(T, P, [(x, p)], what) is None, what + " admits a "
                "state off the region", x=p, boxes=R.boxes)
    opt = solve(T, milp, what)
    T.check(opt is not None, what + " is infeasible", boxes=R.boxes)
    C = [p for l, u in R.boxes for p in gen.cloud(T, l, u, 60)
         if inbox(D, p)]
    v = np.array([s * B.h(p) for p in C])
    if len(v):
        T.check(v.max() <= opt + 1e-5 * (1 + abs(opt)), what + ": a state "
                "exceeds the optimum", x=C[v.argmax()], value=v.max(),
                optimum=opt)
    xs = np.array([q.x for q in x])
    T.check(R.has(xs, 1e-5), what + ": the optimal state is off the region",
            x=xs, boxes=R.boxes)
    T.check(abs(s * B.h(xs) - opt) <= 1e-4 * (1 + abs(opt)), what + ": the "
            "optimum is not attained at the reported state", x=xs,
            value=s * B.h(xs), optimum=opt)
    T.label("safe" if safe else "unsafe")
    T.nontrivial(len(pats) > 1 or R.kind in ("union", "boundary"))
    B.net.unchanged(T, "the barrier network")


@case(quick=600, thorough=12000, shards=6, weight=14, large=8)
def rate(T):
    D, B, code = draw(T)
    eps = T.float(0., 1.5, special=(0., .1, 1.))
    kw = {}
    relax = T.int(0, 5) == 0
    if relax:
        kw["binary_var_type"] = gtm.BINARYRELAX
        T.label("relaxed")
    ret = code.derivative_as_milp(B.xt, B.c, eps, **kw)
    P = prog.Prog(ret.milp)
    T.check(not (relax and P.integ.any()), "a relaxed program has integer "
            "variables")
    pats, n = set(), 0
    for p in p14.states(T, D, 4):
        ys = D.f(p)
        if any(inbox(D, y, 1e-4) != inbox(D, y, -1e-4) for y in ys):
            continue
        ys = [y for y in ys if inbox(D, y)]
        o = fixed(T, P, [(ret.x, p)], "rate program", x=p)
        if not ys:
            T.label("excluded_state")
            T.check(relax or o is None, "the rate program admits a state "
                    "whose successors are off the box", x=p,
                    successors=D.f(p))
            continue
        T.check(o is not None, "the rate program rejects a state whose "
                "successor is in the box", x=p, successors=ys)
        ref = [B.rate(eps, p, y) for y in ys]
        n += 1
        pats.add(B.pat(p))
        if relax:
            T.check(o[1] >= max(ref) - 1e-5 * (1 + abs(max(ref))), "the "
                    "relaxed rate program cuts off the violation at a state",
                    x=p, got=o, expected=ref)
            continue
        if D.hybrid and border(D, p):
            continue
        T.check(near(o[1], max(ref)) and near(o[0], min(ref)), "objective "
                "of the rate program at a state", x=p, got=o, expected=ref,
                eps=eps, c=B.c)
    p = gen.outside(T, D.lo, D.up)
    T.check(fixed(T, P, [(ret.x, p)], "") is None, "the rate program admits "
            "a state off the box", x=p)
    T.nontrivial(n >= 2 and len(pats) > 1)
    if relax:
        return
    opt = solve(T, ret.milp, "rate program")
    vals = []
    for x in gen.cloud(T, D.lo, D.up, 80):
        ys = [y for y in D.f(x) if inbox(D, y, -1e-6)]
        if ys:
            vals.append((max(B.rate(eps, x, y) for y in ys), x))
    if opt is None:
        T.check(not vals, "the rate program is infeasible")
        return
    if vals:
        b, x = max(vals, key=lambda t: t[0])
        T.check(b <= opt + 1e-5 * (1 + abs(opt)), "a state violates the "
                "rate condition by more than the optimum", x=x, violation=b,
                optimum=opt)
    xs, xn = np.array([q.x for q in ret.x]), np.array(
        [q.x for q in ret.x_next])
    T.check(inbox(D, xs, 1e-5) and inbox(D, xn, 1e-5), "the optimal state "
            "or successor is off the box", x=xs, x_next=xn)
    ys = D.f(xs, 1e-5) if D.hybrid else D.f(xs)
    T.check(any(np.allclose(y, xn, atol=1e-4) for y in ys), "the reported "
            "next state is not a successor of the reported state", x=xs,
            x_next=xn, successors=ys)
    T.check(abs(B.rate(eps, xs, xn) - opt) <= 2e-4 * (1 + abs(opt)),
            "the optimum is not attained at the reported state", x=xs,
            value=B.rate(eps, xs, xn), optimum=opt)
    B.net.unchanged(T, "the barrier network")
    D.unchanged(T)


@case(quick=240, thorough=8000, shards=3, weight=8, large=8)
def gradients(T):
    """the optimum moves with the parameters as its reported derivative says"""
    D, B, code = draw(T)
    for o in (code, D.code, getattr(D.code, "forward_system", None)):
        for a in ("network_bound_propagate_method",
                  "controller_network_bound_propagate_method"):
            if hasattr(o, a):
                # bounds from programs carry no gradient
                setattr(o, a, p14.M.IA)
    nets = [B.net.torch]
    if T.bool():
        R = region(T, D)
        safe = T.bool()
        what = f"the {'safe' if safe else 'unsafe'}-region program"

        def program():
            return code.value_as_milp(B.xt, B.c, R.code, safe)[0]
    else:
        eps = T.float(0., 1.5, special=(0., .1, 1.))
        what = "the rate program"
        loop = getattr(D.code, "controller_network", None)
        if loop is not None:
            nets.append(loop)

        def program():
            return code.derivative_as_milp(B.xt, B.c, eps).milp

    def optimum():
        m = program()
        m.gurobi_model.setParam("OutputFlag", 0)
        m.gurobi_model.optimize()
        if m.gurobi_model.status != gurobipy.GRB.Status.OPTIMAL:
            raise Infeasible()
        return m.compute_objective_from_mip_data_and_solution()
    try:
        p18.slope(T, nets, optimum, what, True)
    except (Infeasible, gtm.IncorrectActiveConstraint) as e:
        T.reject(type(e).__name__)
    T.label("program=" + what)
    T.nontrivial(len({B.pat(x) for x in gen.cloud(T, D.lo, D.up, 8)}) > 1)
