# TECHNIQUE: property-based testing (Hypothesis): generated ranges, slopes, limits and inputs; the generated constraint rows examined by an independent MILP oracle against the function's definition
# NOTE: At each generated input all admitted outputs (both extremes) and every binary assignment are decided; ranges include sign-changing, one-sided, touching-zero and single-point ones.
import itertools
import numpy as np
import torch
import gurobipy
import neural_network_lyapunov.utils as utils
import neural_network_lyapunov.gurobi_torch_mip as gurobi_torch_mip
from pbt import case, to_np
import gen
import mipo

PROPERTY = "P04"
SCALE = 4
RULE = ("nontrivial: the range contains inputs of more than one piece of the "
        "function")
ASSUMPTIONS = ["tolerance 1e-6 on encodings of one unit"]
TOL = 1e-6


def rng1(T, point=True):
    """lo <= up"""
    k = T.int(0, 7)
    a, b = T.float(.05, 3.), T.float(.05, 3.)
    if k == 0:
        return 0., a
    if k == 1:
        return -a, 0.
    if k == 2:
        return a, a + b
    if k == 3:
        return -a - b, -a
    if k == 4 and point:
        v = T.choice((0., a, -a))
        return v, v
    return -a, b


def point(T, lo, up, special=(0., )):
    k = T.int(0, 5)
    if k == 0:
        return lo
    if k == 1:
        return up
    if k == 2:
        s = [v for v in special if lo <= v <= up]
        if s:
            return T.choice(s)
    return T.float(lo, up)


def arg(T, v):
    """bounds may be given as floats or tensors"""
    return float(v) if T._as_float else gen.t(v)


def rows4(T, r, what):
    A_x, A_y, A_b, rhs = [np.ravel(to_np(a)) for a in r]
    T.check(len(A_x) == len(A_y) == len(A_b) == len(rhs), what + ": sizes")
    return np.stack((A_x, A_y, A_b), 1), rhs


def interval(A, rhs, x, b):
    """admitted [min, max] of y with x and b fixed (None: empty)"""
    lo, up = -np.inf, np.inf
    for a, r in zip(A, rhs):
        v = r - a[0] * x - a[2] * b
        if a[1] > 0:
            up = min(up, v / a[1])
        elif a[1] < 0:
            lo = max(lo, v / a[1])
        elif v < -TOL:
            return None
    return None if lo > up + TOL else (lo, up)


def exact_at(T, A, rhs, x, b, y, what, **info):
    r = interval(A, rhs, x, b)
    if y is None:
        T.check(r is None, what + ": admits a binary value that does not "
                "describe the piece", x=x, binary=b, admitted=r, **info)
        return
    T.check(r is not None, what + ": admits nothing", x=x, binary=b,
            expected=y, **info)
    T.check(abs(r[0] - y) <= TOL and abs(r[1] - y) <= TOL,
            what + ": admits another value", x=x, binary=b, expected=y,
            admitted=r, **info)


@case(quick=400, thorough=20000)
def products(T):
    lo, up = rng1(T)
    T._as_float = T.bool()
    A, rhs = rows4(T, utils.replace_binary_continuous_product(
        arg(T, lo), arg(T, up)), "product")
    T.nontrivial(up > lo)
    for _ in range(3):
        x = point(T, lo, up)
        exact_at(T, A, rhs, x, 0, 0., "binary product", lo=lo, up=up)
        exact_at(T, A, rhs, x, 1, x, "binary product", lo=lo, up=up)
    c = T.choice((0., .1, .5, 1., 1.5, 3., T.float(0., 2.)))
    A, rhs = rows4(T, utils.leaky_relu_gradient_times_x(
        arg(T, lo), arg(T, up), c), "leaky product")
    for _ in range(3):
        x = point(T, lo, up)
        exact_at(T, A, rhs, x, 0, c * x, "leaky ReLU gradient product",
                 slope=c, lo=lo, up=up)
        exact_at(T, A, rhs, x, 1, x, "leaky ReLU gradient product", slope=c,
                 lo=lo, up=up)


@case(quick=400, thorough=20000)
def units(T):
    lo, up = -T.float(.05, 3.), T.float(.05, 3.)
    T._as_float = T.bool()
    T.nontrivial()
    c = T.choice((0., .1, .5, 1., 1.5, 3., T.float(0., 2.)))
    relu = T.bool()
    if relu:
        c = 0.
        r = utils.replace_relu_with_mixed_integer_constraint(
            arg(T, lo), arg(T, up))
    else:
        r = utils.replace_leaky_relu_mixed_integer_constraint(
            c, arg(T, lo), arg(T, up))
    A, rhs = rows4(T, r, "unit")
    what = "ReLU unit" if relu else "leaky ReLU unit"
    for _ in range(4):
        x = point(T, lo, up)
        if 0 < abs(x) < 1e-3:
            continue
        on = x if x >= 0 else None
        off = c * x if x <= 0 else None
        if c == 1. or abs(c - 1) < 1e-2:
            # both pieces are the same function
            y = x if c == 1. else None
            if y is not None:
                exact_at(T, A, rhs, x, 1, y, what, slope=c)
                exact_at(T, A, rhs, x, 0, y, what, slope=c)
            continue
        exact_at(T, A, rhs, x, 1, on, what, slope=c, lo=lo, up=up)
        exact_at(T, A, rhs, x, 0, off, what, slope=c, lo=lo, up=up)
    # x outside the range
    x = up + T.float(.05, 1.) if T.bool() else lo - T.float(.05, 1.)
    if abs(c - 1) > .05:
        for b in (0, 1):
            exact_at(T, A, rhs, x, b, None, what + " outside its range",
                     slope=c, lo=lo, up=up)


def assignments(T, n):
    """every assignment of a few binaries; of many: one-hot ones, none, all
    and a few random ones"""
    if n <= 5:
        return list(itertools.product((0., 1.), repeat=n))
    r = [tuple(v) for v in np.eye(n)] + [(0., ) * n, (1., ) * n]
    for _ in range(4):
        i, j = T.int(0, n - 1), T.int(0, n - 1)
        b = [0.] * n
        b[i] = b[j] = 1.
        r.append(tuple(b))
    return list(dict.fromkeys(tuple(float(x) for x in b) for b in r))


def encoded(T, c, x, table, what, **info):
    """table: {binary tuple: value} of the admitted assignments at x; every
    other assignment must be rejected."""
    st = mipo.Set(c)
    raw = mipo.Set(c, bounds=False)
    x = np.ravel(x)
    T.check(st.nb == len(next(iter(table))), what + ": number of binaries",
            got=st.nb)
    T.check(st.no == 1, what + ": one output")
    for s in (st, raw):
        for b in assignments(T, s.nb):
            fix = {s.ni + s.ns + i: v for i, v in enumerate(b)}
            r, o, z = s.opt(s.C[0], x, fix)
            if b not in table:
                T.check(r == "infeasible", what + ": admits binary values "
                        "that do not describe the piece", x=x, binary=b,
                        solution=z, **info)
                continue
            T.check(r == "optimal", what + ": does not admit the binary "
                    "values of the active piece", x=x, binary=b, status=r,
                    **info)
            r2, o2, z2 = s.opt(-s.C[0], x, fix)
            T.check(r2 == "optimal" and abs(o + s.c0[0] - table[b]) < TOL and
                    abs(-o2 + s.c0[0] - table[b]) < TOL,
                    what + ": admits another value", x=x, binary=b,
                    got=(o, o2), expected=table[b], **info)


@case(quick=400, thorough=10000, shards=2, weight=2)
def absolute_value(T):
    lo, up = rng1(T)
    T._as_float = T.bool()
    three = T.bool()
    c = utils.absolute_value_as_mixed_integer_constraint(
        arg(T, lo), arg(T, up), three)
    T.nontrivial(lo < 0 < up or lo == 0 or up == 0)
    T.label("three_binaries" if three else "one_binary")
    x = point(T, lo, up)
    if 0 < abs(x) < 1e-3:
        T.reject("near the kink")
    if three:
        tab = {}
        if x <= 0 and lo < 0:
            tab[(1., 0., 0.)] = abs(x)
        if x == 0:
            tab[(0., 1., 0.)] = 0.
        if x >= 0 and up > 0:
            tab[(0., 0., 1.)] = abs(x)
        if lo == up == 0.:
            tab[(0., 0., 1.)] = 0.
    else:
        tab = {}
        # (a range that touches zero only has the piece of its interior)
        if x >= 0 and (lo >= 0 or up > 0):
            tab[(1., )] = abs(x)
        if x <= 0 and lo < 0:
            tab[(0., )] = abs(x)
    encoded(T, c, x, tab, "absolute value", lo=lo, up=up)
    # outside the range nothing is admitted
    d = T.float(.05, 1.)
    mipo.rejects(T, mipo.Set(c, bounds=False),
                 np.array([up + d if T.bool() else lo - d]),
                 "absolute value", lo=lo, up=up)


@case(quick=300, thorough=10000, shards=2, weight=4, large=25)
def maximum(T):
    n = T.span(1, 4, 9, 16)
    lo, up = gen.box(T, n, degenerate=True)
    c = utils.max_as_mixed_integer_constraint(gen.t(lo), gen.t(up))
    x = gen.inside(T, lo, up)
    if T.int(0, 2) == 0 and n > 1:
        # a tie
        v = float(np.min(up))
        if np.sum(lo <= v) > 1:
            x = np.where(lo <= v, v, x)
    y = x.max()
    T.nontrivial(bool(np.sum(up >= lo.max()) > 1))
    T.label(f"never_maximal={int(np.sum(up < lo.max()))}")
    tab = {}
    for i in range(n):
        if x[i] == y:
            b = [0.] * n
            b[i] = 1.
            if up[i] < lo.max():
                continue
            tab[tuple(b)] = y
        elif y - x[i] < 1e-3:
            T.reject("near tie")
    encoded(T, c, x, tab, "maximum", lo=lo, up=up)
    for k in (to_np(a) for a in (c.binary_lo, c.binary_up)
              if a is not None):
        T.check(k.shape == (n, ), "binary bounds")


@case(quick=300, thorough=10000, shards=2, weight=4)
def saturation(T):
    ll = T.float(-2., 1.)
    ul = ll + T.float(.1, 2.)
    in_lo = T.float(-4., 3.)
    in_up = in_lo + T.float(.1, 4.)
    k = T.int(0, 6)
    if k == 0:
        in_lo = ll
        in_up = max(in_up, in_lo + .5)
    elif k == 1:
        in_up = ul
        in_lo = min(in_lo, in_up - .5)
    elif k == 2:
        in_lo, in_up = ll, ul
    elif k == 3:
        in_lo, in_up = ll - T.float(.1, 2.), ul + T.float(.1, 2.)
    vt = T.choice((gurobipy.GRB.BINARY, gurobipy.GRB.BINARY,
                   gurobipy.GRB.CONTINUOUS, gurobi_torch_mip.BINARYRELAX))
    T._as_float = T.bool()
    mip = gurobi_torch_mip.GurobiTorchMILP(gen.DT)
    xv = mip.addVars(1, lb=-gurobipy.GRB.INFINITY,
                     vtype=gurobipy.GRB.CONTINUOUS)
    yv = mip.addVars(1, lb=-gurobipy.GRB.INFINITY,
                     vtype=gurobipy.GRB.CONTINUOUS)
    b = utils.add_saturation_as_mixed_integer_constraint(
        mip, xv[0], yv[0], arg(T, ll), arg(T, ul), arg(T, in_lo),
        arg(T, in_up), vt)
    linear = (in_up <= ll or in_lo >= ul or (in_lo >= ll and in_up <= ul))
    low = not linear and in_lo < ll
    high = not linear and in_up > ul
    T.check(len(b) == int(low) + int(high), "number of binary variables",
            got=len(b), range=(in_lo, in_up), limits=(ll, ul))
    T.nontrivial(not linear)
    T.label(f"binaries={len(b)}")
    m = mip.gurobi_model
    m.update()
    for _ in range(3):
        x = point(T, in_lo, in_up, (ll, ul))
        y = min(max(x, ll), ul)
        xv[0].lb = xv[0].ub = x
        res = []
        for sense in (gurobipy.GRB.MINIMIZE, gurobipy.GRB.MAXIMIZE):
            m.setObjective(gurobipy.LinExpr([1.], [yv[0]]), sense)
            m.optimize()
            T.check(m.status == gurobipy.GRB.Status.OPTIMAL,
                    "saturation: admits no output", x=x, status=m.status,
                    range=(in_lo, in_up), limits=(ll, ul))
            res.append(m.ObjVal)
        if vt == gurobipy.GRB.BINARY:
            T.check(abs(res[0] - y) < TOL and abs(res[1] - y) < TOL,
                    "saturation: admits another output", x=x, got=res,
                    expected=y, range=(in_lo, in_up), limits=(ll, ul))
        else:
            T.check(res[0] <= y + TOL and y <= res[1] + TOL,
                    "relaxed saturation: cuts off the value", x=x, got=res,
                    expected=y, range=(in_lo, in_up), limits=(ll, ul))
        # binary values
        yv[0].lb = yv[0].ub = y
        for i, v in enumerate(b):
            is_low = low and i == 0
            lim = ll if is_low else ul
            if abs(x - lim) < 1e-3:
                continue
            want = (x < ll) if is_low else (x > ul)
            lb0, ub0 = v.lb, v.ub
            for val in (0., 1.):
                if vt != gurobipy.GRB.BINARY and val != float(want):
                    continue
                v.lb = v.ub = val
                m.setObjective(gurobipy.LinExpr([0.], [yv[0]]),
                               gurobipy.GRB.MINIMIZE)
                m.optimize()
                ok = m.status == gurobipy.GRB.Status.OPTIMAL
                T.check(ok == (val == float(want)), "saturation: binary "
                        "value does not tell the active piece", x=x,
                        which="lower" if is_low else "upper", value=val,
                        admitted=ok, range=(in_lo, in_up), limits=(ll, ul))
                v.lb, v.ub = lb0, ub0
        yv[0].lb, yv[0].ub = -gurobipy.GRB.INFINITY, gurobipy.GRB.INFINITY


@case(quick=250, thorough=8000, shards=2, weight=4, large=25)
def boundary_of_box(T):
    n = T.span(1, 3, 9, 14)
    lo, up = gen.box(T, n)
    if T.int(0, 5) == 0:
        k = T.int(0, n - 1)
        up[k] = lo[k]
        T.label("flat_box")
    c = utils.box_boundary(gen.t(lo), gen.t(up))
    st = mipo.Set(c)
    T.nontrivial()
    x = gen.inside(T, lo, up)
    d = np.minimum(x - lo, up - x).min()
    if 0 < d < 1e-3:
        T.reject("near the boundary")
    T.check(st.feasible(x) == (d == 0.), "box boundary: wrong membership",
            x=x, lo=lo, up=up, on_boundary=bool(d == 0))
    i = T.int(0, n - 1)
    x[i] = T.choice((lo[i], up[i]))
    T.check(st.feasible(x), "box boundary: a boundary point is not admitted",
            x=x, lo=lo, up=up)
    mipo.rejects(T, st, gen.outside(T, lo, up), "box boundary", lo=lo, up=up)
