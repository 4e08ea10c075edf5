# TECHNIQUE: property-based testing (Hypothesis): generated affine maps, layers, polytopes, ReLU units and relaxed points; bounds compared with exact LP ranges, cuts evaluated at genuine points and brute-forced over all index sets
# NOTE: Up to 4 dimensions; validity of a cut on a whole box is decided exactly (its slack is piecewise linear in each coordinate, minimized by LP on both sides of the unit), emptiness/unboundedness with clear margins.
import itertools
import numpy as np
import torch
import gurobipy
import neural_network_lyapunov.mip_utils as mip_utils
import neural_network_lyapunov.utils as utils
import neural_network_lyapunov.relu_to_optimization as relu_to_optimization
import neural_network_lyapunov.gurobi_torch_mip as gurobi_torch_mip
from pbt import case, to_np
import gen
import mipo
import cvxpatch

PROPERTY = "P05"
SCALE = 2
RULE = ("nontrivial: the map has coefficients of both signs / the polytope "
        "cuts the box / the unit changes sides on its box / a cut was "
        "generated")
ASSUMPTIONS = ["tolerance 1e-6 relative on bounds; empty polytopes are "
               "empty by a margin of at least 0.05"]
cvxpatch.install()


def tol(*a):
    v = np.concatenate([np.ravel(x) for x in a])
    v = v[np.isfinite(v)]
    return 1e-6 * (1 + np.abs(v).max(initial=0.))


def equal_bounds(T, got, exp, what, **info):
    got, exp = np.ravel(to_np(got)), np.ravel(exp)
    T.check(got.shape == exp.shape, what + ": shape")
    for g, e in zip(got, exp):
        if np.isinf(e) or np.isinf(g):
            T.check(g == e, what, got=got, expected=exp, **info)
        else:
            T.check(abs(g - e) <= tol(exp), what, got=got, expected=exp,
                    **info)


def polytope(T, n, lo, up):
    """(kind, C, d): feasible with x0 inside, or empty by a margin"""
    m = T.int(1, 4)
    C = T.array((m, n), coarse=T.int(0, 2) == 0)
    x0 = gen.inside(T, lo, up)
    d = C @ x0 + T.array((m, ), 0., 1.)
    if T.int(0, 4) == 0:
        a = T.array((n, ))
        if np.abs(a).max() < .2:
            a[0] = 1.
        r = a @ x0
        C = np.vstack((C, a, -a))
        d = np.concatenate((d, [r - T.float(.05, 1.)], [-r]))
        return "empty", C, d
    return "feasible", C, d


def lp_range(row, const, C, d, lb, ub):
    out = []
    for s in (1., -1.):
        st, o, _ = mipo.lp(s * row, C, np.full(len(d), -np.inf), d, lb, ub)
        if st == "optimal":
            out.append(s * o + const)
        elif st == "infeasible":
            out.append(s * np.inf)
        elif st == "unbounded":
            out.append(-s * np.inf)
        else:
            return None
    return out


@case(quick=500, thorough=20000, shards=2, weight=3, large=25)
def affine_range(T):
    n, m = T.span(1, 4, 9, 40), T.span(1, 3, 9, 40)
    A = T.array((m, n), -2., 2.)
    b = T.array((m, ), -2., 2.)
    lo, up = gen.box(T, n, degenerate=True)
    T.nontrivial(bool(np.any(A > 0) and np.any(A < 0)))
    l, u = mip_utils.compute_range_by_IA(gen.t(A), gen.t(b), gen.t(lo),
                                         gen.t(up))
    ap, an = np.maximum(A, 0), np.minimum(A, 0)
    equal_bounds(T, l, ap @ lo + an @ up + b, "interval lower bound")
    equal_bounds(T, u, ap @ up + an @ lo + b, "interval upper bound")
    # by linear programming
    have_lo, have_up = T.int(0, 3) > 0, T.int(0, 3) > 0
    have_c = T.int(0, 4) > 0
    kind, C, d = polytope(T, n, lo, up)
    if not have_c:
        kind, C, d = "feasible", np.zeros((0, n)), np.zeros(0)
    if T.int(0, 5) == 0:
        A[T.int(0, m - 1)] = 0.
    xl = lo if have_lo else np.full(n, -np.inf)
    xu = up if have_up else np.full(n, np.inf)
    T.label(kind, f"bounds={have_lo}{have_up}")
    exp = [lp_range(A[i], b[i], C, d, xl, xu) for i in range(m)]
    if any(e is None for e in exp):
        T.reject("reference solver undecided")
    l, u = mip_utils.compute_range_by_lp(
        A, b, lo if have_lo else None, up if have_up else None,
        C if have_c else None, d if have_c else None)
    equal_bounds(T, l, [e[0] for e in exp], "LP lower bound", kind=kind)
    equal_bounds(T, u, [e[1] for e in exp], "LP upper bound", kind=kind)


@case(quick=400, thorough=15000, large=25)
def layer_range(T):
    n = T.span(1, 4, 9, 70)
    lo, up = gen.box(T, n, degenerate=True)
    k = T.int(0, 3)
    s = 0.
    if k == 0:
        layer = torch.nn.ReLU()
    elif k < 3:
        s = T.choice((0., .1, .5, 1., 2., -.1, -.5, -2., T.float(-2., 2.)))
        layer = torch.nn.LeakyReLU(s)
    else:
        m = T.span(1, 3, 9, 70)
        W = T.array((m, n), -2., 2.)
        bias = T.array((m, ), -1., 1.) if T.bool() else None
        layer = gen.Net([W, np.eye(m)], [bias, None], None).torch[0]
    l, u = mip_utils.propagate_bounds(layer, gen.t(lo), gen.t(up))
    l, u = to_np(l), to_np(u)
    if k == 3:
        ap, an = np.maximum(W, 0), np.minimum(W, 0)
        b = 0. if bias is None else bias
        equal_bounds(T, l, ap @ lo + an @ up + b, "linear layer bound")
        equal_bounds(T, u, ap @ up + an @ lo + b, "linear layer bound")
        T.check(np.array_equal(to_np(layer.weight), W) and
                (bias is None or np.array_equal(to_np(layer.bias), bias)),
                "the layer was changed")
        T.nontrivial()
        return
    f = lambda a: np.where(a > 0, a, s * a)
    cand = np.stack((f(lo), f(up), np.where((lo < 0) & (up > 0), 0.,
                                            f(lo))))
    T.nontrivial(bool(np.any((lo < 0) & (up > 0))))
    equal_bounds(T, l, cand.min(0), "activation lower bound", slope=s, lo=lo,
                 up=up)
    equal_bounds(T, u, cand.max(0), "activation upper bound", slope=s, lo=lo,
                 up=up)
    # one unit
    i = T.int(0, n - 1)
    if up[i] > lo[i]:
        a, b = (gen.t(lo[i]), gen.t(up[i])) if T.bool() else (lo[i], up[i])
        l, u = utils.leaky_relu_interval(s, a, b)
        equal_bounds(T, float(l), cand.min(0)[i], "leaky ReLU interval",
                     slope=s, lo=lo[i], up=up[i])
        equal_bounds(T, float(u), cand.max(0)[i], "leaky ReLU interval",
                     slope=s, lo=lo[i], up=up[i])


@case(quick=300, thorough=10000, shards=2, weight=4, large=20)
def polytope_bounds(T):
    n = T.span(1, 4, 9, 14)
    lo, up = gen.box(T, n)
    kind, P, q = polytope(T, n, lo, up)
    if T.bool():
        P = np.vstack((P, np.eye(n), -np.eye(n)))
        q = np.concatenate((q, up, -lo))
        T.label("boxed")
    i = T.int(0, n - 1)
    e = np.zeros(n)
    e[i] = 1.
    exp = lp_range(e, 0., P, q, None, None)
    if exp is None:
        T.reject("reference solver undecided")
    T.nontrivial(bool(np.isfinite(exp[0]) and np.isfinite(exp[1])))
    T.label(kind, "finite" if np.all(np.isfinite(exp)) else "infinite")
    as_np = T.bool()
    got = utils.compute_bounds_from_polytope(
        P if as_np else gen.t(P), q if as_np else gen.t(q), i)
    T.check(len(got) == 2, "two bounds")
    equal_bounds(T, [float(g) for g in got], exp, "bound of the polytope",
                 kind=kind)
    if kind == "feasible":
        bounded = True
        clear = True
        for k in range(n):
            for s in (1., -1.):
                c = np.zeros(n)
                c[k] = -s
                # max s x_k over {P x <= 0, |x| <= 1}
                st, o, _ = mipo.lp(c, P, np.full(len(q), -np.inf),
                                   np.zeros(len(q)), -np.ones(n), np.ones(n))
                if -o > 1e-9:
                    bounded = False
                    clear = clear and -o > 1e-3
        if not bounded and not clear:
            T.reject("recession cone undecided")
        # margin: a nearly unbounded polytope
        if bounded:
            r = np.linalg.norm(P, axis=1)
            Pn = P[r > 0] / r[r > 0][:, None]
            for k in range(n):
                for s in (1., -1.):
                    c = np.zeros(n)
                    c[k] = -s
                    st, o, _ = mipo.lp(c, Pn, np.full(len(Pn), -np.inf),
                                       np.full(len(Pn), 1e-3), -np.ones(n),
                                       np.ones(n))
                    if -o > .5:
                        T.reject("nearly unbounded")
        T.check(bool(utils.is_polyhedron_bounded(gen.t(P))) == bounded,
                "boundedness of a non-empty polyhedron", P=P,
                bounded=bounded)


@case(quick=100, thorough=2000, weight=2, large=10)
def missing_facet(T):
    """boxes, simplices and prisms with or without one of their facets"""
    n = T.span(1, 4, 5, 8)
    k = T.int(0, n)     # a box of n - k dimensions times a simplex of k
    rows = []
    for i in range(n - k):
        e = np.eye(n)[i]
        rows += [e, -e]
    if k:
        rows += [-np.eye(n)[i] for i in range(n - k, n)]
        rows += [np.eye(n)[n - k:].sum(axis=0)]
    missing = T.choice((None, T.int(0, len(rows) - 1),
                        T.int(0, len(rows) - 1)))
    s = T.choice((1., -1.))
    P = s * np.array([r for i, r in enumerate(rows) if i != missing]).reshape(
        -1, n)
    if P.shape[0] == 0:
        T.reject("no facet left")
    P = P * T.array((P.shape[0], 1), .2, 2.)
    P = P[np.argsort(T.array((P.shape[0], )))]
    T.nontrivial(n > 1)
    T.label("bounded" if missing is None else "unbounded")
    T.check(bool(utils.is_polyhedron_bounded(gen.t(P))) == (missing is None),
            "boundedness: a polytope or one without a facet", P=P,
            missing=None if missing is None else s * rows[missing])


@case(quick=200, thorough=6000, shards=2, weight=4, large=20)
def projection(T):
    n = T.span(1, 4, 9, 14)
    lo, up = gen.box(T, n)
    m = T.span(1, 4, 9, 14)
    A = T.array((m, n))
    x0 = gen.inside(T, lo, up)
    b = A @ x0 + T.array((m, ), .05, 1.)
    x = T.array((n, ), -5., 5.)
    y = to_np(utils.project_to_polyhedron(gen.t(A), gen.t(b), gen.t(x)))
    T.check(y.shape == (n, ), "shape", got=y)
    if np.all(A @ x <= b):
        T.close(y, x, "a point of the polyhedron was moved", 0, 0)
        return
    T.nontrivial()
    T.leq(A @ y, b, "projection is outside the polyhedron", 1e-4, x=x)
    r = T.rng()
    d = np.linalg.norm(x - y)
    # optimality: no point of the polyhedron is closer
    for k in range(30):
        z = x0 + r.normal(size=n) * .2 * (k % 5)
        step = 1.
        while np.any(A @ z > b):
            z = x0 + (z - x0) * .7
        T.check((x - y) @ (z - y) <= 1e-3 * (1 + d * d),
                "projection is not the closest point", x=x, projection=y,
                better_direction=z - y)


# -- cuts ---------------------------------------------------------------

def unit(T, n):
    w = T.array((n, ), -2., 2.)
    lo, up = gen.box(T, n)
    b = T.float(-1., 1.)
    wl = np.maximum(w, 0) @ lo + np.minimum(w, 0) @ up + b
    wu = np.maximum(w, 0) @ up + np.minimum(w, 0) @ lo + b
    if not (wl < -.01 and wu > .01):
        # shift the bias so that the unit changes sides
        if wu - wl < .1:
            T.reject("flat unit")
        b += -(wl + (wu - wl) * T.float(.1, .9))
        wl = np.maximum(w, 0) @ lo + np.minimum(w, 0) @ up + b
        wu = np.maximum(w, 0) @ up + np.minimum(w, 0) @ lo + b
    c = T.choice((0., .1, .5, .9))
    return c, w, b, lo, up, wl, wu


def formula(c, w, b, lo, up, idx):
    """x_coeff, binary_coeff, constant of the documented cut"""
    Lb = np.where(w >= 0, lo, up)
    Ub = np.where(w >= 0, up, lo)
    m = np.zeros(len(w), dtype=bool)
    m[list(idx)] = True
    xc = np.where(m, w, c * w)
    const = b * c - (1 - c) * np.sum((w * Lb)[m])
    bc = b * (1 - c) + (1 - c) * np.sum((w * Lb)[m]) + \
        (1 - c) * np.sum((w * Ub)[~m])
    return xc, bc, const


def best_cut(c, w, b, lo, up, x, beta):
    """the least right-hand side over all index sets (the sum splits by
    index)"""
    Lb = np.where(w >= 0, lo, up)
    Ub = np.where(w >= 0, up, lo)
    member = w * x - (1 - c) * w * Lb * (1 - beta)
    other = c * w * x + (1 - c) * w * Ub * beta
    return b * c + b * (1 - c) * beta + np.minimum(member, other).sum()


def is_formula(c, w, b, lo, up, cut):
    """the cut belongs to some index set"""
    d = np.abs(cut[0] - w) - np.abs(cut[0] - c * w)
    s = [i for i in range(len(w)) if d[i] < 0]
    return np.allclose(np.concatenate([np.ravel(v) for v in cut]),
                       np.concatenate([np.ravel(v) for v in
                                       formula(c, w, b, lo, up, s)]),
                       1e-8, 1e-8)


def subsets(n):
    return [s for r in range(n + 1)
            for s in itertools.combinations(range(n), r)]


def valid(T, c, w, b, lo, up, cut, what, **info):
    """y <= xc x + bc beta + const at every genuine (x, y, beta): the slack
    is minimized by LP on both sides of the unit"""
    xc, bc, const = [to_np(v) for v in cut]
    xc = np.ravel(xc)
    for beta in (0., 1.):
        s = 1. if beta else -1.
        slope = 1. if beta else c
        # minimize xc x + bc beta + const - slope (w x + b), s (w x + b) >= 0
        st, o, x = mipo.lp(xc - slope * w, (-s * w)[None], [-np.inf],
                           [s * b], lo, up)
        if st == "infeasible":
            continue
        v = o + float(bc) * beta + float(const) - slope * b
        T.check(v >= -1e-6 * (1 + np.abs(w).sum() * 5),
                what + " cuts off a genuine point", x=x, beta=beta,
                slack=v, **info)


@case(quick=300, thorough=10000, shards=2, weight=4, large=15)
def unit_cuts(T):
    n = T.span(1, 4, 8, 10)
    c, w, b, lo, up, wl, wu = unit(T, n)
    T.nontrivial()
    tw, tb, tl, tu = gen.t(w), gen.t(b), gen.t(lo), gen.t(up)
    idx = set(i for i in range(n) if T.bool())
    got = mip_utils.strengthen_relu_mip_w_indices(c, tw, tb, tl, tu, idx)
    for g, e in zip(got, formula(c, w, b, lo, up, idx)):
        T.close(g, e, "coefficients of the cut", 1e-9, indices=idx)
    valid(T, c, w, b, lo, up, got, "cut", indices=idx)
    # the index set found for a relaxed point is the best one
    xh = gen.inside(T, lo, up)
    bh = T.float(0., 1., (0., 1.))
    best = mip_utils.find_index_set_to_strengthen(tw, tl, tu, gen.t(xh), bh)
    f = formula(c, w, b, lo, up, best)
    low = best_cut(c, w, b, lo, up, xh, bh)
    if not T.large:
        val = [(lambda f: f[0] @ xh + f[1] * bh + f[2])(
            formula(c, w, b, lo, up, s)) for s in subsets(n)]
        assert abs(min(val) - low) < 1e-9
    T.check(f[0] @ xh + f[1] * bh + f[2] <= low + 1e-9,
            "the index set does not separate the point best", got=best,
            x=xh, beta=bh)
    # all cuts / selected cuts of a unit
    sel = T.bool()
    ml, mu = mip_utils.compute_range_by_IA(tw[None], tb[None], tl, tu)
    f = T.choice((1., 1., .8))      # tighter bounds of the unit's input
    X, B, K = [to_np(v) for v in mip_utils.strengthen_relu_mip(
        c, tw, tb, tl, tu, ml[0] * f, mu[0] * f, sel)]
    T.check(X.shape == (len(B), n) and len(B) == len(K), "sizes of the cuts")
    T.label("selective" if sel else "all")
    some = range(len(B))
    if len(B) > 16:
        some = sorted(set(T.int(0, len(B) - 1) for _ in range(6)))
    for k in some:
        valid(T, c, w, b, lo, up, (X[k], B[k], K[k]), "cut of a unit")
    if not sel and T.large:
        key = lambda f: tuple(np.round(np.concatenate(
            [np.ravel(v) for v in f]), 6))
        T.check(len(B) == 2**n - 2, "number of cuts", got=len(B))
        for k in range(len(B)):
            T.check(is_formula(c, w, b, lo, up, (X[k], B[k], K[k])),
                    "a cut belongs to no index set")
        if np.abs(w).min() > 1e-3:
            T.check(len(set(key((X[k], B[k], K[k])) for k in range(len(B))))
                    == len(B), "an index set has two cuts")
    elif not sel:
        exp = [np.concatenate([np.ravel(v) for v in
                               formula(c, w, b, lo, up, s)])
               for s in subsets(n) if 0 < len(s) < n]
        have = [np.concatenate((X[k], [B[k], K[k]])) for k in range(len(B))]
        T.check(len(have) == len(exp) and all(
            any(np.allclose(h, e, 1e-9, 1e-9) for h in have) for e in exp),
            "not every proper non-empty index set has its cut",
            got=have, expected=exp)
    else:
        # some cut is selected if and only if one tightens the two big-M
        # inequalities at a vertex, at an end of beta's range there
        l2, u2 = float(ml[0]) * f, float(mu[0]) * f
        base = ((c * w, (1 - c) * u2, c * b),
                (w, (1 - c) * l2, b - (1 - c) * l2))
        gain = 0.
        near = False
        for v in itertools.product(*zip(lo, up)):
            v = np.array(v)
            z = w @ v + b
            near = near or min(abs(z - l2), abs(z - u2)) < 1e-9
            if f != 1. and not l2 <= z <= u2:
                continue
            y0 = max(z, c * z)
            b0 = max(0., (y0 - base[0][0] @ v - base[0][2]) / base[0][1])
            b1 = min(1., (y0 - base[1][0] @ v - base[1][2]) / base[1][1])
            for bh in (b0, b1):
                y = min(g[0] @ v + g[1] * bh + g[2] for g in base)
                gain = max(gain, y - best_cut(c, w, b, lo, up, v, bh))
        if not near or f == 1.:
            if gain > 1e-5:
                T.label("selected")
                T.check(len(B) > 0, "no cut is selected although one "
                        "tightens the formulation", gain=gain)
            if gain < 1e-7:
                T.check(len(B) == 0, "cuts are selected although none "
                        "tightens the formulation", got=(X, B, K))
        for k in range(len(B)):
            T.check(is_formula(c, w, b, lo, up, (X[k], B[k], K[k])),
                    "a selected cut is no facet of "
                    "the ideal formulation", cut=(X[k], B[k], K[k]))


@case(quick=300, thorough=10000, weight=3, large=25)
def cuts_at_points(T):
    n = T.span(1, 4, 9, 40)
    c, w, b, lo, up, wl, wu = unit(T, n)
    pts = []
    for _ in range(T.span(1, 3, 9, 20)):
        xh = gen.inside(T, lo, up)
        bh = T.float(0., 1., (0., 1.))
        y0 = max(c * (w @ xh + b), w @ xh + b)
        pts.append((xh, y0 + T.float(0., 1.5), bh))
    X, B, K = mip_utils.strengthen_relu_mip_given_pts(
        c, gen.t(w), gen.t(b), gen.t(lo), gen.t(up),
        [gen.t(p[0]) for p in pts], [gen.t(p[1]) for p in pts],
        [gen.t(p[2]) for p in pts])
    best = [best_cut(c, w, b, lo, up, p[0], p[2]) for p in pts]
    sure = [p[1] > v + 1e-7 for p, v in zip(pts, best)]
    maybe = [p[1] > v - 1e-7 for p, v in zip(pts, best)]
    T.nontrivial(any(sure))
    if X is None:
        T.check(not any(sure), "no cut for a point outside the convex hull",
                points=pts)
        return
    X, B, K = to_np(X), to_np(B), to_np(K)
    T.check(sum(sure) <= len(B) <= sum(maybe), "number of cuts",
            got=len(B), violated=sure)
    for k in range(len(B)):
        valid(T, c, w, b, lo, up, (X[k], B[k], K[k]), "cut")
    for p, s, v in zip(pts, sure, best):
        if s:
            T.check(np.min(X @ p[0] + B * p[2] + K) <= v + 1e-7,
                    "a relaxed point is not cut off by its best cut",
                    point=p)


def genuine(net, xs):
    """rows (x, post, beta) of the inputs"""
    out = []
    for x in xs:
        pre, post, _ = net.layers(x)
        if np.abs(np.concatenate(pre)).min() < 1e-5:
            continue        # both sides describe the input
        out.append(np.concatenate((x, np.concatenate(post),
                                   np.concatenate(pre) > 0)))
    return out


@case(quick=200, thorough=6000, shards=4, weight=15, large=12)
def network_cuts(T):
    n_in = T.int(1, 3)
    net = gen.net(T, n_in, 1, max_hidden=3)
    lo, up = gen.box(T, n_in)
    free = relu_to_optimization.ReLUFreePattern(net.torch, gen.DT)
    c = free.output_constraint(gen.t(lo), gen.t(up),
                               mip_utils.PropagateBoundsMethod.IA)
    st = mipo.Set(c)
    u = net.num_units
    # relaxed points: optimum of the relaxation in a random direction, or
    # any point of the boxes
    sl = np.concatenate((lo, to_np(c.relu_output_lo)))
    su = np.concatenate((up, to_np(c.relu_output_up)))
    r = T.rng()
    if T.int(0, 2):
        s, o, z = st.opt(r.normal(size=st.n), relax=True)
        T.check(s == "optimal", "relaxation: " + s)
    else:
        z = np.concatenate((sl + (su - sl) * r.random(n_in + u),
                            r.random(u)))
    li, be = z[:n_in + u], z[n_in + u:]
    res = free.strengthen_mip_at_point((gen.t(li), gen.t(be)), gen.t(sl),
                                       gen.t(su))
    # brute force: which units have a violated cut
    viol, viol_maybe = 0, 0
    off = 0
    k = 0
    for i, h in enumerate(net.hidden):
        d = net.Ws[i].shape[1]
        zi = li[off:off + d]
        for j in range(h):
            y = li[n_in + k]
            best = best_cut(net.c(i), net.Ws[i][j], net.b(i)[j],
                            sl[off:off + d], su[off:off + d], zi, be[k])
            viol += y > best + 1e-8
            viol_maybe += y > best - 1e-8
            k += 1
        off += d
    T.nontrivial(viol > 0)
    T.label(f"cuts={int(viol)}")
    if res[0] is None:
        T.check(viol == 0 and all(v is None for v in res),
                "no cut although a unit is outside its convex hull")
        return
    A = np.hstack([to_np(v) for v in res[:3]])
    rhs = np.ravel(to_np(res[3]))
    T.check(A.shape == (len(rhs), st.n), "sizes of the cuts", got=A.shape)
    T.check(viol <= len(rhs) <= viol_maybe, "number of cuts", got=len(rhs),
            expected=viol)
    T.check(np.all(A @ z > rhs - 1e-9), "a cut does not cut off the point")
    pts = genuine(net, gen.cloud(T, lo, up, 60))
    for p in pts:
        sc = 1e-7 * (1 + np.abs(p).max() * np.abs(A).max())
        T.leq(A @ p, rhs, "a cut removes a genuine input/activation pair",
              sc, point=p)
    # exact: no solution of the encoding violates a cut
    k = T.int(0, len(rhs) - 1)
    s, o, zz = st.opt(-A[k])
    T.check(s == "optimal" and -o <= rhs[k] + 1e-6 * (1 + abs(rhs[k])),
            "a cut removes a genuine input/activation pair", point=zz,
            status=s)
    net.unchanged(T)


@case(quick=80, thorough=2500, shards=4, weight=40, large=6)
def cuts_at_solution(T):
    """rounds of solving the relaxation of a program and strengthening"""
    n_in = T.int(1, 3)
    net = gen.net(T, n_in, 1, max_hidden=2)
    lo, up = gen.box(T, n_in)
    free = relu_to_optimization.ReLUFreePattern(net.torch, gen.DT)
    c = free.output_constraint(gen.t(lo), gen.t(up),
                               T.choice((mip_utils.PropagateBoundsMethod.IA,
                                         mip_utils.PropagateBoundsMethod.LP)))
    prog = gurobi_torch_mip.GurobiTorchMILP(gen.DT)
    x = prog.addVars(n_in, lb=-gurobipy.GRB.INFINITY,
                     vtype=gurobipy.GRB.CONTINUOUS)
    s, b = prog.add_mixed_integer_linear_constraints(
        c, x, None, "s", "b", "i", "e", "o",
        binary_var_type=gurobi_torch_mip.BINARYRELAX)
    sense = T.choice((gurobipy.GRB.MAXIMIZE, gurobipy.GRB.MINIMIZE))
    wx = T.array((n_in, ))
    prog.setObjective([c.Aout_slack.reshape((-1, )), gen.t(wx)], [s, x],
                      constant=c.Cout.reshape(()), sense=sense)
    sg = 1. if sense == gurobipy.GRB.MAXIMIZE else -1.
    st = mipo.Set(c)
    cc = np.zeros(st.n)
    cc += st.C[0]
    cc[:n_in] += wx
    s1, o1, z1 = st.opt(-sg * cc)
    T.check(s1 == "optimal", "reference: " + s1)
    exact = sg * -o1 + st.c0[0]
    prev = None
    pts = genuine(net, gen.cloud(T, lo, up, 20))
    sc = 1e-6 * (1 + abs(exact))
    for it in range(3):
        prog.gurobi_model.optimize()
        T.check(prog.gurobi_model.status == gurobipy.GRB.Status.OPTIMAL,
                "strengthened relaxation is not solved")
        v = prog.gurobi_model.ObjVal
        T.check(sg * v >= sg * exact - sc, "strengthened relaxation cuts off "
                "the optimum", relaxed=v, exact=exact)
        if prev is not None:
            T.check(sg * v <= sg * prev + sc, "strengthening loosened the "
                    "relaxation", now=v, before=prev)
            T.nontrivial(abs(v - prev) > 1e-5)
        prev = v
        n0 = prog.gurobi_model.NumConstrs
        point = [v.x for v in x + s + b]
        free.strengthen_relu_mip_at_solution(prog, x, s, b, c)
        prog.gurobi_model.update()
        T.label(f"added={prog.gurobi_model.NumConstrs - n0}")
        # the solution is cut off if a facet of some unit does so
        lin = np.array(point[:n_in + len(s)])
        llo = np.concatenate((lo, to_np(c.relu_output_lo)))
        lup = np.concatenate((up, to_np(c.relu_output_up)))
        worst, k, j0 = -1., 0, 0
        for i, W in enumerate(net.Ws[:-1]):
            bias = net.b(i)
            m = W.shape[1]
            I = slice(j0, j0 + m)
            for w, d in zip(W, bias):
                y, beta = lin[n_in + k], point[n_in + len(s) + k]
                worst = max(worst, y - best_cut(net.c(i), w, d, llo[I], lup[I],
                                                lin[I], beta))
                k += 1
            j0 += m
        if worst > 1e-4:
            T.label("violated")
            vs = x + s + b
            old = [(v.lb, v.ub) for v in vs]
            for v, val in zip(vs, point):
                v.lb, v.ub = val - 1e-7, val + 1e-7
            prog.gurobi_model.optimize()
            T.check(prog.gurobi_model.status != gurobipy.GRB.Status.OPTIMAL,
                    "the solution violates a facet and is not cut off",
                    point=point, by=worst)
            for v, (l, u) in zip(vs, old):
                v.lb, v.ub = l, u
    m = prog.gurobi_model
    for p in pts[:4]:
        for var, val in zip(x + s + b, p):
            var.lb = var.ub = val
        m.setObjective(gurobipy.LinExpr([0.], [x[0]]), gurobipy.GRB.MINIMIZE)
        m.setParam("FeasibilityTol", 1e-6)
        m.optimize()
        T.check(m.status == gurobipy.GRB.Status.OPTIMAL, "strengthened "
                "program removes a genuine input/activation pair", point=p)
    net.unchanged(T)
