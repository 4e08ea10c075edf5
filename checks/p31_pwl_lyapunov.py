# TECHNIQUE: property-based testing (Hypothesis): generated cell decompositions (intervals, triangulations, grids of boxes), piecewise-affine dynamics and rates; the returned function is sampled in every cell against the definition and the optimal cost is compared with an independently written linear program
# NOTE: cvxpy's GUROBI interface is redirected to an installed solver; statements hold up to its tolerance (1e-5 of the scale).
"""P31 Piecewise-linear Lyapunov synthesis."""
import itertools

import numpy as np
from scipy.optimize import linprog
from scipy.spatial import Delaunay

import cvxpatch
from pbt import case
import neural_network_lyapunov.simple_pwl_lyapunov as pwl

cvxpatch.install()

PROPERTY = "P31"
RULE = ("the optimal cost is zero with at least two cells (for the cost "
        "comparison: or the cost is positive with at least two cells)")
ASSUMPTIONS = ["cvxpy with an installed LP solver"]


class Cell:
    """vertices V (k x n), dynamics A, g"""


def clip(poly, j, v, side):
    """part of a convex polygon (ordered) / interval with side*(x_j - v) >= 0"""
    out = []
    k = len(poly)
    if k == 1:
        return poly if side * (poly[0][j] - v) >= 0 else []
    for a, b in zip(poly, poly[1:] + poly[:1]):
        da, db = side * (a[j] - v), side * (b[j] - v)
        if da >= 0:
            out.append(a)
        if da * db < 0:
            t = da / (da - db)
            p = a + t * (b - a)
            p[j] = v
            out.append(p)
    return out


def order(V):
    c = V.mean(axis=0)
    return V[np.argsort(np.arctan2(V[:, 1] - c[1], V[:, 0] - c[0]))]


def cells(T):
    """(cells, shared faces [(i, j, vertices)], x*, orthant pieces
    [(i, vertices, signs)])"""
    n = T.int(1, 3)
    xs = np.zeros(n) if T.bool() else T.array((n, ), -1., 1., True)
    C, faces = [], []
    tri = n == 2 and T.bool()
    if tri:
        pts = [xs + np.array(d) * s for d, s in zip(
            ((1., .1), (-.1, 1.), (-1., -.2), (.2, -1.)),
            T.floats(4, .5, 2.))]
        for _ in range(T.int(0, 3)):
            pts.append(xs + T.array((2, ), -1., 1.))
        pts = np.array(pts)
        if T.int(0, 2):
            # the equilibrium is a vertex
            pts = np.vstack((pts, xs))
        d = Delaunay(pts)
        for s in d.simplices:
            c = Cell()
            c.V = pts[s]
            if abs(np.linalg.det(c.V[1:] - c.V[0])) < .02:
                T.reject("a flat triangle")
            c.ids = set(s)
            C.append(c)
        for i, j in itertools.combinations(range(len(C)), 2):
            k = sorted(C[i].ids & C[j].ids)
            if len(k) == 2:
                faces.append((i, j, pts[k]))
    else:
        cuts = []
        for j in range(n):
            c = {round(xs[j] - T.choice((.5, 1., 2.)), 6),
                 round(xs[j] + T.choice((.5, 1., 2.)), 6)}
            if T.int(0, 2):
                c.add(xs[j])
            for _ in range(T.int(0, 2 if n == 1 else 1 if n == 2 else 0)):
                c.add(round(xs[j] + T.choice((-.25, .25, -.4, .4)), 6))
            cuts.append(sorted(c))
        idx = list(itertools.product(*[range(len(c) - 1) for c in cuts]))
        for ii in idx:
            c = Cell()
            c.lo = np.array([cuts[j][i] for j, i in enumerate(ii)])
            c.up = np.array([cuts[j][i + 1] for j, i in enumerate(ii)])
            c.V = corners(c.lo, c.up)
            C.append(c)
        for a, b in itertools.combinations(range(len(idx)), 2):
            df = np.array(idx[b]) - np.array(idx[a])
            if np.abs(df).sum() == 1:
                lo = np.maximum(C[a].lo, C[b].lo)
                up = np.minimum(C[a].up, C[b].up)
                faces.append((a, b, np.unique(corners(lo, up), axis=0)))
    pieces = []
    for i, c in enumerate(C):
        for sg in itertools.product((-1, 1), repeat=n):
            if tri:
                P = list(order(c.V))
                for j in range(2):
                    P = clip(P, j, xs[j], sg[j])
                P = np.array(P)
                if len(P) == 0:
                    continue
            else:
                lo, up = c.lo.copy(), c.up.copy()
                for j in range(n):
                    if sg[j] > 0:
                        lo[j] = max(lo[j], xs[j])
                    else:
                        up[j] = min(up[j], xs[j])
                if np.any(lo > up):
                    continue
                P = np.unique(corners(lo, up), axis=0)
            pieces.append((i, P, np.array(sg)))
    return n, xs, C, faces, pieces


def corners(lo, up):
    return np.array(list(itertools.product(*zip(lo, up))))


def has(c, x):
    """x in the cell (vertices)"""
    k = len(c.V)
    r = linprog(np.zeros(k), A_eq=np.vstack((c.V.T, np.ones(k))),
                b_eq=np.concatenate((x, [1.])), bounds=(0, None))
    return r.status == 0


def dynamics(T, n, xs, C):
    """affine dynamics with x* as an equilibrium of the cells that contain
    it; decreasing, or anything"""
    stable = T.int(0, 3) > 0
    common = T.array((n, n), -1., 1.) * .3 - T.choice((.5, 1., 2.)) * \
        np.eye(n)
    for c in C:
        c.home = has(c, xs)
        if stable and T.int(0, 4):
            c.A = common * T.choice((1., .5, 2.))
        elif stable:
            c.A = common + T.array((n, n), -1., 1.) * .2
        else:
            c.A = T.array((n, n), -1.5, 1.5)
        c.g = -c.A @ xs
        if not c.home and T.int(0, 2) == 0:
            c.g = c.g + T.array((n, ), -.5, .5) * .3


@case(quick=300, thorough=15000, shards=4, weight=12)
def synthesis(T):
    n, xs, C, faces, pieces = cells(T)
    dynamics(T, n, xs, C)
    homes = [i for i, c in enumerate(C) if c.home]
    if not homes:
        T.reject("no cell contains the equilibrium")
    home = homes[T.int(0, len(homes) - 1)]
    e1, e2 = T.choice((.1, .5, 1., .01)), T.choice((.01, .1, .5))
    w = T.choice((.5, .3, .9))
    T.note(n=n, cells=len(C), faces=len(faces), eq=list(xs), eps=(e1, e2),
           weight=w)
    D = pwl.SimplePWLLyapunov(n, len(C), e1, e2, xs, home)
    for i, c in enumerate(C):
        D.add_lyapunov_derivative_in_mode(i, c.V, c.A, c.g)
    for i, V, s in pieces:
        D.add_lyapunov_positivity_in_mode(i, V, s)
    for i, j, V in faces:
        if T.bool():
            i, j = j, i
        D.add_continuity_constraint(i, j, V)
    cv, dv, s1, s2 = D.solve(w)
    T.check(cv is not None, "nothing is returned")
    T.check(cv.shape == (n, len(C)) and dv.shape == (len(C), ), "shapes",
            got=(cv.shape, dv.shape))
    # the program again: variables c (n per cell), d, s1, s2
    N = (n + 1) * len(C) + 2

    def row(i, x, h=1.):
        r = np.zeros(N)
        r[i * n:(i + 1) * n] = x
        r[n * len(C) + i] = h
        return r
    U, u, E, e = [], [], [], []
    for i, c in enumerate(C):
        for x in c.V:
            r = row(i, c.A @ x + c.g + e2 * x, e2)
            r[-2] = -1.
            U.append(r)
            u.append(0.)
    for i, V, s in pieces:
        for x in V:
            r = -row(i, x)
            r[-1] = -1.
            U.append(r)
            u.append(-e1 * np.abs(x - xs).sum())
    E.append(row(home, xs))
    e.append(0.)
    for i, j, V in faces:
        for x in V:
            E.append(row(i, x) - row(j, x))
            e.append(0.)
    cost = np.zeros(N)
    cost[-2:] = 1 - w, w
    ref = linprog(cost, A_ub=np.array(U), b_ub=u, A_eq=np.array(E), b_eq=e,
                  bounds=[(None, None)] * (N - 2) + [(0, None)] * 2)
    T.check(ref.status == 0, "reference")
    got = (1 - w) * s1 + w * s2
    # (tolerance of the solver, for the size of the coefficients)
    size = 1 + np.abs(cv).max() + np.abs(dv).max()
    tol = 2e-6 * size * (1 + max(np.abs(c.A).max() + np.abs(c.g).max()
                                 for c in C))
    T.close(got, ref.fun, "optimal cost", tol, 1e-5, cells=[
        (c.V, c.A, c.g) for c in C] if len(C) < 3 else len(C))
    zero = got <= 1e-7
    T.label("zero" if zero else "positive", f"{n}-dimensional",
            "triangles" if not hasattr(C[0], "lo") else "boxes")
    T.nontrivial(len(C) > 1)
    if zero:
        s1 = s2 = 0.
    T.check(s1 >= -tol and s2 >= -tol, "slack", got=(s1, s2))
    # the function
    rng = T.rng()

    def val(i, x):
        return cv[:, i] @ x + dv[i]
    for i, c in enumerate(C):
        if c.home:
            T.close(val(i, xs), 0., "value at the equilibrium", tol, 0,
                    cell=i)
        W = rng.dirichlet(np.ones(len(c.V)), 8)
        W = np.vstack((W, np.eye(len(c.V))))
        for m in W:
            x = m @ c.V
            v = val(i, x)
            T.leq(e1 * np.abs(x - xs).sum() - s2, v, "positivity", tol,
                  cell=i, x=x)
            T.leq(cv[:, i] @ (c.A @ x + c.g) + e2 * v, s1, "decrease", tol,
                  cell=i, x=x)
    for i, j, V in faces:
        for m in np.vstack((rng.dirichlet(np.ones(len(V)), 3),
                            np.eye(len(V)))):
            x = m @ V
            T.close(val(i, x), val(j, x), "continuity", tol, 0,
                    cells=(i, j), x=x)


@case(quick=250, thorough=10000, shards=4, weight=6)
def admitted(T):
    """the constraints admit exactly the functions and slacks that meet the
    conditions at every vertex"""
    n, xs, C, faces, pieces = cells(T)
    dynamics(T, n, xs, C)
    homes = [i for i, c in enumerate(C) if c.home]
    if not homes:
        T.reject("no cell contains the equilibrium")
    home = homes[T.int(0, len(homes) - 1)]
    e1, e2 = T.choice((.1, .5, 1.)), T.choice((.01, .1, .5))
    D = pwl.SimplePWLLyapunov(n, len(C), e1, e2, xs, home)
    for i, c in enumerate(C):
        D.add_lyapunov_derivative_in_mode(i, c.V, c.A, c.g)
    for i, V, s in pieces:
        D.add_lyapunov_positivity_in_mode(i, V, s)
    # (a random part of the faces)
    faces = [f for f in faces if T.int(0, 3)]
    for i, j, V in faces:
        D.add_continuity_constraint(i, j, V)
    if not all(hasattr(D, a) for a in ("constraints", "c", "d", "s1", "s2")):
        T.reject("the program is not accessible")
    E = []

    def row(i, x):
        r = np.zeros((n + 1) * len(C))
        r[i * (n + 1):(i + 1) * (n + 1)] = np.append(x, 1.)
        return r
    E.append(row(home, xs))
    for i, j, V in faces:
        E.extend(row(i, x) - row(j, x) for x in V)
    E = np.array(E)
    rng = T.rng()
    _, sv, vt = np.linalg.svd(E)
    null = vt[np.sum(sv > 1e-9):]
    kinds = set()
    for _ in range(6):
        f = rng.normal(size=len(null)) @ null * 2.
        what = rng.choice(("fine", "fine", "jump", "s1", "s2"))
        if what == "jump":
            # break one face only (or the value at the equilibrium)
            k = rng.integers(len(E))
            rest = np.delete(E, k, 0)
            s = np.linalg.svd(rest)[1:] if len(rest) else (
                np.zeros(0), np.eye(E.shape[1]))
            free = s[1][np.sum(s[0] > 1e-9):]
            f = f + (rng.normal(size=len(free)) @ free if rng.random() < .7
                     else rng.normal(size=E.shape[1]))
        g = f.reshape(len(C), n + 1)
        c_, d_ = g[:, :n], g[:, n]
        need1 = max(0., max(c_[i] @ (c.A @ x + c.g) + e2 * (c_[i] @ x + d_[i])
                            for i, c in enumerate(C) for x in c.V))
        need2 = max(0., max(e1 * np.abs(x - xs).sum() - c_[i] @ x - d_[i]
                            for i, V, s in pieces for x in V))
        gap = rng.choice((0., .05, .5))
        v1 = need1 + (-.05 if what == "s1" else gap + 1e-9)
        v2 = need2 + (-.05 if what == "s2" else gap + 1e-9)
        jump = np.abs(E @ f).max()
        D.c.value, D.d.value = c_.T.copy(), d_.copy()
        D.s1.value, D.s2.value = np.array([v1]), np.array([v2])
        bad = max(float(np.max(k.violation())) for k in D.constraints)
        expect = max(jump, need1 - v1, need2 - v2)
        if 1e-6 < expect < 1e-3:
            continue
        kinds.add(what)
        T.check((bad > 1e-6) == (expect > 1e-6), "a function is %s" % (
            "rejected" if bad > 1e-6 else "admitted"), violation=bad,
            expected=expect, kind=what, jump=jump, slack=(v1, v2),
            needed=(need1, need2))
    T.label(*kinds, f"{n}-dimensional")
    T.nontrivial(len(kinds) > 1)


@case(quick=40, thorough=500)
def wrong_signs(T):
    """pieces that are not in the stated orthant are refused"""
    n = T.int(1, 3)
    xs = T.array((n, ), -1., 1.)
    D = pwl.SimplePWLLyapunov(n, 1, .1, .1, xs, 0)
    s = np.array([T.choice((-1, 1)) for _ in range(n)])
    V = xs + s * np.abs(T.array((T.int(1, 4), n), .1, 1.))
    D.add_lyapunov_positivity_in_mode(0, V, s)
    T.nontrivial(True)
    j = T.int(0, n - 1)
    bad = s.copy()
    bad[j] = T.choice((-s[j], 0))
    try:
        D.add_lyapunov_positivity_in_mode(0, V, bad)
    except Exception:
        return
    T.fail("wrong signs are accepted", signs=bad, vertices=V, eq=xs)
