# TECHNIQUE: property-based testing (Hypothesis): generated networks, activation vectors, vectors and boxes; generated constraint tensors examined by an independent MILP oracle against the numpy gradient of the affine piece
# NOTE: At each generated (activation, vector) both extreme admitted products are computed; the optimization-based bounds are compared with an enumeration of all activation vectors.
import itertools
import numpy as np
import torch
import gurobipy
import neural_network_lyapunov.relu_to_optimization as relu_to_optimization
from pbt import case, to_np
from warm import warm
import gen
import mipo

PROPERTY = "P03"
SCALE = 4
RULE = ("nontrivial: the activation vector has both active and inactive "
        "units and the vector is not zero")
ASSUMPTIONS = ["tolerance 1e-5 relative on MILP optima"]


def patterns(net, bits):
    out, o = [], 0
    for h in net.hidden:
        out.append(np.asarray(bits[o:o + h], dtype=bool))
        o += h
    return out


def chain(net, act, y):
    """z_i and W_i z_i of the recursion"""
    z, wz = [np.asarray(y, float)], []
    for i, W in enumerate(net.Ws):
        wz.append(W @ z[-1])
        if i < len(net.hidden):
            z.append(np.where(act[i], 1., net.c(i)) * wz[-1])
    return z, wz


def draw_bits(T, net):
    if T.bool():
        return np.concatenate(net.layers(
            T.array((net.n_in, ), -2., 2.))[0]) > 0
    return np.array([T.bool() for _ in range(net.num_units)])


@case(quick=300, thorough=8000, shards=2, weight=5, large=12)
def linear_in_activation(T):
    n_in = T.int(1, 3)
    net = gen.net(T, n_in, 1, max_hidden=3, max_width=3, sl=None)
    free = relu_to_optimization.ReLUFreePattern(net.torch, gen.DT)
    warm(T, [net], free.output_gradient)
    M, B1, B2, d = free.output_gradient()
    na = int(np.prod(net.hidden))
    T.check(tuple(M.shape) == (na, n_in) and B1.shape[1] == na
            and B2.shape[1] == net.num_units, "shapes", M=M.shape,
            B1=B1.shape, B2=B2.shape)
    T.note(widths=net.hidden)
    M, B1, B2, d = to_np(M), to_np(B1), to_np(B2), np.ravel(to_np(d))
    w = np.resize(mipo.W, na) * (1 + .01 * np.arange(na))
    for _ in range(4):
        bits = draw_bits(T, net)
        act = patterns(net, bits)
        T.nontrivial(bool(bits.any() and not bits.all()))
        prod = np.zeros(na)
        for path in itertools.product(*[range(h) for h in net.hidden]):
            prod[free.compute_alpha_index(path)] = all(
                act[k][i] for k, i in enumerate(path))
        T.close(prod @ M, net.affine(act)[0][0], "linear-in-activation "
                "gradient", 1e-8, 1e-8, bits=bits)
        rhs = d - B2 @ bits.astype(float)
        T.leq(B1 @ prod, rhs, "the products of the activations are not "
              "admitted", 1e-9, bits=bits)
        for s in (1., -1.):
            st, o, a = mipo.solve(s * w, B1, np.full(len(rhs), -np.inf), rhs,
                                  np.zeros(na), np.ones(na),
                                  np.ones(na, dtype=bool))
            T.check(st == "optimal" and np.allclose(a, prod, 0, 1e-6),
                    "values other than the products of the activations are "
                    "admitted", bits=bits, got=a, expected=prod)
    idx = sorted(free.compute_alpha_index(p) for p in itertools.product(
        *[range(h) for h in net.hidden]))
    T.check(idx == list(range(na)), "path indices are not a bijection",
            got=idx)
    net.unchanged(T)


def contains(T, lo, up, v, what, **info):
    lo, up = to_np(lo), to_np(up)
    tol = 1e-6 * (1 + np.abs(v))
    if np.any(v < lo - tol) or np.any(v > up + tol):
        T.fail(what + " bound does not contain an attained value", lo=lo,
               up=up, value=v, **info)


@case(quick=400, thorough=12000, shards=4, weight=15, large=16)
def gradient_times_vector(T):
    n_in = T.int(1, 3)
    net = gen.net(T, n_in, T.int(1, 3), max_hidden=3)
    lo, up = gen.box(T, n_in, degenerate=True)
    free = relu_to_optimization.ReLUFreePattern(net.torch, gen.DT)
    warm(T, [net], lambda: free.output_gradient_times_vector(
        gen.t(lo - .1), gen.t(up + .2)),
         lambda: free.output_gradient_times_vector(gen.t(lo), gen.t(up)))
    c = free.output_gradient_times_vector(gen.t(lo), gen.t(up))
    net.unchanged(T)
    st = mipo.Set(c)
    T.check(st.ns == net.num_units and st.nb == net.num_units
            and st.ni == n_in, "sizes", sizes=(st.ni, st.ns, st.nb))
    for _ in range(3):
        bits = draw_bits(T, net)
        act = patterns(net, bits)
        y = gen.inside(T, lo, up)
        T.nontrivial(bool(bits.any() and not bits.all() and np.any(y)))
        z, wz = chain(net, act, y)
        fix = {st.ni + st.ns + k: float(b) for k, b in enumerate(bits)}
        with_bits(T, st, y, fix, wz[-1], "gradient times vector", bits)
        for k in range(len(z)):
            contains(T, c.z_lo[k], c.z_up[k], z[k], "slack")
        for k in range(len(wz)):
            contains(T, c.Wz_lo[k], c.Wz_up[k], wz[k], "product")
    bulk = T.rng()
    for k in range(40):
        y = lo + (up - lo) * bulk.random(n_in)
        bits = bulk.integers(0, 2, net.num_units)
        z, wz = chain(net, patterns(net, bits), y)
        for i in range(len(z)):
            contains(T, c.z_lo[i], c.z_up[i], z[i], "slack")
        for i in range(len(wz)):
            contains(T, c.Wz_lo[i], c.Wz_up[i], wz[i], "product")


def with_bits(T, st, y, fix, value, what, bits):
    value = np.ravel(value)
    w = np.resize(mipo.W, st.no)
    for s in (1., -1.):
        r, o, zz = st.opt(s * (w @ st.C), y, fix)
        if r != "optimal":
            T.fail(f"{what}: no value is admitted ({r})", y=y, bits=bits)
        if abs(s * o + w @ st.c0 - w @ value) > 1e-5 * (
                1 + np.abs(value).max()):
            T.fail(f"{what}: an output other than the gradient times the "
                   "vector is admitted", y=y, bits=bits, expected=value,
                   admitted=st.out(zz))


@case(quick=120, thorough=4000, shards=4, weight=40)
def optimized_bounds(T):
    """bounds from a program that restricts vector and activations"""
    n_in = T.int(1, 2)
    net = gen.net(T, n_in, T.int(1, 2), max_hidden=2, max_width=3)
    free = relu_to_optimization.ReLUFreePattern(net.torch, gen.DT)
    fn = getattr(free, "_compute_Wz_bounds_optimization", None)
    if fn is None:
        T.reject("no optimization based bounds")
    lo, up = gen.box(T, n_in)
    y0 = gen.inside(T, lo, up)
    a = T.array((n_in, ))
    rhs = float(a @ y0 + T.float(0., .5))
    bits0 = draw_bits(T, net)
    nfix = T.int(0, net.num_units)
    relaxed = T.int(0, 3) == 0
    prog = gurobipy.Model()
    y = [prog.addVar(lb=lo[i], ub=up[i]) for i in range(n_in)]
    beta = [prog.addVar(lb=0., ub=1.) if relaxed else
            prog.addVar(vtype=gurobipy.GRB.BINARY)
            for _ in range(net.num_units)]
    prog.update()
    prog.addConstr(gurobipy.LinExpr(list(a), y) <= rhs)
    for k in range(nfix):
        prog.addConstr(gurobipy.LinExpr([1.], [beta[k]]) == float(bits0[k]))
    prog.update()
    z_lo, z_up, Wz_lo, Wz_up, z = fn(prog, y, beta)
    T.check(len(z) == len(net.Ws), "slack variables")
    net.unchanged(T)
    # enumeration of all activation vectors; exact ranges by LP on y
    nl = len(net.Ws)
    ex = [[np.full(w.shape[0], s * np.inf) for w in net.Ws]
          for s in (1, -1)]
    exz = [[np.full(w.shape[1], s * np.inf) for w in net.Ws]
           for s in (1, -1)]
    free_units = net.num_units - nfix
    combos = [np.concatenate((bits0[:nfix], np.array(b, dtype=bool)))
              for b in itertools.product((False, True), repeat=free_units)]
    cache = {}

    def rng(row):
        key = tuple(np.round(row, 12))
        if key not in cache:
            r = []
            for s in (1., -1.):
                st_, o, _ = mipo.lp(s * row, a[None], [-np.inf], [rhs], lo,
                                    up)
                r.append(s * o)
            cache[key] = r
        return cache[key]
    for bits in combos:
        act = patterns(net, bits)
        G = np.eye(n_in)
        for i, W in enumerate(net.Ws):
            for j in range(W.shape[1]):
                l, u = rng(G[j])
                exz[0][i][j] = min(exz[0][i][j], l)
                exz[1][i][j] = max(exz[1][i][j], u)
            G = W @ G
            for j in range(W.shape[0]):
                l, u = rng(G[j])
                ex[0][i][j] = min(ex[0][i][j], l)
                ex[1][i][j] = max(ex[1][i][j], u)
            if i < nl - 1:
                G = np.where(act[i], 1., net.c(i))[:, None] * G
    T.nontrivial(free_units > 0 and nfix > 0)
    T.label("relaxed" if relaxed else "binary")
    for i in range(nl):
        for g_lo, g_up, e, what in ((Wz_lo[i], Wz_up[i], ex, "product"),
                                    (z_lo[i], z_up[i], exz, "slack")):
            sc = 1e-5 * (1 + np.abs(e[0][i]).max() + np.abs(e[1][i]).max())
            T.leq(to_np(g_lo), e[0][i], f"{what} lower bound cuts off an "
                  "attained value", sc, layer=i)
            T.leq(e[1][i], to_np(g_up), f"{what} upper bound cuts off an "
                  "attained value", sc, layer=i)
            if not relaxed:
                T.close(g_lo, e[0][i], f"{what} lower bound is not attained",
                        sc, 0, layer=i)
                T.close(g_up, e[1][i], f"{what} upper bound is not attained",
                        sc, 0, layer=i)
    c = free.output_gradient_times_vector_w_bounds(z_lo, z_up, Wz_lo, Wz_up)
    st = mipo.Set(c)
    bits = combos[T.int(0, len(combos) - 1)]
    fix = {st.ni + st.ns + k: float(b) for k, b in enumerate(bits)}
    with_bits(T, st, y0, fix, chain(net, patterns(net, bits), y0)[1][-1],
              "gradient times vector with optimized bounds", bits)
