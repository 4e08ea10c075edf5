# TECHNIQUE: property-based testing (Hypothesis): generated networks, inputs (on and off kinks) and patterns against a numpy reference of the affine pieces
# NOTE: Kinks are hit exactly by using dyadic weights and solving biases for zero pre-activations; up to 3 hidden layers of width 4 and 6 simultaneous zeros.
import itertools
import numpy as np
import torch
import neural_network_lyapunov.relu_to_optimization as relu_to_optimization
import neural_network_lyapunov.utils as utils
from pbt import case, to_np
import gen

PROPERTY = "P02"
SCALE = 4
RULE = ("nontrivial: at least one unit is inactive and one active (pattern "
        "cases), or at least one pre-activation is exactly zero (kink cases)")
ASSUMPTIONS = ["a unit whose pre-activation is within 1e-9 of zero may be "
               "reported on either side"]


def dyadic(T, shape, hi=12, k=8.):
    import hypothesis.strategies as st
    n = int(np.prod(shape))
    if T.bool():
        v = T.draw(st.lists(st.integers(-hi, hi), min_size=n, max_size=n))
    else:
        v = T.rng().integers(-hi, hi + 1, n)
    return np.array(v, dtype=float).reshape(shape) / k


def kink_net(T, n_in, n_out, max_hidden=3, max_width=4, max_zero=6):
    """network with dyadic data, and an input at which chosen units are
    exactly zero (all sums are exact in floating point)."""
    h = T.int(1, max_hidden)
    sl = [T.choice((None, .25, .5))] * h
    if h > 1 and T.bool():
        sl = [T.choice((None, .25, .5)) for _ in range(h)]
    dims = [n_in] + [T.int(1, max_width) for _ in range(h)] + [n_out]
    x = dyadic(T, (n_in, ))
    Ws, bs = [], []
    z = x
    zeros = 0
    for i in range(h + 1):
        W = dyadic(T, (dims[i + 1], dims[i]))
        b = dyadic(T, (dims[i + 1], ))
        if i < h:
            for j in range(dims[i + 1]):
                if zeros < max_zero and T.int(0, 2) == 0:
                    b[j] = -(W[j] @ z)
            a = W @ z + b
            zeros += int(np.sum(a == 0))
            z = np.where(a > 0, a, (0. if sl[i] is None else sl[i]) * a)
        Ws.append(W)
        bs.append(b)
    return gen.Net(Ws, bs, sl), x, zeros


def flat(pattern):
    return tuple(bool(v) for layer in pattern for v in layer)


def shape_ok(T, net, pattern):
    T.check([len(p) for p in pattern] == net.hidden,
            "pattern does not have one entry per unit", pattern=pattern)


def consistent(net, x, pattern, tol):
    """True / False / None (undecided within tol): x has this pattern"""
    res = True
    for a, p in zip(net.layers(x)[0], pattern):
        for v, on in zip(a, p):
            if abs(v) <= tol:
                if res is True:
                    res = None
            elif (v > 0) != bool(on):
                return False
    return res


def region(T, net, pattern, P, q, g, h, xs):
    """the polytope holds exactly the inputs with the pattern, and the affine
    map is the network's there"""
    n = 0
    for x in xs:
        slackness = to_np(P) @ x - to_np(q)[:, 0]
        inside = np.all(slackness <= 1e-9)
        clear_out = np.any(slackness > 1e-7)
        c = consistent(net, x, pattern, 1e-6)
        if c is True:
            T.check(inside, "an input with the pattern is outside the "
                    "reported polytope", x=x, pattern=pattern)
        elif c is False and consistent(net, x, pattern, 0.) is False:
            # (a violation at a deeper layer is measured on the piece of the
            # actual input, so only "inside" is decided by the polytope)
            T.check(not np.all(slackness <= -1e-6),
                    "an input without the pattern is inside the reported "
                    "polytope", x=x, pattern=pattern)
        if inside and not clear_out:
            n += 1
            T.close(to_np(g).T @ x + to_np(h)[:, 0], net(x),
                    "affine piece differs from the network in its polytope",
                    1e-6, 1e-7, x=x, pattern=pattern)
    return n


@case(quick=500, thorough=20000, shards=3, large=16)
def pattern_of_input(T):
    n_in, n_out = T.int(1, 3), T.int(1, 3)
    if T.bool():
        net, x, zeros = kink_net(T, n_in, n_out)
    else:
        net = gen.net(T, n_in, n_out, max_hidden=3)
        x = T.array((n_in, ), -2., 2.)
    pat = relu_to_optimization.ComputeReLUActivationPattern(
        net.torch, gen.t(x))
    shape_ok(T, net, pat)
    f = flat(pat)
    T.nontrivial(any(f) and not all(f))
    T.check(consistent(net, x, pat, 1e-9) is not False,
            "reported pattern is not the input's pattern", x=x, pattern=f,
            pre=np.concatenate(net.layers(x)[0]))
    g, h, P, q = relu_to_optimization.ReLUGivenActivationPattern(
        net.torch, n_in, pat, gen.DT)
    T.check(tuple(g.shape) == (n_in, n_out) and tuple(h.shape) == (n_out, 1),
            "shape of the affine piece", g=g, h=h)
    T.check(tuple(P.shape) == (net.num_units, n_in) and
            tuple(q.shape) == (net.num_units, 1), "shape of the polytope")
    T.close(to_np(g).T @ x + to_np(h)[:, 0], net(x),
            "affine piece differs from the network at the input", 1e-8, 1e-8)
    T.leq(to_np(P) @ x, to_np(q)[:, 0],
          "the input is outside its own polytope", 1e-8)
    r = T.rng()
    xs = [x + s * r.normal(size=n_in) for s in
          (1e-3, 1e-2, .05, .1, .3, .3, 1., 1., 2., 4.) for _ in range(3)]
    region(T, net, pat, P, q, g, h, xs)
    # the unit outputs and activations reported with it
    free = relu_to_optimization.ReLUFreePattern(net.torch, gen.DT)
    z, beta, out = free.compute_relu_unit_outputs_and_activation(gen.t(x))
    pre, post, y = net.layers(x)
    T.close(to_np(z), np.concatenate(post)[:, None], "unit outputs", 1e-9)
    T.close(np.ravel(to_np(out)), y, "network output", 1e-9)
    pre = np.concatenate(pre)
    sure = np.abs(pre) > 1e-9
    T.check(np.array_equal(to_np(beta)[sure, 0] == 1, pre[sure] > 0)
            and np.all((to_np(beta) == 0) | (to_np(beta) == 1)),
            "unit activations", beta=beta, pre=pre)
    # warm start marks the same units
    class B:
        start = None
    bs = [B() for _ in range(net.num_units)]
    relu_to_optimization.set_activation_warmstart(net.torch, bs, gen.t(x))
    T.check(all(b.start in (0, 1) for b in bs) and
            all((b.start == 1) == (p > 0) for b, p, s in
                zip(bs, pre, sure) if s), "warm start",
            start=[b.start for b in bs], pre=pre)
    net.unchanged(T)


@case(quick=400, thorough=15000, shards=2, large=12)
def given_pattern(T):
    """any pattern, also one that no input has"""
    n_in, n_out = T.int(1, 3), T.int(1, 3)
    net = gen.net(T, n_in, n_out, max_hidden=3)
    if T.bool():
        x = T.array((n_in, ), -2., 2.)
        bits = np.concatenate(net.layers(x)[0]) > 0
        if T.bool():
            k = T.int(0, len(bits) - 1)
            bits[k] = not bits[k]
    else:
        bits = np.array([T.bool() for _ in range(net.num_units)])
    T.nontrivial(bool(bits.any() and not bits.all()))
    pat = relu_to_optimization.relu_activation_binary_to_pattern(
        net.torch, bits.astype(float))
    shape_ok(T, net, pat)
    T.check(flat(pat) == tuple(bool(b) for b in bits),
            "binary vector to pattern", got=flat(pat), bits=bits)
    g, h, P, q = relu_to_optimization.ReLUGivenActivationPattern(
        net.torch, n_in, pat, gen.DT)
    G, g0, _ = net.affine(pat)
    T.close(to_np(g).T, G, "linear part of the piece", 1e-9)
    T.close(to_np(h)[:, 0], g0, "constant part of the piece", 1e-9)
    r = T.rng()
    xs = r.uniform(-3, 3, (40, n_in))
    # the polytope of a pattern: preactivations of the piece have its signs
    pre = net.affine(pat)[2]
    A = np.vstack([p[0] for p in pre])
    b = np.concatenate([p[1] for p in pre])
    for x in xs:
        v = A @ x + b
        want = np.all(np.where(bits, v, -v) >= 0)
        sl = to_np(P) @ x - to_np(q)[:, 0]
        if np.abs(v).min() > 1e-6:
            T.check(bool(np.all(sl <= 1e-9)) == bool(want),
                    "polytope of the pattern", x=x, pattern=flat(pat))
    T.label("nonempty" if region(T, net, pat, P, q, g, h, xs) else
            "no_sample_in_polytope")
    net.unchanged(T)


@case(quick=400, thorough=15000, shards=2, large=12)
def adjacent_patterns(T):
    n_in, n_out = T.int(1, 3), T.int(1, 2)
    net, x, zeros = kink_net(T, n_in, n_out)
    T.nontrivial(zeros > 0)
    T.label(f"zeros={zeros}")
    pats = relu_to_optimization.compute_all_relu_activation_patterns(
        net.torch, gen.t(x))
    for p in pats:
        shape_ok(T, net, p)
    got = [flat(p) for p in pats]
    pre = np.concatenate(net.layers(x)[0])
    exp = set(itertools.product(*[(True, ) if v > 0 else (False, ) if v < 0
                                  else (True, False) for v in pre]))
    T.check(len(got) == len(set(got)), "a pattern is listed twice", got=got)
    T.check(set(got) == exp, "listed patterns are not all sides of the zero "
            "units", got=sorted(got), expected=sorted(exp))
    for p in pats[:4]:
        g, h, P, q = relu_to_optimization.ReLUGivenActivationPattern(
            net.torch, n_in, p, gen.DT)
        T.close(to_np(g).T @ x + to_np(h)[:, 0], net(x),
                "an adjacent piece differs from the network at the kink",
                1e-9)
        T.leq(to_np(P) @ x, to_np(q)[:, 0],
              "the kink is outside an adjacent piece's polytope", 1e-9)
    net.unchanged(T)


def matrix_set(T, got, exp, what, **info):
    """equality as sets up to rounding"""
    for a, b, m in ((got, exp, "reports a gradient of no adjacent piece"),
                    (exp, got, "misses the gradient of an adjacent piece")):
        for x in a:
            if not any(np.allclose(x, y, 1e-8, 1e-9) for y in b):
                T.fail(f"{what} {m}", gradient=x, all=list(b), **info)


@case(quick=400, thorough=15000, shards=2, large=12)
def one_sided_gradients(T):
    n_in, n_out = T.int(1, 3), T.int(1, 3)
    kind = T.int(0, 2)
    if kind:
        net, x, zeros = kink_net(T, n_in, n_out)
        tol = 0. if kind == 1 else T.choice((1e-8, 1e-4))
    else:
        net = gen.net(T, n_in, n_out, max_hidden=3)
        x = T.array((n_in, ), -2., 2.)
        tol = T.choice((0., 1e-6, .05, .2, .5))
    pre = np.concatenate(net.layers(x)[0])
    amb = int(np.sum(np.abs(pre) <= tol))
    if kind != 1 and np.any((np.abs(np.abs(pre) - tol) < 1e-9)):
        T.reject("on the tolerance")
    if amb > 6:
        T.reject("too many zeros")
    T.nontrivial(amb > 0)
    T.label(f"ambiguous={amb}")
    args = {} if tol == 0. and T.bool() else dict(zero_tol=tol)
    got = to_np(utils.relu_network_gradient(net.torch, gen.t(x), **args))
    T.check(got.ndim == 3 and got.shape[1:] == (n_out, n_in), "shape",
            shape=got.shape)
    matrix_set(T, list(got), net.gradients(x, tol), "relu_network_gradient",
               x=x, tol=tol)
    net.unchanged(T)
