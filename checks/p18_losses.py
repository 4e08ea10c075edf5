# TECHNIQUE: property-based testing (Hypothesis): generated sample sets (one sample, duplicates, samples at kinks and at the equilibrium), margins, weights and rates; losses compared with a numpy evaluation of their definition, and their gradients with finite differences of the loss
# NOTE: at points where the gradient of V is not unique the loss of a continuous-time system is required to lie between the values of the extreme gradients.
"""P18 Certificate losses on samples."""
import numpy as np
import torch

import gen
import lyap
import mipgrad
import p14_discrete_certificates as p14
import systems
from pbt import case, to_np
import warm
import neural_network_lyapunov.barrier as barrier
import neural_network_lyapunov.continuous_time_lyapunov as ctl
import neural_network_lyapunov.lyapunov as lyapunov

PROPERTY = "P18"
RULE = ("at least two samples (or a single one), a positive and, for several "
        "samples, a zero term in the sum")
ASSUMPTIONS = ["a weight is used with the mean only, as the code documents"]
CASES = []
E = lyapunov.ConvergenceEps
RED = ("mean", "max", "4norm")


def reduce_(h, how, w=None):
    if how == "mean":
        return (h if w is None else w * h).mean()
    return h.max() if how == "max" else np.sum(h**4)**.25


def batch(T, D, c=None, n=None):
    if n is None:
        n = T.count(1, 5) if T.large else T.choice((1, 1, 2, 3, 5))
    X = [gen.inside(T, D.lo, D.up) for _ in range(n)]
    if n > 1 and T.int(0, 5) == 0:
        X[-1] = X[0].copy()
        T.label("duplicate")
    if c is not None and T.int(0, 4) == 0:
        X[T.int(0, n - 1)] = c.xeq.copy()
        T.label("equilibrium")
    T.label(f"n={n}")
    return np.array(X)


def params(T, n, hybrid_cont=False):
    eps = T.float(0., 1.5, special=(0., .1, 1.))
    margin = T.float(0., .5, special=(0., 0., .1))
    red = "mean" if hybrid_cont else T.choice(RED)
    kw = {}
    if margin or T.bool():
        kw["margin"] = margin
    if red != "mean" or T.bool():
        kw["reduction"] = red
    w = None
    if red == "mean" and T.bool():
        w = T.array((n, ), 0., 3.)
        kw["weight"] = gen.t(w)
    elif T.bool() and red == "mean":
        kw["weight"] = None
    T.label(red, "weights" if w is not None else "no_weights")
    return eps, margin, red, w, kw


def judge(T, got, viol, margin, red, w, what, hi=None, **info):
    """viol: violation per sample (hi: largest ones when not unique)"""
    got = float(got.detach())
    lo = reduce_(np.maximum(viol + margin, 0.), red, w)
    up = lo if hi is None else reduce_(np.maximum(hi + margin, 0.), red, w)
    tol = 1e-8 * (1 + abs(up))
    T.check(lo - tol <= got <= up + tol, what, got=got, expected=(lo, up),
            reduction=red, margin=margin, weight=w, violations=viol, **info)
    v = viol + margin
    sat = np.all((v if hi is None else hi + margin) <= -1e-9)
    if sat:
        T.label("satisfied")
        T.check(got == 0., what + ": a loss although every sample meets the "
                "condition", got=got)
    elif np.any(v > 1e-6) and (w is None or np.all(w > 1e-6)):
        T.check(got > 0., what + ": no loss although a sample violates the "
                "condition", got=got, violations=v)
    T.nontrivial(np.any(v > 1e-6) and (len(v) == 1 or np.any(v < 0)))


def slope(T, nets, loss, what, program=False):
    """the gradient in the weights of torch modules, by central differences
    along one direction"""
    ps = [p for m in nets for p in m.parameters()]
    for p in ps:
        p.requires_grad_(True)
        p.grad = None
    rec = {k: [] for k in (0, 1, -1, 3, -3)}
    with mipgrad.recording(rec[0]):
        l0 = loss()
    g = torch.autograd.grad(l0, ps, allow_unused=True)
    r = np.random.default_rng(T.int(0, 2**20))
    d = [gen.t(r.normal(size=p.shape)) for p in ps]
    ana = sum(float((a * b).sum()) for a, b in zip(g, d) if a is not None)

    def at(k):
        with torch.no_grad():
            for p, b in zip(ps, d):
                p += k * h * b
        with mipgrad.recording(rec[k], rec[0]):
            v = float(loss().detach())
        with torch.no_grad():
            for p, b in zip(ps, d):
                p -= k * h * b
        return v
    h = 1e-6
    v0, vp, vm = float(l0.detach()), at(1), at(-1)
    vp2, vm2 = at(3), at(-3)
    l, r_ = (v0 - vm) / h, (vp - v0) / h
    l3, r3 = (v0 - vm2) / (3 * h), (vp2 - v0) / (3 * h)
    s = 1 + abs(l) + abs(r_)
    if max(abs(l - r_), abs(l3 - r_), abs(r3 - l)) > 1e-3 * s:
        T.label("kink")
        return
    if program and mipgrad.ambiguous(rec[0], rec[1], rec[-1], h):
        T.label("degenerate")
        return
    T.label("slope")
    T.check(abs(ana - (l + r_) / 2) <= 5e-3 * s, what + ": gradient in the "
            "network parameters", got=ana, expected=(l + r_) / 2)


def mods(*nets):
    return [n.torch for n in nets]


def draw(T, discrete=True):
    D = p14.dynamics(T)
    c = lyap.cert(T, D.lo, D.up, max_hidden=2)
    return D, c


@case(quick=900, thorough=30000, shards=2, weight=3, large=16)
def positivity(T):
    D, c = draw(T)
    cls = T.choice((lyapunov.LyapunovDiscreteTimeHybridSystem,
                    ctl.LyapunovContinuousTimeSystem))
    code = cls(D.code, c.net.torch)
    warm.certificate(T, code, c, D, p=6)
    X = batch(T, D, c)
    eps, margin, red, w, kw = params(T, len(X))

    def loss():
        return code.lyapunov_positivity_loss_at_samples(
            c.xt, gen.t(X), c.lam, eps, R=c.Rt, **kw)
    viol = np.array([eps * c.l1(x) - c.V(x) for x in X])
    judge(T, loss(), viol, margin, red, w, "positivity loss", X=X,
          xeq=c.xeq, R=c.Rm)
    c.net.unchanged(T, "the Lyapunov network")
    if margin > 0:
        slope(T, [c.net.torch], loss, "positivity loss")


@case(quick=900, thorough=30000, shards=3, weight=4, large=16)
def decrease(T):
    """discrete time; with the successors computed and given"""
    D, c = draw(T)
    code = lyapunov.LyapunovDiscreteTimeHybridSystem(D.code, c.net.torch)
    warm.certificate(T, code, c, D, p=6)
    X = batch(T, D, c)
    eps, margin, red, w, kw = params(T, len(X))
    kind = T.choice(list(E))
    T.label(kind.name)
    given = T.bool()
    if given:
        Y = np.array([gen.inside(T, D.lo, D.up) if T.int(0, 4) else
                      gen.outside(T, D.lo, D.up) for _ in X])
    else:
        if D.hybrid and any(len(D.f(x, 1e-6)) != 1 for x in X):
            T.reject("border of two modes")
        Y = np.array([D.f(x)[0] for x in X])

    def loss():
        if given:
            return code.lyapunov_derivative_loss_at_samples_and_next_states(
                c.lam, eps, gen.t(X), gen.t(Y), c.xt, kind, R=c.Rt, **kw)
        return code.lyapunov_derivative_loss_at_samples(
            c.lam, eps, gen.t(X), c.xt, kind, R=c.Rt, **kw)
    viol = np.array([p14.crit(c, eps, kind, x, y) for x, y in zip(X, Y)])
    judge(T, loss(), viol, margin, red, w,
          "decrease loss" + (" (successors given)" if given else ""),
          X=X, Y=Y, eps_type=kind.name, system=D.kind)
    c.net.unchanged(T, "the Lyapunov network")
    if not D.hybrid:
        nets = [c.net.torch]
        if not given and getattr(D.code, "controller_network", None) is not \
                None:
            nets.append(D.code.controller_network)
            T.label("controller_slope")
        slope(T, nets, loss, "decrease loss")


@case(quick=700, thorough=24000, shards=2, weight=4, large=16)
def continuous(T):
    """continuous time, ExpLower, all reductions"""
    nx = T.int(1, 3)
    box = gen.sym_box(T, nx) if T.bool() else gen.box(T, nx)
    D = systems.autonomous(T, kinds=systems.AUTO, nx=nx, box=box,
                           discrete=False, max_hidden=1)
    c = lyap.cert(T, D.lo, D.up, max_hidden=2)
    code = ctl.LyapunovContinuousTimeSystem(D.code, c.net.torch)
    warm.certificate(T, code, c, D, p=6)
    X = batch(T, D, c)
    Y = np.array([D.f(x)[0] if T.bool() else T.array((nx, ), -1., 1.)
                  for x in X])
    eps, margin, red, w, kw = params(T, len(X))

    def loss():
        return code.lyapunov_derivative_loss_at_samples_and_next_states(
            c.lam, eps, gen.t(X), gen.t(Y), c.xt, E.ExpLower, R=c.Rt, **kw)
    lo, hi = [], []
    for x, y in zip(X, Y):
        g = c.grads(x, 1e-7)
        if g is None:
            T.reject("too many kinks")
        v = [a @ y + eps * c.V(x) for a in g]
        lo.append(min(v))
        hi.append(max(v))
    if np.array_equal(lo, hi):
        T.label("smooth")
    judge(T, loss(), np.array(lo), margin, red, w, "continuous-time decrease "
          "loss", np.array(hi), X=X, Y=Y, R=c.Rm)
    c.net.unchanged(T, "the Lyapunov network")
    slope(T, [c.net.torch], loss, "continuous-time decrease loss")


@case(quick=600, thorough=20000, shards=2, weight=4, large=12)
def continuous_hybrid(T):
    nx = T.int(1, 3)
    box = gen.sym_box(T, nx) if T.bool() else gen.box(T, nx)
    D = systems.autonomous(T, kinds=("hybrid", ), nx=nx, box=box,
                           discrete=False)
    c = lyap.cert(T, D.lo, D.up, R=None, max_hidden=2)
    code = ctl.LyapunovContinuousTimeHybridSystem(D.code, c.net.torch)
    warm.certificate(T, code, c, D, p=6)
    X = batch(T, D, c)
    kind = T.choice(list(E))
    T.label(kind.name)
    given = T.bool()
    if given:
        Y = T.array((len(X), nx), -1., 1.)
    else:
        if any(len(D.f(x, 1e-6)) != 1 for x in X):
            T.reject("border of two modes")
        Y = np.array([D.f(x)[0] for x in X])
    eps, margin, red, w, kw = params(T, len(X), True)
    R = None if T.bool() else torch.eye(nx, dtype=gen.DT)

    def loss():
        if given:
            return code.lyapunov_derivative_loss_at_samples_and_next_states(
                c.lam, eps, gen.t(X), gen.t(Y), c.xt, kind, R=R, **kw)
        return code.lyapunov_derivative_loss_at_samples(
            c.lam, eps, gen.t(X), c.xt, kind, R=R, **kw)
    lo, hi = [], []
    for x, y in zip(X, Y):
        g = c.grads(x, 1e-7)
        if g is None:
            T.reject("too many kinks")
        v = [dict(ExpLower=a @ y + eps * c.V(x),
                  ExpUpper=-(a @ y + eps * c.V(x)),
                  Asymp=a @ y + eps * c.l1(x))[kind.name] for a in g]
        lo.append(min(v))
        hi.append(max(v))
    judge(T, loss(), np.array(lo), margin, red, w, "continuous-time hybrid "
          "decrease loss", np.array(hi), X=X, Y=Y, eps_type=kind.name)
    c.net.unchanged(T, "the Lyapunov network")
    slope(T, [c.net.torch], loss, "continuous-time hybrid decrease loss")


@case(quick=600, thorough=20000, shards=2, weight=3, large=12)
def barrier_rate(T):
    D = p14.dynamics(T)
    net = gen.net(T, D.nx, 1, max_hidden=2, max_width=3, wmax=1.2)
    xs = gen.inside(T, D.lo, D.up)
    b = T.float(.05, 3., special=(.5, 1.))
    code = barrier.DiscreteTimeBarrier(D.code, net.torch)
    xt = gen.t(xs)
    warm.barrier(T, code, xs, b, D, xt, p=6)
    X = batch(T, D)
    Y = np.array([D.f(x)[0] if T.bool() and not D.hybrid else
                  gen.inside(T, D.lo, D.up) for x in X])
    eps, margin, red, w, kw = params(T, len(X))
    kw.pop("weight", None)

    def loss():
        return code.derivative_loss_at_samples_and_next_states(
            xt, b, eps, gen.t(X), gen.t(Y), **kw)

    def h(x):
        return net(x)[0] - net(xs)[0] + b
    viol = np.array([-h(y) + (1 - eps) * h(x) for x, y in zip(X, Y)])
    judge(T, loss(), viol, margin, red, None, "barrier rate loss", X=X, Y=Y)
    net.unchanged(T, "the barrier network")
    slope(T, [net.torch], loss, "barrier rate loss")
