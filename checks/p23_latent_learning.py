# TECHNIQUE: property-based testing (Hypothesis): generated learners (state-space and image learners, networks, boxes, options), batches, horizons and training histories; every loss, roll-out and sample set compared with a numpy evaluation of its definition, optima with freshly built programs, gradients with finite differences, training with a reference optimizer step
# NOTE: images are 1-4 pixels wide with 1 or 3 channels; latent/state dimension 1-3; the random part of the variational learner is decided by a metamorphic relation and moment tests.
"""P23 Learning of dynamics in state or latent space."""
import copy
import os
import tempfile

import gurobipy
import numpy as np
import torch
from torch.utils.data import DataLoader, TensorDataset

import gen
import lyap
import p14_discrete_certificates as p14
import p18_losses as p18
import systems
import toynets
from pbt import case, to_np
from training import quiet
import neural_network_lyapunov.dynamics_learning as dl
import neural_network_lyapunov.lyapunov as lyapunov
import neural_network_lyapunov.utils as utils

CASES = []
PROPERTY = "P23"
RULE = ("batches hold at least two different items (roll-outs: at least two "
        "steps; sample sets: states inside and outside the box or a positive "
        "violation; training: at least two optimizer steps)")
ASSUMPTIONS = ["gurobipy stand-in (its callbacks come with its own "
               "sequence of incumbents)", "CPU only"]
E = lyapunov.ConvergenceEps


class L:
    pass


def learner(T, image=None, images=None, stable=True):
    """a learner and its reference pieces"""
    s = L()
    s.image = T.bool() if image is None else image
    nz = s.nz = T.int(1, 3)
    lo, up = gen.sym_box(T, nz) if T.bool() else gen.box(T, nz)
    s.lo, s.up = lo, up
    s.D = systems.autonomous(T, kinds=("relu_eq", "residual"), nx=nz,
                             box=(lo, up), discrete=True, max_hidden=1,
                             max_width=3, wmax=T.choice((.3, .6, 1.)),
                             method=systems.M.IA)
    s.c = lyap.cert(T, lo, up, xeq=s.D.xeq, max_hidden=1)
    s.lyap = lyapunov.LyapunovDiscreteTimeHybridSystem(s.D.code,
                                                       s.c.net.torch)
    a, b = gen.inside(T, lo, up), gen.inside(T, lo, up)
    s.slo, s.sup = np.minimum(a, b), np.maximum(a, b)
    if T.int(0, 2) == 0:
        s.slo, s.sup = lo, up
    o = s.o = dict(
        dtype=gen.DT, V_lambda=float(s.c.lam),
        V_eps_pos=T.float(0., 1., special=(0., .1)),
        V_eps_der_lo=T.float(0., 1., special=(0., .1)),
        V_eps_der_up=T.float(0., 1., special=(0., .1)), R=s.c.Rt,
        lyap_loss_optimal=T.bool(), lyap_loss_warmstart=T.bool(),
        lyap_loss_freq=0, x_dim=nz, z_dim=nz,
        x_lo_stable=gen.t(s.slo), x_up_stable=gen.t(s.sup),
        z_lo_stable=gen.t(s.slo), z_up_stable=gen.t(s.sup),
        kl_weight_lo=T.float(0., 1.), kl_weight_up=T.float(1., 3.),
        kl_weight_center_step=T.int(0, 6),
        kl_weight_steps_lo_to_up=T.int(1, 5), use_variational=False,
        use_bce=T.bool(), decoded_equilibrium_loss_weight=T.float(.1, 2.))
    for k in ("pos", "der_lo", "der_up"):
        for m in ("", "_at_samples"):
            o[f"lyap_{k}_loss{m}_weight"] = T.choice((0., 1., .5, 3.))
    s.opt = dl.DynamicsLearningOptions(o)
    s.train = s.valid = None
    if s.image:
        s.c1 = T.choice((1, 1, 3))
        s.w, s.h = T.int(1, 4), T.int(1, 4)
        o["image_width"], o["image_height"] = s.w, s.h
        T.seed()
        s.enc = toynets.Encoder(nz, 2 * s.c1, s.w, s.h).double()
        s.dec = toynets.Decoder(nz, 2 * s.c1, s.w, s.h).double()
        s.deq = torch.rand((2 * s.c1, s.w, s.h), dtype=gen.DT) \
            if T.bool() else None
        s.make = lambda: dl.LatentSpaceDynamicsLearning(
            s.train, s.valid, s.lyap, s.opt, s.enc, s.dec,
            decoded_equilibrium=s.deq)
    else:
        s.make = lambda: dl.StateSpaceDynamicsLearning(
            s.train, s.valid, s.lyap, s.opt)
    s.code = s.make()
    T.label("image" if s.image else "state", f"dim{nz}", s.D.kind)
    T.note(nz=nz, kind=s.D.kind, image=s.image, widths=s.c.net.hidden)
    return s


def f(s, z):
    return s.D.one(z)


def frames(T, n, c, s, binary=None):
    """n images with c channels"""
    r = T.rng()
    x = r.random((n, c, s.w, s.h))
    if T.bool() if binary is None else binary:
        x = np.round(x)
    return x


def encode(s, x):
    with torch.no_grad():
        m, v = s.enc(gen.t(x))
    return to_np(m), to_np(v)


def decode(s, z):
    with torch.no_grad():
        return to_np(s.dec(gen.t(z)))


def bce(label, pred):
    """per-pixel binary cross entropy, logarithms cut at -100"""
    with np.errstate(divide="ignore"):
        lp = np.maximum(np.log(pred), -100)
        ln = np.maximum(np.log(1 - pred), -100)
    return -(label * lp + (1 - label) * ln)


def recon(s, label, pred):
    """per-image reconstruction loss"""
    e = bce(label, pred) if s.o["use_bce"] else (label - pred)**2
    return e.mean(axis=(1, 2, 3))


def anneal(s, step):
    o = s.o
    return o["kl_weight_lo"] + (o["kl_weight_up"] - o["kl_weight_lo"]) / (
        1 + np.exp(-(step - o["kl_weight_center_step"]) /
                   o["kl_weight_steps_lo_to_up"]))


def kl(mu, lv):
    return np.mean(.5 * np.sum(mu**2 + np.exp(lv) - lv - 1, axis=1))


# -- roll-outs ---------------------------------------------------------------
@case(quick=700, thorough=20000, shards=2, weight=2, large=20)
def rollout(T):
    s = learner(T)
    N = T.span(0, 6, 8, 40)
    T.nontrivial(N >= 2)
    if not s.image:
        x0 = gen.inside(T, s.lo, s.up)
        X, V = s.code.rollout(gen.t(x0), N)
        ref = [x0]
        for _ in range(N):
            ref.append(f(s, ref[-1]))
        T.close(X, np.array(ref), "roll-out", 1e-7, 1e-7)
        T.close(V, [s.c.V(x) for x in ref], "values along the roll-out", 1e-7,
                1e-7)
    else:
        inter = T.bool()
        T.label(f"decode_intermediate={inter}")
        c1 = s.c1
        x0 = frames(T, 1, 2 * c1, s)[0]
        X, V, Z = s.code.rollout(gen.t(x0), N, decode_intermediate=inter)
        fr = [x0[:c1], x0[c1:]]
        zs = [encode(s, x0[None])[0][0]]
        for n in range(N):
            if inter:
                z = encode(s, np.concatenate((fr[n], fr[n + 1]))[None])[0][0]
            else:
                z = zs[-1]
            zs.append(f(s, z))
            fr.append(decode(s, zs[-1][None])[0][c1:])
        T.close(X, np.array(fr), "images of the roll-out", 1e-7, 1e-7)
        T.close(Z, np.array(zs), "latent roll-out", 1e-7, 1e-7)
        T.close(V, [s.c.V(z) for z in zs], "values along the roll-out", 1e-7,
                1e-7)
    s.D.unchanged(T)
    s.c.net.unchanged(T)


def rollout_reference(s, Y):
    if not s.image:
        ref = [Y[0]]
        for _ in range(len(Y) - 1):
            ref.append(f(s, ref[-1]))
        return ((Y - np.array(ref))**2).mean(axis=1)
    fr = [Y[0], Y[1]]
    z = encode(s, np.concatenate((Y[0], Y[1]))[None])[0][0]
    for _ in range(len(Y) - 2):
        z = f(s, z)
        fr.append(decode(s, z[None])[0][s.c1:])
    return recon(s, Y, np.array(fr))


@case(quick=500, thorough=16000, shards=1, weight=2, large=16)
def rollout_loss(T):
    s = learner(T)
    n = T.span(2, 6, 8, 40)
    k = T.span(1, 3, 1, 12)
    Ys = []
    for _ in range(k):
        if s.image:
            Ys.append(frames(T, n, s.c1, s))
        else:
            Ys.append(np.array([gen.inside(T, s.lo, s.up)
                                for _ in range(n)]))
    ref = [rollout_reference(s, Y) for Y in Ys]
    for Y, r in zip(Ys, ref):
        T.close(s.code.rollout_loss(gen.t(Y)), r, "loss along a roll-out",
                1e-7, 1e-7)
    T.close(s.code.rollout_validation([gen.t(Y) for Y in Ys]),
            np.mean(ref, axis=0), "mean loss over roll-outs", 1e-7, 1e-7)
    T.nontrivial(n > 2)
    T.label("bce" if s.image and s.o["use_bce"] else "l2")


# -- losses -----------------------------------------------------------------
def dyn_reference(s, X, XN):
    if not s.image:
        return np.mean((np.array([f(s, x) for x in X]) - XN)**2)
    if XN.shape[1] < X.shape[1]:
        XN = np.concatenate((X[:, XN.shape[1]:], XN), axis=1)
    mu, lv = encode(s, X)
    r = np.mean(recon(s, X, decode(s, mu)))
    r += np.mean(recon(s, XN, decode(s, np.array([f(s, z) for z in mu]))))
    if s.deq is not None:
        r += s.o["decoded_equilibrium_loss_weight"] * np.mean(recon(
            s, to_np(s.deq)[None], decode(s, s.D.xeq[None])))
    return r


def batch(T, s, b):
    if s.image:
        return frames(T, b, 2 * s.c1, s), \
            frames(T, b, s.c1 * T.choice((1, 1, 2)), s)
    return tuple(np.array([gen.inside(T, s.lo, s.up) for _ in range(b)])
                 for _ in range(2))


@case(quick=700, thorough=20000, shards=2, weight=2, large=10)
def dynamics_loss(T):
    s = learner(T)
    b = T.count(1, 4)
    X, XN = batch(T, s, b)
    t = [gen.t(X), gen.t(XN)]
    l = s.code.dynamics_loss(*t)
    T.close(l, dyn_reference(s, X, XN), "dynamics loss", 1e-7, 1e-7, batch=b)
    T.check(np.array_equal(X, to_np(t[0])) and np.array_equal(
        XN, to_np(t[1])), "the batch was modified")
    T.nontrivial(b > 1)
    T.label("bce" if s.image and s.o["use_bce"] else "l2")
    if s.image and T.bool():
        A, B = frames(T, b, 2 * s.c1, s), decode(
            s, np.array([gen.inside(T, s.lo, s.up) for _ in range(b)]))
        T.close(s.code.reconstruction_loss(gen.t(A), gen.t(B)),
                np.mean(recon(s, A, B)), "reconstruction loss", 1e-7, 1e-7,
                batch=b)
    if T.int(0, 2) == 0:
        mods = [s.D.nets[0].torch] + ([s.enc, s.dec] if s.image else [])
        p18.slope(T, mods, lambda: s.code.dynamics_loss(*t), "dynamics loss")


@case(quick=500, thorough=12000, shards=1, weight=1)
def variational(T):
    s = learner(T, image=True)
    b = T.int(1, 4)
    n = T.choice((0, 1, 2, 7, 20, 100))
    s.code.n_iter = n
    mu, lv = T.array((b, s.nz), -2., 2.), T.array((b, s.nz), -3., 2.)
    T.close(s.code.kl_loss(gen.t(mu), gen.t(lv)), anneal(s, n) * kl(mu, lv),
            "weighted divergence", 1e-9, 1e-9, step=n)
    # samples
    seed = T.int(0, 2**20)
    mu2, lv2 = T.array((b, s.nz), -2., 2.), T.array((b, s.nz), -3., 2.)
    eps = []
    for m, v in ((mu, lv), (mu2, lv2)):
        torch.manual_seed(seed)
        z = to_np(s.code.reparam(gen.t(m), gen.t(v)))
        T.check(z.shape == m.shape, "shape of a latent sample", got=z.shape)
        eps.append((z - m) / np.exp(.5 * v))
    T.close(eps[0], eps[1], "the standardized sample depends on mean and "
            "variance", 1e-8, 1e-8)
    k = 4000
    M, V = np.tile(mu[:1], (k, 1)), np.tile(lv[:1], (k, 1))
    z = to_np(s.code.reparam(gen.t(M), gen.t(V)))
    e = (z - M) / np.exp(.5 * V)
    T.check(np.all(np.abs(e.mean(axis=0)) < 6 / np.sqrt(k)), "mean of latent "
            "samples", got=e.mean(axis=0))
    T.check(np.all(np.abs((e**2).mean(axis=0) - 1) < 6 * np.sqrt(2 / k)),
            "variance of latent samples", got=e.var(axis=0))
    T.check(np.all(np.abs((np.abs(e) < 1).mean(axis=0) - .6827) < .05),
            "distribution of latent samples")
    if s.nz > 1:
        T.check(abs(np.mean(e[:, 0] * e[:, 1])) < 6 / np.sqrt(k),
                "correlated latent samples")
    T.check(abs(np.mean(e[1:, 0] * e[:-1, 0])) < 6 / np.sqrt(k),
            "correlated latent samples across the batch")
    # the whole forward pass
    X, XN = batch(T, s, b)
    mu, lv = encode(s, X)
    s.opt.set_option("use_variational", T.bool())
    torch.manual_seed(seed)
    with torch.no_grad():
        xd, xnd, m, v, zn = s.code.vae_forward(gen.t(X))
    T.close(m, mu, "latent means", 1e-9, 1e-9)
    if s.o["use_variational"]:
        T.close(v, lv, "latent log variances", 1e-9, 1e-9)
        torch.manual_seed(seed)
        z = to_np(s.code.reparam(gen.t(mu), gen.t(lv)))
        T.close(xd, decode(s, z), "decoded images of the samples", 1e-8,
                1e-8)
        T.close(zn, np.array([f(s, q) for q in z]), "next states of the "
                "samples", 1e-8, 1e-8)
    else:
        T.check(v is None, "a variance although there is none", got=v)
        T.close(xd, decode(s, mu), "decoded images", 1e-8, 1e-8)
        T.close(zn, np.array([f(s, z) for z in mu]), "next latent states",
                1e-8, 1e-8)
    T.close(xnd, decode(s, to_np(zn)), "decoded next images", 1e-8, 1e-8)
    # small variances: the variational loss is the plain one plus divergence
    if s.o["use_variational"]:
        with torch.no_grad():
            s.enc.lin.bias[s.nz:] = -60.
            s.enc.lin.weight[s.nz:] *= .1
        lv = encode(s, X)[1]
        T.close(s.code.dynamics_loss(gen.t(X), gen.t(XN)),
                dyn_reference(s, X, XN) + anneal(s, n) * kl(mu, lv),
                "variational loss", 1e-6, 1e-6)
        T.label("variational")
    T.nontrivial(b > 1)


@case(quick=300, thorough=6000, shards=1, weight=1)
def annealing(T):
    lo, up = T.float(0., 2.), T.float(0., 2.)
    c, w = T.int(0, 50), T.int(1, 20)
    g = utils.SigmoidAnneal(gen.DT, lo, up, c, w)
    prev = None
    for n in sorted({0, 1, c, c + w, max(c - w, 0), T.int(0, 100), 10**4}):
        v = float(g(n))
        T.close(v, lo + (up - lo) / (1 + np.exp(-min((n - c) / w, 700))),
                "annealed weight", 1e-9, 1e-9, step=n)
        T.check(min(lo, up) - 1e-9 <= v <= max(lo, up) + 1e-9, "annealed "
                "weight outside its range")
        if prev is not None:
            T.check((v - prev) * (up - lo) >= -1e-12, "not monotone")
        prev = v
    T.close(float(g(c)), (lo + up) / 2, "halfway value", 1e-9, 1e-9)
    T.nontrivial(lo != up)


def viol(s, kind, x):
    if kind == "pos":
        return s.o["V_eps_pos"] * s.c.l1(x) - s.c.V(x)
    k = "V_eps_" + kind
    return p14.crit(s.c, s.o[k], E.ExpLower if kind == "der_lo" else
                    E.ExpUpper, x, f(s, x))


KINDS = ("pos", "der_lo", "der_up")


@case(quick=600, thorough=16000, shards=2, weight=2, large=10)
def losses_at_samples(T):
    s = learner(T)
    b = T.count(1, 6)
    X = batch(T, s, b)[0]
    if s.image:
        if T.int(0, 2) == 0:
            # samples of tiny variance
            s.opt.set_option("use_variational", True)
            with torch.no_grad():
                s.enc.lin.bias[s.nz:] = -90.
                s.enc.lin.weight[s.nz:] *= .1
            T.label("variational")
        Z = encode(s, X)[0]
        k = T.int(0, 3)
        if k == 0:
            # centre the box at the encoded states
            i = T.int(0, b - 1)
            s.slo, s.sup = np.minimum(Z[i], Z[0]), np.maximum(Z[i], Z[0])
        elif k == 1:
            s.slo, s.sup = np.full(s.nz, -9.), np.full(s.nz, 9.)
    else:
        for i in range(b):
            if T.int(0, 3) == 0:
                j = T.int(0, s.nz - 1)
                X[i] = np.clip(X[i], s.slo, s.sup)
                X[i, j] = T.choice((s.slo, s.sup))[j] + T.choice(
                    (0., 1e-3, -1e-3))
        Z = X
    for k in ("x", "z"):
        s.o[k + "_lo_stable"], s.o[k + "_up_stable"] = gen.t(s.slo), \
            gen.t(s.sup)
    if s.image and np.any(np.minimum(abs(Z - s.slo), abs(Z - s.sup)) < 1e-9):
        s.slo, s.sup = s.slo - 1e-6, s.sup + 1e-6
        s.o["z_lo_stable"], s.o["z_up_stable"] = gen.t(s.slo), gen.t(s.sup)
    ins = [z for z in Z if np.all(z >= s.slo) and np.all(z <= s.sup)]
    got = s.code.lyapunov_loss_at_samples(gen.t(X))
    T.check(len(got) == 3, "three losses", got=len(got))
    pos = False
    for k, g in zip(KINDS, got):
        v = np.array([viol(s, k, z) for z in ins])
        e = np.maximum(v, 0).mean() * s.o[f"lyap_{k}_loss_at_samples_weight"] \
            if len(ins) else 0.
        T.check(g.numel() == 1, "a loss is not a number", got=g.shape)
        T.close(g.detach().reshape(()), e, f"{k}: loss at samples", 1e-7,
                1e-7, inside=len(ins), of=b)
        pos |= e > 0
    T.label("empty" if not ins else "all" if len(ins) == b else "some")
    T.nontrivial(0 < len(ins) < b or pos)
    edge = min(abs(Z - s.slo).min(), abs(Z - s.sup).min())
    if pos and not s.o["use_variational"] and (
            edge > 1e-4 or not s.image) and T.int(0, 1):
        sample_slopes(T, s, gen.t(X))


def sample_slopes(T, s, X):
    """the losses move with the parameters as their gradient says"""
    ps = [p for g in s.code.get_trainable_parameters() for p in g]
    w = T.array((3, ), .3, 1.)

    def total():
        return sum(w[i] * g.reshape(()) for i, g in enumerate(
            s.code.lyapunov_loss_at_samples(X)))
    rng = np.random.RandomState(T.int(0, 10**6))
    # the Lyapunov network, the dynamics or everything
    part = T.choice(("V", "dynamics", "all"))
    mine = {id(p) for p in s.c.net.torch.parameters()}
    dr = [gen.t(rng.uniform(-1, 1, tuple(p.shape))) *
          (part == "all" or (id(p) in mine) == (part == "V")) for p in ps]
    base = [p.detach().clone() for p in ps]

    def at(e):
        with torch.no_grad():
            for p, q, d in zip(ps, base, dr):
                p.copy_(q + e * d)
            v = float(total())
            for p, q in zip(ps, base):
                p.copy_(q)
        return v
    h = 1e-6
    v0 = at(0.)
    a, b = (at(h) - v0) / h, (v0 - at(-h)) / h
    if abs(a - b) > 1e-4 * (1 + abs(a)):
        T.label("kink")
        return
    for p in ps:
        p.grad = None
    loss = total()
    if not loss.requires_grad:
        T.close(0., (a + b) / 2, "losses at samples without gradient", 2e-4,
                2e-4)
        return
    gs = torch.autograd.grad(loss, ps, allow_unused=True)
    got = sum(float((g * d).sum()) for g, d in zip(gs, dr) if g is not None)
    T.close(got, (a + b) / 2, f"slope of the losses at samples ({part})",
            2e-4, 2e-4)
    T.label("slope_" + part)


def program(s, kind, several=None):
    """(optimum or None); several[kind]: number of solutions of different,
    positive value"""
    if kind == "pos":
        r = s.lyap.lyapunov_positivity_as_milp(
            s.c.xt, s.c.lam, s.o["V_eps_pos"], R=s.c.Rt)
        m = r[0]
    else:
        m = s.lyap.lyapunov_derivative_as_milp(
            s.c.xt, s.c.lam, s.o["V_eps_" + kind],
            E.ExpLower if kind == "der_lo" else E.ExpUpper, R=s.c.Rt).milp
    m.gurobi_model.setParam("OutputFlag", 0)
    m.gurobi_model.optimize()
    if several is not None:
        vs = []
        for i in range(m.gurobi_model.solCount):
            m.gurobi_model.setParam("SolutionNumber", i)
            v = m.gurobi_model.PoolObjVal
            if v > 1e-3 and all(abs(v - u) > 1e-3 for u in vs):
                vs.append(v)
        several[kind] = len(vs)
        m.gurobi_model.setParam("SolutionNumber", 0)
    return m.gurobi_model.ObjVal if m.gurobi_model.status == 2 else None


@case(quick=300, thorough=10000, shards=4, weight=8)
def losses_of_programs(T):
    s = learner(T)
    fresh = {k: program(s, k) for k in KINDS}
    if fresh["der_lo"] is None or fresh["der_up"] is None:
        T.reject("no successor in the box")
    early = not s.o["lyap_loss_optimal"]
    thr = dict.fromkeys(KINDS, 0.)
    for i in range(T.int(1, 2)):
        if early and (i or T.bool()):
            thr = {k: max(0., fresh[k]) * T.float(0., 1.1) for k in KINDS}
            got = quiet(s.code.lyapunov_loss, *(thr[k] for k in KINDS))
        else:
            got = quiet(s.code.lyapunov_loss)
        for k, g, a in zip(KINDS, got, (
                s.code.lyap_pos_x_adv, s.code.lyap_der_lo_x_adv,
                s.code.lyap_der_up_x_adv)):
            w = s.o[f"lyap_{k}_loss_weight"]
            g = float(g.detach())
            tol = w * (2e-3 + 1e-6 * abs(fresh[k]))
            stopped = early and fresh[k] > thr[k] - 1e-6
            if not stopped:
                T.check(abs(g - w * fresh[k]) <= tol, f"{k}: loss of the "
                        "program", got=g, expected=w * fresh[k], weight=w)
            elif g != 0:
                T.label("early")
                T.check(w * thr[k] - tol <= g <= w * fresh[k] + tol,
                        f"{k}: loss of a program stopped early", got=g,
                        optimum=fresh[k], threshold=thr[k], weight=w)
            if not s.o["lyap_loss_warmstart"]:
                continue
            T.label("warmstart")
            x = to_np(a)
            T.check(np.all(x >= s.lo - 1e-6) and np.all(x <= s.up + 1e-6),
                    f"{k}: the warm start is outside the box", x=x)
            v = viol(s, k, x)
            T.check(thr[k] - 1e-4 <= v if stopped else abs(v - fresh[k]) <=
                    1e-4 * (1 + abs(fresh[k])), f"{k}: the kept state is not "
                    "the worst one", got=v, expected=fresh[k], x=x)
            if w and (g or not stopped):
                T.check(abs(w * v - g) <= tol + 1e-4 * w, f"{k}: the kept "
                        "state is not the one of the loss", got=v * w,
                        expected=g, x=x)
    T.nontrivial(any(v > 1e-6 for v in fresh.values()))
    if not early and T.bool():
        p18.slope(T, [s.c.net.torch, s.D.nets[0].torch],
                  lambda: sum(quiet(s.code.lyapunov_loss)), "program losses",
                  program=True)


@case(quick=300, thorough=10000, shards=3, weight=6)
def adversarial(T):
    s = learner(T)
    # (a solver may return several solutions unasked)
    many = T.int(0, 2) == 0
    default = gurobipy._PARAM_DEFAULTS["PoolSearchMode"]
    gurobipy._PARAM_DEFAULTS["PoolSearchMode"] = 2 if many else default
    several = {}
    try:
        fresh = {k: program(s, k, several) for k in KINDS}
        got = s.code.adversarial_samples()
    finally:
        gurobipy._PARAM_DEFAULTS["PoolSearchMode"] = default
    T.check(len(got) == 3, "three sample sets", got=len(got))
    for k, g in zip(KINDS, got):
        v = fresh[k]
        T.check(hasattr(g, "shape") and g.dim() == 2 and g.shape[1] == s.nz,
                f"{k}: not a set of states", got=g)
        X = to_np(g)
        if v is None or v < -1e-6:
            T.check(len(X) == 0, f"{k}: states although no condition is "
                    "violated", got=X, optimum=v)
            T.label("none:" + k)
            continue
        if v > 1e-5:
            T.check(len(X) >= 1, f"{k}: no state although the condition is "
                    "violated", optimum=v)
            T.label("some:" + k)
            w = [viol(s, k, x) for x in X]
            if s.o["lyap_loss_optimal"]:
                T.check(max(w) >= v - 1e-4 * (1 + abs(v)), f"{k}: the worst "
                        "state is missing", got=w, optimum=v)
            T.nontrivial()
        if several[k] > 1 and s.o["lyap_loss_optimal"]:
            T.check(len(np.unique(np.round(X, 6), axis=0)) > 1, f"{k}: "
                    "several solutions, one state", got=X)
            T.label("several")
        for x in X:
            T.check(np.all(x >= s.lo - 1e-6) and np.all(x <= s.up + 1e-6),
                    f"{k}: a state outside the box", x=x)
            T.check(viol(s, k, x) >= -1e-4, f"{k}: a state without "
                    "violation", x=x, got=viol(s, k, x))


# -- saving, training ------------------------------------------------------
@case(quick=200, thorough=4000, shards=1, weight=2)
def save_load(T):
    s = learner(T)
    b = T.int(1, 3)
    X, XN = batch(T, s, b)
    if T.bool():
        s.code.reset_optimizer = None      # never used by saving
    with tempfile.TemporaryDirectory(dir=".") as d:
        p = os.path.join(d, "a", "b")
        s.code.save(p)
        if T.bool():
            s.code.save(p)
        c2 = type(s.code).load(p, None, None, s.opt)
    # the loaded learner does not share parameters with the saved one
    t = gen.t(X), gen.t(XN)
    ref = [to_np(s.code.dynamics_loss(*t))] + [
        to_np(a) for a in s.code.lyapunov_loss_at_samples(t[0])]
    with torch.no_grad():
        for n in [s.c.net.torch, s.D.nets[0].torch] + (
                [s.enc, s.dec] if s.image else []):
            for q in n.parameters():
                q += 1.
        if s.image and s.deq is not None:
            s.deq += 1.
    got = [to_np(c2.dynamics_loss(*t))] + [
        to_np(a) for a in c2.lyapunov_loss_at_samples(t[0])]
    for a, e in zip(got, ref):
        T.close(a, e, "a loaded learner gives other losses", 0, 0)
    x0 = t[0][0]
    if s.image:
        T.close(c2.rollout(x0, 2)[2][0], to_np(c2.encoder(t[0][:1])[0][0]),
                "a loaded learner cannot be rolled out", 0, 0)
    else:
        T.close(c2.rollout(x0, 1)[0][0], X[0], "a loaded learner cannot be "
                "rolled out", 0, 0)
    T.nontrivial(b > 1)


class Scalars:
    """records what is logged"""

    def __init__(self):
        self.rows = []

    def add_scalar(self, name, value, n):
        self.rows.append((name, float(value), n))


@case(quick=200, thorough=5000, shards=3, weight=8)
def training(T):
    s = learner(T)
    b = T.int(1, 3)
    n = T.int(1, 3)
    X, XN = batch(T, s, n * b)
    if s.image:
        XN = XN[:, -s.c1:]
    s.train = DataLoader(TensorDataset(gen.t(X), gen.t(XN)), batch_size=b)
    VX, VN = batch(T, s, T.int(1, 3))
    if s.image:
        VN = VN[:, -s.c1:]
    vb = T.int(1, 3)
    s.valid = DataLoader(TensorDataset(gen.t(VX), gen.t(VN)), batch_size=vb)
    freq = s.o["lyap_loss_freq"] = T.choice((0, 0, 1, 2))
    s.o["lyap_loss_optimal"] = True
    if s.image and T.bool():
        # wide box: samples count
        s.o["z_lo_stable"], s.o["z_up_stable"] = gen.t(
            np.full(s.nz, -9.)), gen.t(np.full(s.nz, 9.))
    only = T.int(0, 3) == 0
    epochs = T.int(1, 2)
    validate = T.bool()
    if freq and (program(s, "der_lo") is None or
                 program(s, "der_up") is None):
        T.reject("no successor in the box")
    a = s.code = s.make()
    r = copy.deepcopy(a, {id(s.opt): s.opt, id(s.train): s.train,
                          id(s.valid): s.valid})
    a.reset_optimizer(lyapunov_only=only)
    w = a.writer = Scalars()
    save = os.path.abspath(f"save{os.getpid()}") if T.int(0, 3) == 0 else None
    xeq = s.D.xeq.copy()
    quiet(a.train, epochs, validate=validate, save_rate=T.int(0, 2)
          if save else 0, save_path=save)
    # reference
    ps = [p for g in (r.get_lyapunov_parameters() if only else
                      r.get_trainable_parameters()) for p in g]
    opt = torch.optim.Adam(ps)
    k = 0
    logged = []
    for _ in range(epochs):
        for x, xn in s.train:
            opt.zero_grad()
            ls = [r.dynamics_loss(x, xn)] + list(
                r.lyapunov_loss_at_samples(x))
            sum(ls).sum().backward()
            opt.step()
            logged.append((k, "Dynamics", float(ls[0].detach())))
            if freq and k % freq == 0:
                opt.zero_grad()
                try:
                    ls = quiet(r.lyapunov_loss)
                except AssertionError:
                    T.reject("no successor in the box")
                sum(ls).backward()
                opt.step()
            k += 1
            r.n_iter = k
    T.check(a.n_iter == k, "number of steps", got=a.n_iter, expected=k)
    for p, q in zip(all_params(a), all_params(r)):
        T.close(p, q, "parameters after training", 1e-6, 1e-6, freq=freq,
                only=only)
    if only:
        T.label("lyapunov_only")
        s.D.unchanged(T)
    T.check(np.array_equal(to_np(a.lyap.system.x_equilibrium), xeq),
            "the equilibrium was changed")
    rows = {(nm, i): v for nm, v, i in w.rows}
    for i, nm, v in logged:
        g = rows.get((nm + "/train", i))
        if g is not None:
            T.close(g, v, "logged loss", 1e-6, 1e-6, step=i)
    if validate and not (s.image and s.o["use_variational"]):
        g = rows.get(("Dynamics/validate", k))
        if g is not None:
            with torch.no_grad():
                v = sum(float(a.dynamics_loss(x, y)) * len(x)
                        for x, y in s.valid) / len(VX)
            T.close(g, v, "validation loss", 1e-6, 1e-6)
            T.label("validated")
    if save:
        c2 = type(a).load(save, None, None, s.opt)
        for p, q in zip(all_params(a), all_params(c2)):
            T.close(p, q, "parameters saved after training", 0, 0)
        os.remove(os.path.join(save, "dyn_learner.pkl"))
        T.label("saved")
    T.label(f"freq{freq}")
    T.nontrivial(k > 1)


def all_params(a):
    return [to_np(p) for g in a.get_trainable_parameters() for p in g]
