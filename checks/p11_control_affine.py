# TECHNIQUE: property-based testing (Hypothesis): generated control-affine systems (linear, second-order with networks, second-order with user-given affine or network parts), boxes, input limits and bound methods; programs built from the generated constraints examined by an independent MILP oracle; evaluation and bounds against a numpy model; realizable and perturbed data sets for the training helper
# NOTE: gurobipy is replaced by the stand-in in /verif/shim.
"""P11 Control-affine systems."""
import gurobipy
import numpy as np
import torch

import gen
import prog
import systems
from pbt import case, to_np
from warm import warm
import neural_network_lyapunov.control_affine_system as cas
import neural_network_lyapunov.gurobi_torch_mip as gtm

PROPERTY = "P11"
SCALE = 3
RULE = ("a network of the system has a unit that changes sides on the box "
        "(systems without networks: more than one state or input and a "
        "matrix entry of either sign); training: more than one sample")
ASSUMPTIONS = ["gurobipy stand-in", "tolerance 1e-5 (relative)"]
G = gurobipy.GRB
M = systems.M


class Sys:
    pass


class Custom(cas.SecondOrderControlAffineSystem):
    """a second-order system by a user: a and b are affine in x or networks,
    as the base class documents"""
    def __init__(self, lo, up, ulo, uup, a, b, ca, cb):
        super().__init__(lo, up, ulo, uup)
        self._a, self._b, self._ca, self._cb = a, b, ca, cb

    def a(self, x):
        return self._a(x)

    def b(self, x):
        return self._b(x).reshape((self.nq, self.u_dim))

    def _mixed_integer_constraints_v(self):
        ca, alo, aup = self._ca()
        cb, blo, bup = self._cb()
        return ca, cb, alo, aup, blo, bup


def shift_slack(c, k):
    """the same set with other slack variables: slack = new slack + K binary,
    so that the binaries appear in the output"""
    ns, nb = c.num_slack(), c.num_binary()
    K = k * torch.eye(ns, nb, dtype=gen.DT)
    o = gtm.MixedIntegerConstraintsReturn()
    for name in ("Ain_input", "Aeq_input", "Aout_input", "Ain_slack",
                 "Aeq_slack", "Aout_slack", "Ain_binary", "Aeq_binary",
                 "Aout_binary", "rhs_in", "rhs_eq", "Cout", "input_lo",
                 "input_up", "binary_lo", "binary_up"):
        setattr(o, name, getattr(c, name))
    for q in ("Ain", "Aeq", "Aout"):
        S = getattr(c, q + "_slack")
        if S is not None:
            B = getattr(c, q + "_binary")
            setattr(o, q + "_binary", S @ K if B is None else B + S @ K)
    return o


def part(T, nx, ny, lo, up):
    """(torch function, numpy function, constraints + bounds, net)"""
    if T.bool():
        n = gen.net(T, nx, ny, max_hidden=1, max_width=3)
        import neural_network_lyapunov.relu_to_optimization as r2o
        fp = r2o.ReLUFreePattern(n.torch, gen.DT)
        m = T.choice((M.IA, M.LP, M.MIP))
        K = T.float(.25, 2.) if T.int(0, 2) == 0 else 0.
        if K:
            T.label("binaries in the output")

        def cn():
            c = fp.output_constraint(gen.t(lo), gen.t(up), m)
            lims = c.nn_output_lo, c.nn_output_up
            if K and c.num_slack() and c.num_binary():
                c = shift_slack(c, K)
            return (c, *lims)
        return n.torch, n, cn, n
    A = T.array((ny, nx), -1.5, 1.5)
    k = T.int(0, 3)
    A = A * (k != 0)  # a constant now and then
    c0 = T.array((ny, ), -1., 1.) * (k != 1)

    def cn():
        c = gtm.MixedIntegerConstraintsReturn()
        if k != 0:
            c.Aout_input = gen.t(A)
        if k != 1:
            c.Cout = gen.t(c0)
        a = np.maximum(A, 0) @ lo + np.minimum(A, 0) @ up + c0
        b = np.maximum(A, 0) @ up + np.minimum(A, 0) @ lo + c0
        return c, gen.t(a), gen.t(b)
    T.label(f"affine{k}")
    return lambda x: gen.t(A) @ x + gen.t(c0), lambda x: A @ x + c0, cn, None


def draw(T, kinds=("linear", "relu", "relu", "custom")):
    s = Sys()
    s.kind = T.choice(kinds)
    T.label(s.kind)
    s.nu = nu = T.int(1, 3)
    s.nets = []
    if s.kind == "linear":
        nx = T.int(1, 4)
    else:
        nq = T.int(1, 2)
        nx = 2 * nq
    s.nx = nx
    s.lo, s.up = gen.box(T, nx)
    s.ulo, s.uup = gen.box(T, nu)
    b = [gen.t(z) for z in (s.lo, s.up, s.ulo, s.uup)]
    if s.kind == "linear":
        A, B = T.array((nx, nx), -1.5, 1.5), T.array((nx, nu), -1.5, 1.5)
        s.code = cas.LinearSystem(gen.t(A), gen.t(B), *b)
        s.f, s.G = lambda x: A @ x, lambda x: B
        s.nontriv = nx + nu > 2 and A.min() < 0 < A.max()
        return s
    if s.kind == "relu":
        a = gen.net(T, nx, nq, max_hidden=2, max_width=3)
        g = gen.net(T, nx, nq * nu, max_hidden=2, max_width=3)
        s.method = T.choice((M.IA, M.LP, M.MIP))
        T.label(f"method={s.method}")
        s.code = cas.ReluSecondOrderControlAffineSystem(
            *b, a.torch, g.torch, s.method)
        s.nets = [a, g]
    else:
        ta, a, ca, na = part(T, nx, nq, s.lo, s.up)
        tb, g, cb, nb = part(T, nx, nq * nu, s.lo, s.up)
        s.code = Custom(*b, ta, tb, ca, cb)
        s.nets = [n for n in (na, nb) if n is not None]
    s.f = lambda x: np.concatenate((x[nq:], a(x)))
    s.G = lambda x: np.vstack((np.zeros((nq, nu)), g(x).reshape(nq, nu)))
    s.nontriv = any(bool(np.any((np.concatenate(n.ia(s.lo, s.up)[0]) < 0) &
                                (np.concatenate(n.ia(s.lo, s.up)[1]) > 0)))
                    for n in s.nets) or (not s.nets and nx + nu > 2)
    return s


@case(quick=400, thorough=12000, shards=2, weight=2, large=16)
def evaluate(T):
    s = draw(T)
    T.nontrivial(s.nontriv)
    T.check((s.code.x_dim, s.code.u_dim) == (s.nx, s.nu), "sizes")
    mid = gen.t((s.lo + s.up) / 2)
    warm(T, s.nets, lambda: s.code.f(mid), lambda: s.code.G(mid),
         lambda: s.code.dynamics(mid, gen.t(s.ulo)))
    T.close(s.code.x_lo_all, s.lo, "state bound", 0, 0)
    T.close(s.code.x_up_all, s.up, "state bound", 0, 0)
    for _ in range(3):
        x = gen.inside(T, s.lo, s.up)
        if T.int(0, 3) == 0:
            x = gen.outside(T, s.lo, s.up)
        u = T.array((s.nu, ), -4., 4.)
        i = T.int(0, s.nu - 1)
        u[i] = T.choice((s.ulo[i], s.uup[i], s.ulo[i] - 1., s.uup[i] + 1.,
                         .5 * (s.ulo[i] + s.uup[i])))
        xt, ut = gen.t(x), gen.t(u)
        f, g = s.code.f(xt), s.code.G(xt)
        T.check(tuple(f.shape) == (s.nx, ) and tuple(g.shape) ==
                (s.nx, s.nu), "shapes", got=(f.shape, g.shape))
        T.close(f, s.f(x), "drift", 1e-9, 1e-9, x=x)
        T.close(g, s.G(x), "input matrix", 1e-9, 1e-9, x=x)
        uc = np.clip(u, s.ulo, s.uup)
        T.label("clamped" if np.any(uc != u) else "within_limits")
        T.close(s.code.dynamics(xt, ut), s.f(x) + s.G(x) @ uc, "derivative",
                1e-9, 1e-9, x=x, u=u)
        T.close(xt, x, "the state was changed", 0, 0)
        T.close(ut, u, "the input was changed", 0, 0)
    for n in s.nets:
        n.unchanged(T, "a network")


@case(quick=300, thorough=10000, shards=5, weight=10, large=12)
def encoding(T):
    s = draw(T)
    T.nontrivial(s.nontriv)
    warm(T, s.nets, s.code.mixed_integer_constraints)
    ret = s.code.mixed_integer_constraints()
    if T.int(0, 2) == 0:
        ret = s.code.mixed_integer_constraints()
        T.label("twice")
    relax = T.int(0, 5) == 0
    # both sets in one program, as a Lyapunov condition uses them, or apart
    both = T.bool()
    mip = gtm.GurobiTorchMILP(gen.DT)
    x = mip.addVars(s.nx, lb=-G.INFINITY)
    f = mip.addVars(s.nx, lb=-G.INFINITY)
    g = mip.addVars(s.nx * s.nu, lb=-G.INFINITY)
    bt = gtm.BINARYRELAX if relax else G.BINARY
    mip.add_mixed_integer_linear_constraints(ret.mip_cnstr_f, x, f, "s", "b",
                                             "", "", "", bt)
    mip2 = mip
    if not both:
        mip2 = gtm.GurobiTorchMILP(gen.DT)
        x2 = mip2.addVars(s.nx, lb=-G.INFINITY)
        g = mip2.addVars(s.nx * s.nu, lb=-G.INFINITY)
    else:
        x2 = x
    mip2.add_mixed_integer_linear_constraints(ret.mip_cnstr_G, x2, g, "s2",
                                              "b2", "", "", "", bt)
    P = prog.Prog(mip)
    P2 = P if both else prog.Prog(mip2)
    T.check(not (relax and (P.integ.any() or P2.integ.any())),
            "a relaxed program has integer variables")
    bounds = [to_np(b) for b in (ret.f_lo, ret.f_up, ret.G_flat_lo,
                                 ret.G_flat_up)]
    T.check(bounds[0].shape == bounds[1].shape == (s.nx, ) and
            bounds[2].shape == bounds[3].shape == (s.nx * s.nu, ),
            "shapes of the bounds", got=[b.shape for b in bounds])
    for k in range(3):
        p = gen.inside(T, s.lo, s.up)
        rf, rg = s.f(p), s.G(p).reshape(-1)
        chk = "covers" if relax else "exact"
        getattr(P, chk)(T, f, [(x, p)], rf, "drift constraints", x=p)
        getattr(P2, chk)(T, g, [(x2, p)], rg, "input matrix constraints",
                         x=p)
        for v, a, b, w in ((rf, bounds[0], bounds[1], "drift"),
                           (rg, bounds[2], bounds[3], "input matrix")):
            sc = 1e-6 * (1 + np.abs(v).max())
            T.check(np.all(v >= a - sc) and np.all(v <= b + sc), w +
                    ": the reported bounds exclude a value", x=p, value=v,
                    lower=a, upper=b)
    for n in s.nets:
        n.unchanged(T, "a network")


@case(quick=80, thorough=1500, shards=3, weight=4)
def training(T):
    """the helper fits f(x) + G(x) u - f(x*) - G(x*) u*"""
    nx, nu = T.int(1, 3), T.int(1, 3)
    lo, up = gen.box(T, nx)
    f = gen.net(T, nx, nx, min_hidden=1, max_hidden=1, max_width=4)
    g = gen.net(T, nx, nx * nu, min_hidden=1, max_hidden=1, max_width=4)
    N = T.choice((5, 10, 40))
    r = np.random.default_rng(T.int(0, 2**20))
    X, U = r.uniform(lo, up, (N, nx)), r.uniform(-1, 1, (N, nu))
    xe, ue = gen.inside(T, lo, up), T.array((nu, ), -1., 1.)
    def Gm(x):
        return g(x).reshape(nx, nu)

    def predict(ff, gg):
        return np.array([ff(a) + gg(a).reshape(nx, nu) @ b - ff(xe) -
                         gg(xe).reshape(nx, nu) @ ue for a, b in zip(X, U)])
    Y = predict(f, g)
    off = T.bool()
    if off:
        Y = Y + r.uniform(.5, 1., Y.shape)
        T.label("perturbed")
    T.nontrivial(N > 5)
    sens = False
    if off:
        # every sample has something to say about the input matrix
        sens = True
        for i in range(N):
            y = f.torch(gen.t(X[i])) + g.torch(gen.t(X[i])).reshape(
                nx, nu) @ gen.t(U[i]) - f.torch(gen.t(xe)) - \
                g.torch(gen.t(xe)).reshape(nx, nu) @ gen.t(ue)
            gr = torch.autograd.grad(((y - gen.t(Y[i]))**2).sum(),
                                     list(g.torch.parameters()))
            sens = sens and max(float(q.abs().max()) for q in gr) > 1e-3
    data = torch.utils.data.TensorDataset(gen.t(np.hstack((X, U))), gen.t(Y))
    torch.manual_seed(T.int(0, 2**16))
    lr = 1e-3
    # (Adam blows rounding errors up after its first step)
    epochs = T.int(1, 4) if off else 1
    cas.train_control_affine_forward_model(
        f.torch, g.torch, gen.t(xe), gen.t(ue), data, epochs, lr,
        batch_size=T.choice((1, 7, 50)) if off else 50, verbose=False)
    if not off:
        # nothing to learn: the gradients vanish
        for n in (f, g):
            k = 0
            for l in n.torch:
                if isinstance(l, torch.nn.Linear):
                    T.close(l.weight, n.Ws[k], "a model that reproduces the "
                            "data was changed", 1e-2 * lr, 0)
                    if l.bias is not None:
                        T.close(l.bias, n.bs[k], "a model that reproduces "
                                "the data was changed", 1e-2 * lr, 0)
                    k += 1
        return

    def ev(n):
        return lambda z: to_np(n.torch(gen.t(z)))
    e0 = np.mean((predict(f, g) - Y)**2)
    e1 = np.mean((predict(ev(f), ev(g)) - Y)**2)
    T.check(np.isfinite(e1) and e1 <= e0 * (1 + 1e-2), "training increased "
            "the error", before=e0, after=e1)
    w = [k for k, l in enumerate(g.torch) if isinstance(l, torch.nn.Linear)]
    moved = any(np.any(np.abs(to_np(g.torch[k].weight) - g.Ws[i]) > 1e-9)
                or g.bs[i] is not None and
                np.any(np.abs(to_np(g.torch[k].bias) - g.bs[i]) > 1e-9)
                for i, k in enumerate(w))
    T.check(moved or not sens, "the input-matrix network was not trained")
