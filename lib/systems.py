"""Dynamical systems of the code under test with numpy references."""
import numpy as np
import torch

import cvxpatch  # noqa: F401
import gen
from pbt import to_np
import neural_network_lyapunov.relu_system as relu_system
import neural_network_lyapunov.hybrid_linear_system as hls
import neural_network_lyapunov.mip_utils as mip_utils

cvxpatch.install()

M = mip_utils.PropagateBoundsMethod
METHODS = (M.IA, M.LP, M.MIP, M.IA_MIP)


class Sys:
    """code: the object; f(x[, u]): list of possible next states (or
    derivatives); nets: gen.Net used by it."""
    def __init__(self, **k):
        self.nets = []
        self.nu = 0
        self.xeq = self.ueq = None
        self.ulo = self.uup = None
        self.hybrid = False
        self.margin = None
        self.__dict__.update(k)

    def one(self, x, u=None):
        return self.f(x)[0] if u is None else self.f(x, u)[0]

    def unchanged(self, T):
        for n in self.nets:
            n.unchanged(T, "the dynamics network")

    def state(self, T):
        return gen.inside(T, self.lo, self.up)

    def input(self, T):
        return gen.inside(T, self.ulo, self.uup)


def _eq(T, lo, up):
    k = T.int(0, 4)
    if k == 0 and np.all(lo <= 0) and np.all(up >= 0):
        return np.zeros(len(lo))
    return gen.inside(T, lo, up)


def hybrid_modes(T, lo, up, max_modes=3, wmax=1.2, through=None, cmax=.5,
                 split_at=None):
    """grid of boxes: list of (lo, up) that cover [lo, up]"""
    boxes = [(lo, up)]
    for _ in range(T.int(0, max_modes - 1)):
        i = T.int(0, len(boxes) - 1)
        l, u = boxes.pop(i)
        j = T.int(0, len(lo) - 1)
        m = l[j] + (u[j] - l[j]) * T.choice((.5, .25, .6))
        if split_at is not None and l[j] < split_at[j] < u[j] and T.bool():
            m = split_at[j]
        u1, l1 = u.copy(), l.copy()
        u1[j] = l1[j] = m
        boxes += [(l, u1), (l1, u)]
    return boxes


def autonomous_hybrid(T, nx, lo, up, xeq=None, discrete=True, wmax=1.2,
                      max_modes=3, cont=False):
    """a hybrid linear system on a grid of boxes.  With xeq: it is an
    equilibrium of each mode that contains it."""
    boxes = hybrid_modes(T, lo, up, max_modes, split_at=xeq)
    code = hls.AutonomousHybridLinearSystem(nx, gen.DT)
    modes = []
    for l, u in boxes:
        A = T.array((nx, nx), -wmax, wmax)
        g = T.array((nx, ), -.5, .5)
        if xeq is not None and np.all(l <= xeq) and np.all(xeq <= u):
            g = (xeq if discrete else 0.) - A @ xeq
        P = np.vstack((np.eye(nx), -np.eye(nx)))
        q = np.concatenate((u, -l))
        code.add_mode(gen.t(A), gen.t(g), gen.t(P), gen.t(q))
        modes.append((A, g, l, u))

    def f(x, tol=0.):
        return [A @ x + g for A, g, l, u in modes
                if np.all(x >= l - tol) and np.all(x <= u + tol)]
    s = Sys(code=code, nx=nx, lo=lo, up=up, f=f, kind="hybrid", xeq=xeq,
            discrete=discrete, hybrid=True, method=M.IA)
    s.modes = modes
    return s


AUTO = ("relu", "relu_eq", "residual")


def autonomous(T, kinds=AUTO + ("hybrid", ), nx=None, box=None, xeq=None,
               discrete=None, method=None, max_hidden=2, max_width=3,
               wmax=1.2):
    nx = T.int(1, 3) if nx is None else nx
    lo, up = gen.box(T, nx) if box is None else box
    kind = T.choice(kinds)
    if discrete is None:
        discrete = T.bool()
    if kind == "hybrid":
        return autonomous_hybrid(T, nx, lo, up, xeq, discrete, wmax)
    net = gen.net(T, nx, nx, max_hidden=max_hidden, max_width=max_width,
                  wmax=wmax)
    method = T.choice(METHODS) if method is None else method
    tl, tu = gen.t(lo), gen.t(up)
    if kind == "relu":
        code = relu_system.AutonomousReLUSystem(
            gen.DT, tl, tu, net.torch, network_bound_propagate_method=method)
        return Sys(code=code, nx=nx, lo=lo, up=up, f=lambda x: [net(x)],
                   kind=kind, nets=[net], method=method, discrete=discrete)
    xe = _eq(T, lo, up) if xeq is None else xeq
    cls = relu_system.AutonomousReLUSystemGivenEquilibrium \
        if kind == "relu_eq" else \
        relu_system.AutonomousResidualReLUSystemGivenEquilibrium
    code = cls(gen.DT, tl, tu, net.torch, gen.t(xe), discrete, method)
    y0 = net(xe)

    def f(x):
        y = net(x) - y0
        if discrete:
            y = y + (xe if kind == "relu_eq" else x)
        return [y]
    return Sys(code=code, nx=nx, lo=lo, up=up, f=f, kind=kind, nets=[net],
               xeq=xe, method=method, discrete=discrete)


FORWARD = ("relu", "relu_eq", "second", "residue")


def forward(T, kinds=FORWARD + ("hybrid", ), box=None, discrete=None,
            max_hidden=2, max_width=3, wmax=1.2, max_nx=3, max_nu=2,
            xeq=None):
    kind = T.choice(kinds)
    nu = T.int(1, max_nu)
    nx = T.int(1, max_nx)
    if kind in ("second", "residue"):
        nq = T.int(1, 2)
        nx = 2 * nq
    if discrete is None:
        discrete = T.bool()
    ulo, uup = gen.box(T, nu)
    if kind in ("second", "residue"):
        # the velocity range contains zero (the equilibrium's velocity)
        discrete = True
        l, u = gen.sym_box(T, nx)
        l2, u2 = gen.box(T, nq)
        l[:nq], u[:nq] = l2, u2
        lo, up = l, u
    else:
        lo, up = gen.box(T, nx)
    if box is not None:
        lo, up = box
        nx = len(lo)
    tl, tu, vl, vu = gen.t(lo), gen.t(up), gen.t(ulo), gen.t(uup)
    base = dict(nx=nx, nu=nu, lo=lo, up=up, ulo=ulo, uup=uup, kind=kind,
                discrete=discrete, method=M.IA)
    if kind == "hybrid":
        blo, bup = np.concatenate((lo, ulo)), np.concatenate((up, uup))
        xe, ue = _eq(T, lo, up), _eq(T, ulo, uup)
        z = np.concatenate((xe, ue))
        boxes = hybrid_modes(T, blo, bup, split_at=z)
        code = hls.HybridLinearSystem(nx, nu, gen.DT)
        modes = []
        n = nx + nu
        for l, u in boxes:
            A = T.array((nx, n), -wmax, wmax)
            g = T.array((nx, ), -.5, .5)
            if np.all(l <= z) and np.all(z <= u):
                g = (xe if discrete else 0.) - A @ z
            P = np.vstack((np.eye(n), -np.eye(n)))
            q = np.concatenate((u, -l))
            code.add_mode(gen.t(A[:, :nx]), gen.t(A[:, nx:]), gen.t(g),
                          gen.t(P), gen.t(q))
            modes.append((A, g, l, u))

        def fh(x, u, tol=0.):
            v = np.concatenate((x, u))
            return [A @ v + g for A, g, a, b in modes
                    if np.all(v >= a - tol) and np.all(v <= b + tol)]
        s = Sys(code=code, f=fh, hybrid=True, xeq=xe, ueq=ue, **base)
        s.modes = modes
        return s
    if kind == "relu":
        net = gen.net(T, nx + nu, nx, max_hidden=max_hidden,
                      max_width=max_width, wmax=wmax)
        code = relu_system.ReLUSystem(gen.DT, tl, tu, vl, vu, net.torch)
        return Sys(code=code, nets=[net], f=lambda x, u: [net(
            np.concatenate((x, u)))], **base)
    xe = _eq(T, lo, up) if xeq is None else xeq
    ue = _eq(T, ulo, uup)
    if kind == "relu_eq":
        net = gen.net(T, nx + nu, nx, max_hidden=max_hidden,
                      max_width=max_width, wmax=wmax)
        code = relu_system.ReLUSystemGivenEquilibrium(
            gen.DT, tl, tu, vl, vu, net.torch, gen.t(xe), gen.t(ue),
            discrete)
        y0 = net(np.concatenate((xe, ue)))
        return Sys(code=code, nets=[net], xeq=xe, ueq=ue, f=lambda x, u: [
            net(np.concatenate((x, u))) - y0 + (xe if discrete else 0.)],
            **base)
    xe = xe.copy()
    xe[nq:] = 0.
    dt = T.choice((.1, .01, .5, 1., 2.5))
    if kind == "second":
        idx = list(range(nx))
    else:
        idx = [i for i in range(nx) if T.bool()] or [T.int(0, nx - 1)]
        if T.int(0, 3) == 0:
            idx = idx[::-1]
    net = gen.net(T, len(idx) + nu, nq, max_hidden=max_hidden,
                  max_width=max_width, wmax=wmax)
    if kind == "second":
        code = relu_system.ReLUSecondOrderSystemGivenEquilibrium(
            gen.DT, tl, tu, vl, vu, net.torch, gen.t(xe[:nq]), gen.t(ue), dt)
    else:
        code = relu_system.ReLUSecondOrderResidueSystemGivenEquilibrium(
            gen.DT, tl, tu, vl, vu, net.torch, gen.t(xe[:nq]), gen.t(ue), dt,
            list(idx))
    y0 = net(np.concatenate((xe[idx], ue)))

    def f2(x, u):
        v = net(np.concatenate((x[idx], u))) - y0
        if kind == "residue":
            v = v + x[nq:]
        return [np.concatenate((x[:nq] + (x[nq:] + v) * dt / 2, v))]
    return Sys(code=code, nets=[net], xeq=xe, ueq=ue, f=f2, dt=dt, idx=idx,
               **base)


def pendulum(T, max_hidden=1, max_width=3, wmax=1., method=None):
    """the continuous-time network pendulum (one forward system with interval
    and program-based bounds on its velocities)"""
    import neural_network_lyapunov.examples.pendulum.pendulum as pend
    xe, ue = np.array([np.pi, 0.]), np.zeros(1)
    lo, up = gen.box(T, 2)
    if T.int(0, 3):
        # around the upright equilibrium, sometimes with it on the border
        w = np.array([T.choice((.5, 1., 2.)), T.choice((.5, 1., 2.))])
        lo, up = xe - w * T.choice((0., .5, 1.)), xe + w
    ulo, uup = gen.box(T, 1)
    net = gen.net(T, 3, 1, max_hidden=max_hidden, max_width=max_width,
                  wmax=wmax)
    code = pend.PendulumReluContinuousTime(gen.DT, gen.t(lo), gen.t(up),
                                           gen.t(ulo), gen.t(uup), net.torch)
    if method is not None:
        code.network_bound_propagate_method = method
    y0 = net(np.concatenate((xe, ue)))

    def f(x, u):
        return [np.array([x[1], (net(np.concatenate((x, u))) - y0)[0]])]
    return Sys(code=code, nets=[net], nx=2, nu=1, lo=lo, up=up, ulo=ulo,
               uup=uup, kind="pendulum", discrete=False, xeq=xe, ueq=ue, f=f,
               method=code.network_bound_propagate_method)
