"""Closed-loop systems (FeedbackSystem) with a numpy reference."""
import numpy as np
import torch

import gen
import systems
import neural_network_lyapunov.feedback_system as feedback_system
from neural_network_lyapunov import mip_utils

M = mip_utils.PropagateBoundsMethod
METHODS = (M.IA, M.LP, M.MIP, M.IA_MIP)


class Loop:
    pass


def controller(T, nx, nu, linear=None, max_hidden=2, max_width=3):
    """(module, numpy function, gen.Net or None, Ws, bs)"""
    linear = T.int(0, 3) == 0 if linear is None else linear
    if linear:
        W = T.array((nu, nx), -1.5, 1.5)
        b = T.array((nu, ), -1., 1.) if T.bool() else None
        lin = torch.nn.Linear(nx, nu, bias=b is not None).to(gen.DT)
        lin.weight.data = gen.t(W)
        if b is not None:
            lin.bias.data = gen.t(b)
        return lin, lambda x: W @ x + (0. if b is None else b), None, W, b
    net = gen.net(T, nx, nu, max_hidden=max_hidden, max_width=max_width)
    return net.torch, net, net, None, None


def crange(L, lo, up):
    """interval range of the controller network on a box"""
    if L.net is not None:
        _, _, a, b = L.net.ia(lo, up)
        return a, b
    W, b = L.W, 0. if L.b is None else L.b
    return (np.maximum(W, 0) @ lo + np.minimum(W, 0) @ up + b,
            np.maximum(W, 0) @ up + np.minimum(W, 0) @ lo + b)


def loop(T, kinds=systems.FORWARD + ("hybrid", ), fwd=None, linear=None,
         method=None, **kw):
    s = systems.forward(T, kinds, **kw) if fwd is None else fwd
    L = Loop()
    L.fwd = s
    L.nx, L.nu, L.lo, L.up = s.nx, s.nu, s.lo, s.up
    L.module, L.phi, L.net, L.W, L.b = controller(T, s.nx, s.nu, linear)
    xe = s.xeq if s.xeq is not None else gen.inside(T, s.lo, s.up)
    if s.ueq is not None:
        ue = s.ueq
    else:
        ue = gen.inside(T, s.ulo, s.uup)
    if s.xeq is None and T.int(0, 4) == 0:
        # the controller's reference state need not be in the box
        xe = gen.outside(T, s.lo, s.up)
    L.xeq, L.ueq = xe, ue
    # limits inside the range of inputs of the forward system, around ue;
    # without limits the controller's range has to be inside it
    lo, up = np.zeros(s.nu), np.zeros(s.nu)
    a, b = crange(L, s.lo, s.up)
    y0 = L.phi(xe)
    for i in range(s.nu):
        free = ue[i] + a[i] - y0[i] >= s.ulo[i] + 1e-6 and \
            ue[i] + b[i] - y0[i] <= s.uup[i] - 1e-6
        k = T.int(0, 3)
        if free and k <= 1:
            lo[i], up[i] = -np.inf, np.inf
        elif k == 2:
            lo[i], up[i] = s.ulo[i], s.uup[i]
        else:
            lo[i] = ue[i] - T.choice((0., .25, .5, 1.)) * (ue[i] - s.ulo[i])
            up[i] = ue[i] + T.choice((0., .25, .5, 1.)) * (s.uup[i] - ue[i])
            if up[i] - lo[i] < 1e-3:
                lo[i], up[i] = s.ulo[i], s.uup[i]
    L.limits = (lo, up)
    L.code = feedback_system.FeedbackSystem(s.code, L.module, gen.t(xe),
                                            gen.t(ue), lo, up)
    L.method = T.choice(METHODS) if method is None else method
    if s.kind == "hybrid":
        L.method = M.IA
    L.code.controller_network_bound_propagate_method = L.method

    def u(x):
        return np.clip(L.phi(x) - y0 + ue, lo, up)
    L.u = u
    L.pre = lambda x: L.phi(x) - y0 + ue
    L.f = lambda x, tol=None: s.f(x, u(x)) if tol is None or not s.hybrid \
        else s.f(x, u(x), tol)
    L.hybrid = s.hybrid
    L.discrete = s.discrete

    def unchanged(T):
        s.unchanged(T)
        if L.net is not None:
            L.net.unchanged(T, "the controller network")
        else:
            T.close(L.module.weight, L.W, "the controller changed", 0, 0)
            if L.b is not None:
                T.close(L.module.bias, L.b, "the controller changed", 0, 0)
    L.unchanged = unchanged
    return L
