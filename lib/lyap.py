"""Lyapunov candidates V(x) = phi(x) - phi(x*) + lambda |R (x - x*)|_1 with a
numpy reference."""
import itertools

import numpy as np

import gen
import systems


class Cert:
    def __init__(self, net, xeq, lam, R):
        self.net, self.xeq, self.lam, self.R = net, xeq, lam, R
        self.Rm = np.eye(len(xeq)) if R is None else R
        self.y0 = net(xeq)[0]

    # (the same tensors each time, as a user would pass them)
    @property
    def Rt(self):
        if self.R is None:
            return None
        r = getattr(self, "_R", None)
        if r is None or not np.array_equal(r.detach().numpy(), self.R):
            self._R = gen.t(self.R)
        return self._R

    @property
    def xt(self):
        r = getattr(self, "_x", None)
        if r is None or not np.array_equal(r.detach().numpy(), self.xeq):
            self._x = gen.t(self.xeq)
        return self._x

    def l1(self, x):
        return np.abs(self.Rm @ (x - self.xeq)).sum()

    def V(self, x):
        return self.net(x)[0] - self.y0 + self.lam * self.l1(x)

    def grads(self, x, tol=0., sides=(1., -1.)):
        """all gradients with ambiguous pieces taken each way"""
        g = self.net.gradients(x, tol)
        if g is None:
            return None
        e = self.Rm @ (x - self.xeq)
        opts = [sides if abs(v) <= tol else (np.sign(v), ) for v in e]
        if np.prod([len(o) for o in opts]) > 64:
            return None
        out = []
        for s in itertools.product(*opts):
            l = self.lam * (np.array(s) @ self.Rm)
            out += [a[0] + l for a in g]
        return out

    def margin(self, x):
        """distance (in pre-activation / coordinate) to the next kink"""
        return min(self.net.margin(x),
                   np.abs(self.Rm @ (x - self.xeq)).min())


def matrix(T, n, square=False):
    """R: None or a matrix of full column rank"""
    k = T.int(0, 3)
    if k == 0:
        return None
    if k == 1:
        return np.diag(T.array((n, ), .25, 2.)) * T.choice((1., -1.))
    m = n if square else n + T.int(0, 2)
    R = T.array((m, n), -1.5, 1.5)
    if np.linalg.svd(R, compute_uv=False).min() < .05:
        R[:n] += 3 * np.eye(n)
    if np.linalg.svd(R, compute_uv=False).min() < .05:
        T.reject("R is close to singular")
    return R


def cert(T, lo, up, xeq=None, R="draw", max_hidden=2, max_width=3,
         wmax=1.2, min_width=1):
    nx = len(lo)
    net = gen.net(T, nx, 1, max_hidden=max_hidden, max_width=max_width,
                  wmax=wmax, min_width=min_width)
    xe = systems._eq(T, lo, up) if xeq is None else xeq
    lam = T.float(0., 2., special=(0., .5, 1.))
    return Cert(net, xe, lam, matrix(T, nx) if isinstance(R, str) else R)
