"""Generators shared by the checks, with numpy references."""
import numpy as np
import torch
import torch.nn as nn
from pbt import to_np

DT = torch.float64


class Net:
    """A fully connected (leaky) ReLU network and its numpy reference."""
    def __init__(self, Ws, bs, slope):
        self.Ws = [np.array(w, dtype=float) for w in Ws]
        self.bs = [None if b is None else np.array(b, dtype=float)
                   for b in bs]
        # of one layer: None for a ReLU
        self.slopes = list(slope) if isinstance(slope, (list, tuple)) \
            else [slope] * (len(self.Ws) - 1)
        self.slope = slope
        self.n_in = self.Ws[0].shape[1]
        self.n_out = self.Ws[-1].shape[0]
        self.hidden = [w.shape[0] for w in self.Ws[:-1]]
        self.num_units = sum(self.hidden)
        layers = []
        for i, (w, b) in enumerate(zip(self.Ws, self.bs)):
            lin = nn.Linear(w.shape[1], w.shape[0], bias=b is not None)
            lin = lin.to(DT)
            lin.weight.data = torch.tensor(w, dtype=DT)
            if b is not None:
                lin.bias.data = torch.tensor(b, dtype=DT)
            layers.append(lin)
            if i < len(self.Ws) - 1:
                layers.append(nn.ReLU() if self.slopes[i] is None else
                              nn.LeakyReLU(self.slopes[i]))
        self.torch = nn.Sequential(*layers)

    def c(self, i):
        """negative slope of hidden layer i"""
        return 0. if self.slopes[i] is None else self.slopes[i]

    def b(self, i):
        return np.zeros(self.Ws[i].shape[0]) if self.bs[i] is None else \
            self.bs[i]

    def layers(self, x):
        """pre-activations, post-activations (lists per hidden layer), out"""
        pre, post = [], []
        z = np.asarray(x, dtype=float)
        for i in range(len(self.Ws) - 1):
            a = self.Ws[i] @ z + self.b(i)
            pre.append(a)
            z = np.where(a > 0, a, self.c(i) * a)
            post.append(z)
        return pre, post, self.Ws[-1] @ z + self.b(len(self.Ws) - 1)

    def __call__(self, x):
        x = np.asarray(x, dtype=float)
        if x.ndim == 2:
            return np.array([self(r) for r in x]).reshape(
                (len(x), self.n_out))
        return self.layers(x)[2]

    def affine(self, active):
        """(G, g) of the piece with the given activation (list of bool
        arrays): out = G x + g; and the pre-activation maps per layer."""
        G = np.eye(self.n_in)
        g = np.zeros(self.n_in)
        pre = []
        for i in range(len(self.Ws) - 1):
            G = self.Ws[i] @ G
            g = self.Ws[i] @ g + self.b(i)
            pre.append((G.copy(), g.copy()))
            d = np.where(np.asarray(active[i], dtype=bool), 1., self.c(i))
            G = d[:, None] * G
            g = d * g
        return self.Ws[-1] @ G, self.Ws[-1] @ g + self.b(len(self.Ws) - 1), \
            pre

    def gradients(self, x, tol=1e-7, cap=64):
        """gradients of all combinations of activations, units with
        |pre-activation| <= tol taken both ways (superset of the adjacent
        pieces' gradients).  list of (n_out, n_in)."""
        import itertools
        pre = self.layers(x)[0]
        ambig = [(i, j) for i, a in enumerate(pre)
                 for j in range(len(a)) if abs(a[j]) <= tol]
        base = [a > 0 for a in pre]
        out = []
        if 2**len(ambig) > cap:
            return None
        for comb in itertools.product((False, True), repeat=len(ambig)):
            act = [a.copy() for a in base]
            for (i, j), v in zip(ambig, comb):
                act[i][j] = v
            out.append(self.affine(act)[0])
        return out

    def margin(self, x):
        return min(np.abs(a).min() for a in self.layers(x)[0])

    def snapshot(self):
        return [to_np(p).copy() for p in self.torch.parameters()]

    def unchanged(self, T, what="the network"):
        ps = list(self.torch.parameters())
        k = 0
        for w, b in zip(self.Ws, self.bs):
            T.check(np.array_equal(to_np(ps[k]), w), f"{what} was changed",
                    before=w, after=ps[k])
            k += 1
            if b is not None:
                T.check(np.array_equal(to_np(ps[k]), b),
                        f"{what} was changed", before=b, after=ps[k])
                k += 1

    def ia(self, lo, up):
        """interval arithmetic: (pre_lo, pre_up lists, out_lo, out_up)"""
        L, U = np.array(lo, dtype=float), np.array(up, dtype=float)
        pl, pu = [], []
        for i, w in enumerate(self.Ws):
            wp, wn = np.maximum(w, 0), np.minimum(w, 0)
            b = self.b(i)
            a, c = wp @ L + wn @ U + b, wp @ U + wn @ L + b
            if i == len(self.Ws) - 1:
                return pl, pu, a, c
            pl.append(a)
            pu.append(c)
            s = self.c(i)
            L, U = (np.where(t > 0, t, s * t) for t in (a, c))


def slope(T):
    return T.choice((None, 0.1, 0.01, 0.3, 0.75))


def net(T, n_in, n_out, max_hidden=2, max_width=4, sl="draw", min_hidden=1,
        wmax=1.5, last_bias=None, min_width=1):
    h = T.int(min_hidden, max_hidden)
    widths = [T.int(min_width, max_width) for _ in range(h)]
    if T.large:
        h = max(min_hidden, min(h, 2))
        widths = [T.int(9, 16 if h == 1 else 11) for _ in range(h)]
        wmax = .6 * wmax
    if sl == "draw":
        sl = slope(T)
        if h > 1 and T.int(0, 3) == 0:
            # layers with slopes of their own
            sl = [slope(T) for _ in range(h)]
    s = sl
    coarse = T.int(0, 3) == 0
    dims = [n_in] + widths + [n_out]
    Ws, bs = [], []
    for i in range(len(dims) - 1):
        Ws.append(T.array((dims[i + 1], dims[i]), -wmax, wmax, coarse))
        hb = T.int(0, 3) > 0
        if i == len(dims) - 2 and last_bias is not None:
            hb = last_bias
        bs.append(T.array((dims[i + 1], ), -1., 1., coarse) if hb else None)
    return Net(Ws, bs, s)


def box(T, n, half=2., degenerate=False):
    """lo < up (lo == up in single coordinates when degenerate)."""
    lo = T.array((n, ), -half, half * .75, coarse=T.int(0, 2) == 0)
    w = T.array((n, ), .125, half, coarse=T.int(0, 2) == 0)
    kind = T.int(0, 5)
    if kind == 0:
        lo = -w        # symmetric about zero
        w = 2 * w
    elif kind == 1:
        lo = np.zeros(n)   # touching zero
    if degenerate and T.int(0, 5) == 0:
        w[T.int(0, n - 1)] = 0.
    return lo, lo + w


def sym_box(T, n, half=2.):
    """a box that contains the origin strictly inside"""
    coarse = T.int(0, 2) == 0
    return -T.array((n, ), .25, half, coarse), T.array((n, ), .25, half,
                                                       coarse)


def inside(T, lo, up):
    """a point of the box: corners, faces, centre, generic"""
    n = len(lo)
    if T.large:
        if getattr(T, "bulk", None) is None:
            T.bulk = T.rng()
        m = T.bulk.random(n)
        k = T.bulk.integers(0, 4)
        if k == 0:
            m = np.round(2 * m) / 2.
        return np.clip(lo + m * (up - lo), lo, up)
    k = T.int(0, 3)
    if k == 0:
        m = np.array([T.int(0, 2) for _ in range(n)]) / 2.
    else:
        m = np.array(T.floats(n, 0., 1., coarse=(k == 1)))
    return np.clip(lo + m * (up - lo), lo, up)


def outside(T, lo, up):
    """a point off the box by a clear margin in one coordinate"""
    x = inside(T, lo, up)
    i = T.int(0, len(lo) - 1)
    d = T.float(.02, 1.5)
    x[i] = up[i] + d if T.bool() else lo[i] - d
    return x


def t(a, dtype=DT):
    return torch.tensor(np.asarray(a, dtype=float), dtype=dtype)


def cloud(T, lo, up, n):
    """n random points of the box plus some corners"""
    r = T.rng()
    m = r.random((n, len(lo)))
    k = n // 4
    m[:k] = r.integers(0, 2, (k, len(lo)))
    return np.clip(lo + m * (up - lo), lo, up)
