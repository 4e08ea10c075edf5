# TECHNIQUE: property-based testing (Hypothesis): generated architectures, parameter vectors, boxes, grids, data sets and controllers; round trips (pack/unpack, save/load) and comparison with an independent NumPy evaluation, hand-written Adam and the definitions
# NOTE: training is compared for full batches (exactly reproducible); for mini-batches the batches seen by the model are recorded and must partition the data.
"""P32 Network construction, packing, saving and sampling."""
import contextlib
import copy
import io
import os
import re
import shutil
import tempfile
from unittest import mock

import numpy as np
import torch
from scipy.integrate import solve_ivp

import training
import systems
from pbt import case
import neural_network_lyapunov.lyapunov as lyapunov
import neural_network_lyapunov.utils as utils
import gurobipy

del systems

PROPERTY = "P32"
SCALE = 2
RULE = ("networks: at least one hidden layer; samplers: at least two "
        "dimensions; training: at least two updates; helpers: every case")
ASSUMPTIONS = ["one fixed pseudo-random stream per case"]


def architecture(T, n_max=4):
    """widths, slope, bias flag, dtype"""
    depth = T.int(0, 3)
    w = tuple(T.int(1, n_max) for _ in range(depth + 2))
    return (w, T.choice((0., .01, .1, .5, 1.2)), T.bool(),
            T.choice((torch.float64, torch.float64, torch.float32)))


def count(w, bias):
    return sum(w[i] * w[i + 1] + (w[i + 1] if bias else 0)
               for i in range(len(w) - 1))


def evaluate(theta, w, slope, bias, x):
    """the network of the packed parameters, layer by layer"""
    k = 0
    a = x
    for i in range(len(w) - 1):
        m = w[i] * w[i + 1]
        a = a @ theta[k:k + m].reshape(w[i + 1], w[i]).T
        k += m
        if bias:
            a = a + theta[k:k + w[i + 1]]
            k += w[i + 1]
        if i < len(w) - 2:
            a = np.where(a > 0, a, slope * a)
    return a


def gradient(theta, w, slope, bias, x):
    """d sum(network(x)) / d theta for one x, by the chain rule"""
    acts, pre = [x], []
    k, ws = 0, []
    for i in range(len(w) - 1):
        m = w[i] * w[i + 1]
        W = theta[k:k + m].reshape(w[i + 1], w[i])
        k += m
        z = W @ acts[-1]
        if bias:
            z = z + theta[k:k + w[i + 1]]
            k += w[i + 1]
        ws.append(W)
        pre.append(z)
        acts.append(np.where(z > 0, z, slope * z))
    out = []
    d = np.ones(w[-1])
    for i in reversed(range(len(w) - 1)):
        if i < len(w) - 2:
            d = d * np.where(pre[i] > 0, 1., slope)
        out.append(np.concatenate([np.outer(d, acts[i]).ravel()] +
                                  ([d] if bias else [])))
        d = ws[i].T @ d
    return np.concatenate(out[::-1]), min(
        [1.] + [abs(z).min() for z in pre[:-1]])


def tol(dt):
    return dict(atol=1e-10, rtol=1e-10) if dt == torch.float64 else dict(
        atol=2e-4, rtol=2e-4)


@case(quick=600, thorough=30000, shards=4, large=30)
def networks(T):
    w, slope, bias, dt = architecture(T)
    n = count(w, bias)
    T.nontrivial(len(w) > 2)
    T.label(f"hidden layers {len(w) - 2}", f"bias {bias}", str(dt))
    T.seed()
    tp = T.tensor((n, ), -1.5, 1.5, dtype=dt)
    theta = tp.numpy().astype(float)
    given = T.bool()
    X = T.tensor((T.count(1, 4), w[0]), -2, 2, dtype=dt)
    net = utils.setup_relu(w, params=tp if given else None,
                           negative_slope=slope, bias=bias, dtype=dt)
    T.check(isinstance(net, torch.nn.Sequential), "type")
    lin = [m for m in net if isinstance(m, torch.nn.Linear)]
    T.check(len(net) == 2 * len(w) - 3 and len(lin) == len(w) - 1,
            "number of layers", got=len(net), widths=w)
    for i, m in enumerate(net):
        T.check(isinstance(m, torch.nn.Linear if i % 2 == 0 else
                           torch.nn.LeakyReLU), "layer", i=i)
    for p in net.parameters():
        T.check(p.dtype == dt and p.requires_grad, "dtype of a parameter",
                got=p.dtype, expected=dt)
    got = utils.extract_relu_parameters(net)
    T.check(got.shape == (n, ) and got.dtype == dt, "packed parameters",
            got=got.shape, expected=n)
    if given:
        T.check(torch.equal(got, tp), "building, then extracting", got=got,
                expected=tp)
    else:
        T.close(evaluate(got.numpy().astype(float), w, slope, bias,
                         X.numpy().astype(float)), net(X),
                "value of the random network", **tol(dt))
        utils.update_relu_params(net, tp)
        T.check(torch.equal(utils.extract_relu_parameters(net), tp),
                "updating, then extracting")
    T.close(net(X), evaluate(theta, w, slope, bias, X.numpy().astype(float)),
            "value of the network", widths=w, slope=slope, **tol(dt))
    # the structure
    ws, s, b = utils.extract_relu_structure(net)
    T.check(tuple(ws) == w and isinstance(ws, tuple), "widths", got=ws,
            expected=w)
    T.check(b is bias, "bias flag", got=b)
    T.check(s == slope if len(w) > 2 else s is None, "slope", got=s,
            expected=slope)
    # the gradient vector
    T.check(torch.equal(utils.extract_relu_parameters_grad(net),
                        torch.zeros(n, dtype=dt)),
            "gradient before any backward pass")
    g, margin = gradient(theta, w, slope, bias, X[0].numpy().astype(float))
    if margin > 1e-4:
        net(X[0]).sum().backward()
        gg = utils.extract_relu_parameters_grad(net)
        T.close(gg, g, "packed gradient", **tol(dt))
        if T.bool():
            # one layer without a gradient
            i = T.int(0, len(lin) - 1)
            lin[i].weight.grad = None
            k = sum(w[j] * w[j + 1] + (w[j + 1] if bias else 0)
                    for j in range(i))
            g2 = g.copy()
            g2[k:k + w[i] * w[i + 1]] = 0
            T.close(utils.extract_relu_parameters_grad(net), g2,
                    "packed gradient with an unused layer", **tol(dt))
            T.close(gg, g, "the packed gradient is a view", **tol(dt))
        utils.network_zero_grad(net)
        T.check(torch.equal(utils.extract_relu_parameters_grad(net),
                            torch.zeros(n, dtype=dt)), "zeroed gradient")
        T.check(torch.equal(utils.extract_relu_parameters(net), tp),
                "zeroing the gradient changes the parameters")
    # neither direction shares memory with the vector
    packed = utils.extract_relu_parameters(net)
    keep = packed.clone()
    vec = tp.clone()
    utils.update_relu_params(net, vec)
    with torch.no_grad():
        for p in net.parameters():
            p += 1.
    T.check(torch.equal(packed, keep), "extracted parameters change with "
            "the network")
    T.check(torch.equal(vec, tp), "changing the network changes the vector "
            "it was updated from")
    utils.update_relu_params(net, vec)
    vec += 1.
    T.check(torch.equal(utils.extract_relu_parameters(net), tp),
            "changing the vector changes the network updated from it")
    net2 = utils.setup_relu(w, params=vec, negative_slope=slope, bias=bias,
                            dtype=dt)
    k2 = vec.clone()
    vec -= 1.
    T.check(torch.equal(utils.extract_relu_parameters(net2), k2),
            "changing the vector changes the network built from it")


def same(T, b, a, msg):
    if isinstance(a, (torch.Tensor, np.ndarray)):
        T.close(b, a, msg, 0, 0)
    elif isinstance(a, (list, tuple)):
        T.check(len(a) == len(b), msg + ": length")
        for p, q in zip(b, a):
            same(T, p, q, msg)
    else:
        T.check(b == a, msg, got=b, expected=a)


def reload(net_data, dt):
    net = utils.setup_relu(net_data["linear_layer_width"], params=None,
                           negative_slope=net_data["negative_slope"],
                           bias=net_data["bias"], dtype=dt)
    net.load_state_dict(net_data["state_dict"])
    return net


@case(quick=250, thorough=8000, shards=4)
def saving(T):
    w, slope, bias, dt = architecture(T)
    relu_units = T.bool()
    theta = T.tensor((count(w, bias), ), -1.5, 1.5, dtype=dt)
    net = utils.setup_relu(w, params=theta, negative_slope=slope, bias=bias,
                           dtype=dt)
    if relu_units:
        # (leaky) ReLU networks: both kinds of unit
        net = torch.nn.Sequential(*[
            torch.nn.ReLU() if isinstance(m, torch.nn.LeakyReLU) else m
            for m in net])
    kind = T.choice(("controller", "lyapunov", "forward"))
    T.nontrivial(len(w) > 2)
    T.label(kind)
    d = tempfile.mkdtemp(prefix="verif-p32-")
    try:
        f = os.path.join(d, "model.pt")
        n, m = T.int(1, 3), T.int(1, 3)
        if kind == "controller":
            v = dict(x_lo=T.tensor((n, )), x_up=T.tensor((n, ), 1., 2.),
                     u_lo=T.tensor((m, )), u_up=T.tensor((m, ), 1., 2.))
            utils.save_controller_model(net, v["x_lo"], v["x_up"], v["u_lo"],
                                        v["u_up"], f)
        elif kind == "forward":
            v = dict(q_equilibrium=T.tensor((n, )),
                     u_equilibrium=T.tensor((m, )), dt=T.float(.001, .1))
            utils.save_second_order_forward_model(
                net, v["q_equilibrium"], v["u_equilibrium"], v["dt"], f)
        else:
            R = training.roptions(T, n, fixed=T.bool())
            v = dict(V_lambda=T.float(0., 1.),
                     lyapunov_positivity_epsilon=T.float(0., .5),
                     lyapunov_derivative_epsilon=T.float(0., .5),
                     eps_type=T.choice((
                         lyapunov.ConvergenceEps.ExpLower,
                         lyapunov.ConvergenceEps.ExpUpper,
                         lyapunov.ConvergenceEps.Asymp)))
            utils.save_lyapunov_model(
                net, v["V_lambda"], v["lyapunov_positivity_epsilon"],
                v["lyapunov_derivative_epsilon"], v["eps_type"], R, f)
            v["R"] = R.R().detach().clone()
            v["fixed_R"] = R.fixed_R
            for k, a in R.extract_params().items():
                v[k] = copy.deepcopy(a)
            T.label("fixed R" if R.fixed_R else "free R")
        # what is saved is the state at the time of saving
        with torch.no_grad():
            for p in net.parameters():
                p += 1.
        T.check(os.path.isfile(f), "nothing is saved", kind=kind)
        data = torch.load(f, weights_only=False)
    finally:
        shutil.rmtree(d)
    T.check(tuple(data["linear_layer_width"]) == w and data["bias"] is bias,
            "saved structure", got=data["linear_layer_width"], expected=w)
    got = reload(data, dt)
    T.check(torch.equal(utils.extract_relu_parameters(got), theta),
            "parameters after saving and loading")
    X = T.tensor((3, w[0]), -2, 2, dtype=dt)
    T.close(got(X), evaluate(
        theta.numpy().astype(float), w, 0. if relu_units else slope, bias,
        X.numpy().astype(float)), "value after saving and loading", kind=kind,
        **tol(dt))
    for k, a in v.items():
        T.check(k in data, "a saved entry is missing", key=k)
        same(T, data[k], a, "saved " + k)


def rand_edges(T, tamper):
    """torch.rand whose result contains the ends of [0, 1)"""
    orig = torch.rand
    top = {torch.float64: 1 - 2.**-53, torch.float32: 1 - 2.**-24}

    def rand(*a, **k):
        r = orig(*a, **k)
        if r.numel() and r.dtype in top:
            flat = r.view(-1)
            flat[0] = 0.
            flat[-1] = top[r.dtype]
        return r
    return mock.patch.object(torch, "rand", rand) if tamper \
        else contextlib.nullcontext()


@case(quick=400, thorough=15000, shards=4)
def samplers(T):
    n = T.int(1, 4)
    dt = T.choice((torch.float64, torch.float64, torch.float32))
    lo = T.tensor((n, ), -2., 1.5, dtype=dt)
    up = lo + T.tensor((n, ), .125, 2., dtype=dt)
    T.nontrivial(n > 1)
    eps = 1e-9 if dt == torch.float64 else 1e-5
    # grid
    mesh = tuple(T.int(1, 4) for _ in range(n))
    l, u = (lo, up) if T.bool() else (lo.tolist(), up.tolist())
    g = utils.get_meshgrid_samples(l, u, mesh, dt)
    T.check(g.shape == (int(np.prod(mesh)), n) and g.dtype == dt,
            "shape of the grid", got=g.shape, mesh=mesh)
    axes = [np.linspace(float(lo[i]), float(up[i]), mesh[i]) if mesh[i] > 1
            else None for i in range(n)]
    for i in range(n):
        col = g[:, i].numpy().astype(float)
        T.check(np.all(col >= float(lo[i]) - eps) and
                np.all(col <= float(up[i]) + eps), "grid point off the box")
        if mesh[i] > 1:
            ax = axes[i]
        else:
            T.check(np.ptp(col) <= eps, "one grid value")
            ax = col[:1]
            axes[i] = ax
        T.check(np.all(abs(col[:, None] - ax).min(axis=1) <= 1e-5 + eps),
                "grid value", got=col, expected=ax)
    idx = np.stack([abs(g[:, i].numpy()[:, None] - axes[i]).argmin(axis=1)
                    for i in range(n)], axis=1)
    T.check(len({tuple(r) for r in idx}) == len(idx),
            "a grid point is missing or repeated", mesh=mesh)
    # random points of the box
    T.seed()
    N = T.choice((0, 1, 2, 7, 40, 400))
    with rand_edges(T, T.bool()):
        s = utils.uniform_sample_in_box(lo, up, N)
    T.check(s.shape == (N, n), "shape of the samples", got=s.shape)
    T.check(s.dtype == dt, "dtype of the samples", got=s.dtype, expected=dt)
    T.check(bool(((s >= lo - eps) & (s <= up + eps)).all()),
            "sample off the box", lo=lo, up=up)
    if N == 400:
        m = ((s - lo) / (up - lo)).numpy()
        # (every quarter of every axis; 8 standard deviations)
        for i in range(n):
            h = np.histogram(m[:, i], bins=4, range=(-1e-4, 1 + 1e-4))[0]
            T.check(np.all(abs(h - 100) < 8 * np.sqrt(75)),
                    "samples are not uniform", axis=i, got=h)
        if n > 1:
            c = np.corrcoef(m.T) - np.eye(n)
            T.check(np.abs(c).max() < .4, "coordinates are dependent", got=c)
    # the boundary
    N = T.choice((0, 1, 5, 40, 400))
    with rand_edges(T, T.bool()):
        s = utils.uniform_sample_on_box_boundary(lo, up, N)
    T.check(s.shape == (N, n), "shape of the boundary samples", got=s.shape)
    T.check(bool(((s >= lo - eps) & (s <= up + eps)).all()),
            "boundary sample off the box", lo=lo, up=up)
    onlo, onup = (s == lo), (s == up)
    T.check(bool((onlo | onup).any(dim=1).all()), "sample inside the box")
    if N == 400:
        for i in range(n):
            T.check(bool(onlo[:, i].any()) and bool(onup[:, i].any()),
                    "a face gets no sample", axis=i)
            f = s[onlo[:, i] | onup[:, i]]
            for j in range(n):
                if j != i:
                    m = ((f[:, j] - lo[j]) / (up[j] - lo[j])).numpy()
                    T.check(m.max() > .6 and m.min() < .4,
                            "a face is not covered", axis=i)


@case(quick=500, thorough=30000, shards=4)
def helpers(T):
    which = T.int(0, 6)
    T.nontrivial()
    if which == 0:
        T.label("find_nearest")
        k = T.int(1, 8)
        a = T.array((k, ), -3, 3)
        v = T.float(-4, 4)
        got = utils.find_nearest(a.tolist() if T.bool() else a, v)
        T.check(got in a, "not an element of the array")
        T.close(abs(got - v), abs(a - v).min(), "distance", 0, 0)
    elif which == 1:
        T.label("loss_reduction")
        x = T.tensor((T.int(1, 6), ), -2, 2)
        z = x.numpy()
        for r, e in (("mean", z.sum() / len(z)), ("max", z.max()),
                     ("4norm", (z**4).sum()**.25)):
            got = utils.loss_reduction(x, r)
            T.check(got.shape == (), "shape")
            T.close(got, e, "reduction " + r, 1e-9, 1e-9)
    elif which == 2:
        T.label("compare_numpy_matrices")
        sh = T.choice(((3, ), (2, 2), (1, 4)))
        a = T.array(sh, -2, 2)
        b = a.copy()
        rt, at = T.choice((0., 1e-3, .1)), T.choice((0., 1e-3, .1))
        lim = at + rt * abs(b)
        d = np.zeros(sh)
        i = np.unravel_index(T.int(0, a.size - 1), sh)
        d[i] = T.choice((-1, 1)) * (lim[i] * T.choice((.5, 1.5)) +
                                    T.choice((0., 0., 1e-6)))
        if abs(abs(d[i]) - lim[i]) < 1e-9 and lim[i] > 0:
            T.reject("on the border")
        act = b + d
        with contextlib.redirect_stdout(io.StringIO()):
            got = utils.compare_numpy_matrices(act, b, rt, at)
        T.check(got is bool(np.all(abs(act - b) <= lim)), "comparison",
                got=got, difference=d[i], limit=lim[i])
        T.label(f"equal {got}")
    elif which == 3:
        T.label("compute_numerical_gradient")
        k = T.int(1, 3)
        ns = [T.int(1, 3) for _ in range(k)]
        m = T.int(1, 3)
        vec = T.bool()
        if not vec:
            m = 1
        A = [T.array((m, j), -1, 1) for j in ns]
        Q = [T.array((m, j), -1, 1) for j in ns]
        b = T.array((m, ), -1, 1)

        def f(*xs):
            r = b.copy()
            for q, a, x in zip(Q, A, xs):
                r = r + a @ x + q @ (x**2)
            # (a product across the arguments)
            r = r + np.prod([x[0] for x in xs])
            return r if vec else float(r[0])
        xs = [T.array((j, ), -1, 1) for j in ns]
        keep = [x.copy() for x in xs]
        kw = {} if T.bool() else dict(dx=T.choice((1e-5, 1e-4)))
        got = utils.compute_numerical_gradient(f, *xs, **kw)
        if k == 1:
            got = [got]
        T.check(isinstance(got, list) and len(got) == k,
                "one gradient per argument", got=type(got))
        for i in range(k):
            e = A[i] + 2 * Q[i] * xs[i]
            e[:, 0] += np.prod([xs[j][0] for j in range(k) if j != i])
            T.close(got[i], e if vec else e[0], "numerical gradient", 1e-5,
                    1e-5, argument=i)
            T.close(xs[i], keep[i], "the argument was changed", 0, 0)
    elif which == 4:
        T.label("torch_to_numpy")
        sh = T.choice(((2, 3), (1, 3), (3, 1), (1, 1), (4, ), (2, 1, 2)))
        a = T.tensor(sh)
        if T.bool():
            a.requires_grad_(True)
        other = T.choice((None, 1.5, np.array([[2.]])))
        b = T.tensor((3, ))
        sq = T.bool()
        kw = {} if sq and T.bool() else dict(squeeze=sq)
        got = utils.torch_to_numpy([a, other, b], **kw)
        T.check(len(got) == 3 and got[1] is other, "list", got=got)
        e = a.detach().numpy()
        T.close(got[0], np.squeeze(e) if sq else e, "array", 0, 0)
        T.close(got[2], b, "array", 0, 0)
        T.check(isinstance(got[0], np.ndarray), "type")
    elif which == 5:
        T.label("get_simple_trajopt_cost")
        ds = [T.int(1, 4) for _ in range(3)]
        dt = T.choice((torch.float64, torch.float32))
        c = utils.get_simple_trajopt_cost(*ds, dt)
        T.check(len(c) == 12, "number of terms")
        for i, a in enumerate(c):
            k = ds[i % 3]
            quad = (i // 3) % 2 == 0
            T.check(a.shape == ((k, k) if quad else (k, )) and a.dtype == dt,
                    "shape of a cost term", i=i, got=a.shape)
            if quad:
                T.check(torch.equal(a, a.T) and
                        bool((torch.linalg.eigvalsh(a) > 0).all()),
                        "a quadratic term is not positive definite", i=i)
    else:
        T.label("terminate-if callback")
        th = T.float(-1, 1)
        cb = utils.get_gurobi_terminate_if_callback(th)
        G = gurobipy.GRB
        where = T.choice((G.Callback.MIPNODE, G.Callback.MIPNODE,
                          G.Callback.MIP, G.Callback.MIPSOL))
        cnt = T.int(0, 2)
        st = T.choice((G.Status.OPTIMAL, G.Status.OPTIMAL,
                       G.Status.INFEASIBLE))
        best = th + T.choice((-1., -1e-6, 0., 1e-6, 1.))
        if cnt == 0:
            best = T.choice((-1e100, best))
        ended = []

        class Model:
            def cbGet(self, what):
                if where == G.Callback.MIPNODE:
                    r = {G.Callback.MIPNODE_SOLCNT: cnt,
                         G.Callback.MIPNODE_STATUS: st,
                         G.Callback.MIPNODE_OBJBST: best}
                    if what in r:
                        return r[what]
                raise gurobipy.GurobiError("not available here")

            def terminate(self):
                ended.append(1)
        cb(Model(), where)
        exp = where == G.Callback.MIPNODE and cnt > 0 and best > th and \
            st == G.Status.OPTIMAL
        T.check(bool(ended) == exp, "termination", got=bool(ended),
                expected=exp, solutions=cnt, best=best, threshold=th)
        T.label(f"terminates {exp}")


def adam(theta, gradf, lr, steps, b1=.9, b2=.999, eps=1e-8):
    m = np.zeros_like(theta)
    v = np.zeros_like(theta)
    for t in range(1, steps + 1):
        g = gradf(theta)
        m = b1 * m + (1 - b1) * g
        v = b2 * v + (1 - b2) * g**2
        theta = theta - lr * (m / (1 - b1**t)) / (
            np.sqrt(v / (1 - b2**t)) + eps)
    return theta


class Recorder(torch.nn.Sequential):
    """remembers what it was evaluated at"""
    def forward(self, x):
        self.__dict__.setdefault("seen", []).append(x.detach().clone())
        return super().forward(x)


def rows(X):
    return sorted(map(tuple, np.round(np.asarray(X, dtype=float), 12)
                      .tolist()))


@case(quick=120, thorough=4000, shards=4, weight=3, large=12)
def train_model(T):
    n, m = T.int(1, 3), T.int(1, 2)
    N = T.span(1, 9, 20, 300)
    batch = T.span(1, 12, 8, 80)
    epochs = T.int(1, 4)
    lr = T.choice((1e-3, 1e-2, .1))
    hidden = T.int(0, 3)
    w = (n, hidden, m) if hidden else (n, m)
    theta = T.tensor((count(w, True), ), -1, 1, coarse=False)
    net = Recorder(*utils.setup_relu(w, params=theta, negative_slope=.1))
    X = torch.tensor(T.rng().uniform(-1, 1, (N, n)))
    Y = torch.tensor(T.rng().uniform(-1, 1, (N, m)))
    T.seed()
    with contextlib.redirect_stdout(io.StringIO()) as out:
        ret = utils.train_model(net, X, Y, batch_size=batch,
                                num_epoch=epochs, learning_rate=lr,
                                print_loss=T.bool())
    del out
    T.check(ret is net, "the trained model is returned")
    seen = net.__dict__["seen"]
    per = -(-N // batch)
    T.nontrivial(per * epochs >= 2)
    T.check(len(seen) == per * epochs, "number of updates", got=len(seen),
            expected=per * epochs)
    for e in range(epochs):
        S = torch.cat(seen[e * per:(e + 1) * per])
        T.check(rows(S) == rows(X), "an epoch visits every sample once",
                epoch=e)
        T.check(all(len(s) <= batch for s in seen), "batch size")
    # the updates, replayed on the batches seen (labels by their inputs)
    net2 = utils.setup_relu(w, params=theta, negative_slope=.1)
    k = [0]

    def gradf(th):
        b = seen[k[0]].numpy()
        k[0] += 1
        lab = Y[[int(abs(X.numpy() - r).sum(axis=1).argmin()) for r in b]]
        utils.update_relu_params(net2, torch.tensor(th))
        for p in net2.parameters():
            p.grad = None
        # squared error, divided by the batch size asked for
        (((net2(torch.tensor(b)) - lab)**2).sum() / batch).backward()
        return torch.cat([p.grad.reshape(-1) for p in net2.parameters()]
                         ).numpy()
    exp = adam(theta.numpy().copy(), gradf, lr, len(seen))
    T.close(utils.extract_relu_parameters(net), exp, "trained parameters",
            1e-6, 1e-6, batch=batch, samples=N)


@case(quick=120, thorough=4000, shards=4, weight=3, large=12)
def train_approximator(T):
    n, m = T.int(1, 3), T.int(1, 2)
    N = T.span(5, 14, 20, 300)
    batch = T.span(1, 12, 8, 80)
    epochs = T.int(1, 4)
    lr = T.choice((1e-3, 1e-2, .1))
    hidden = T.int(0, 3)
    w = (n, hidden, m) if hidden else (n, m)
    theta = T.tensor((count(w, True), ), -1, 1, coarse=False)
    net = utils.setup_relu(w, params=theta, negative_slope=.1)
    X = torch.tensor(T.rng().uniform(-1, 1, (N, n)))
    Y = torch.tensor(T.rng().uniform(-1, 1, (N, m)))
    extra = T.tensor((m, ), -1, 1, coarse=False) if T.bool() else None
    start = theta.numpy().copy()
    args = {}
    if extra is not None:
        start = np.concatenate((start, extra.numpy()))
        extra.requires_grad_(True)
        args["shift"] = extra
        T.label("additional variable")
    scale = T.choice((None, .5))
    if scale is not None:
        args["scale"] = scale
    log = []

    def output(model, x, shift=None, scale=1.):
        T.check((shift is extra) and (scale == args.get("scale", 1.)),
                "arguments of the output function", shift=shift, scale=scale)
        y = model(x) * scale
        if shift is not None:
            y = y + shift
        log.append((x.detach().clone(), y.detach().clone(),
                    torch.is_grad_enabled()))
        return y
    T.seed()
    with contextlib.redirect_stdout(io.StringIO()) as out:
        utils.train_approximator(
            torch.utils.data.TensorDataset(X, Y), net, output, batch, epochs,
            lr, additional_variable=None if extra is None else [extra],
            output_fun_args=args, verbose=True)
    ntrain = int(.8 * N)
    per = -(-ntrain // batch)
    T.nontrivial(per * epochs >= 2)
    T.check(len(log) == epochs * (per + 1), "number of evaluations",
            got=len(log), expected=epochs * (per + 1))
    train = None
    updates, reported = [], []
    for e in range(epochs):
        part = log[e * (per + 1):(e + 1) * (per + 1)]
        tr = rows(torch.cat([p[0] for p in part[:-1]]))
        te = rows(part[-1][0])
        T.check(len(tr) == ntrain and len(te) == N - ntrain,
                "sizes of the training and the test set", got=(len(tr),
                                                               len(te)))
        T.check(sorted(tr + te) == rows(X), "training and test set are a "
                "partition of the data", epoch=e)
        T.check(train is None or tr == train, "the training set changes",
                epoch=e)
        train = tr
        updates += [p[0] for p in part[:-1]]

        def mse(p):
            return float(((p[1] - label(X, Y, p[0]))**2).mean())
        reported.append((np.mean([mse(p) for p in part[:-1]]),
                         mse(part[-1])))
    got = re.findall(r"training loss ([-+0-9.einf]+),\s*test loss "
                     r"(?:tensor\()?([-+0-9.einf]+)", out.getvalue())
    if len(got) == epochs:
        for e in range(epochs):
            T.close(float(got[e][0]), reported[e][0], "reported training "
                    "loss", 1e-3, 1e-3, epoch=e)
            T.close(float(got[e][1]), reported[e][1], "reported test loss",
                    1e-3, 1e-3, epoch=e)
    net2 = utils.setup_relu(w, params=theta, negative_slope=.1)
    k = [0]
    nt = theta.numel()

    def gradf(th):
        b = updates[k[0]]
        k[0] += 1
        utils.update_relu_params(net2, torch.tensor(th[:nt]))
        sh = torch.tensor(th[nt:], requires_grad=True)
        y = net2(b) * (1. if scale is None else scale)
        if extra is not None:
            y = y + sh
        for p in net2.parameters():
            p.grad = None
        ((y - label(X, Y, b))**2).mean().backward()
        g = [p.grad.reshape(-1) for p in net2.parameters()]
        if extra is not None:
            g.append(sh.grad)
        return torch.cat(g).numpy()
    exp = adam(start, gradf, lr, len(updates))
    T.close(utils.extract_relu_parameters(net), exp[:nt],
            "trained parameters", 1e-6, 1e-6)
    if extra is not None:
        T.close(extra, exp[nt:], "trained additional variable", 1e-6, 1e-6)


def label(X, Y, b):
    return Y[[int(abs(X.numpy() - r).sum(axis=1).argmin())
              for r in b.numpy()]]


@case(quick=120, thorough=4000, shards=4, weight=4)
def simulation(T):
    n, m = T.int(1, 3), T.int(1, 2)
    # a discrete-time system, stepped
    A = T.tensor((n, n), -1, 1)

    class Sys:
        def step_forward(self, x):
            return A @ torch.tanh(x) + .1
    x = T.tensor((n, ), -2, 2)
    k = T.choice((T.int(0, 6), T.int(0, 6), T.int(7, 40)))
    path = utils.step_system(Sys(), x, k)
    T.check(len(path) == k + 1, "length of the path", got=len(path))
    z = x.numpy()
    for i in range(k + 1):
        T.close(path[i], z, "state on the path", 1e-12, 1e-12, step=i)
        T.check(not path[i].requires_grad, "gradient along the path")
        z = A.numpy() @ np.tanh(z) + .1
    # a plant under the saturated controller
    hidden = T.int(1, 4)
    theta = T.array((count((n, hidden, m), True), ), -1.5, 1.5)
    net = utils.setup_relu((n, hidden, m), params=torch.tensor(theta),
                           negative_slope=.1)
    F = T.array((n, n), -1, 1)
    B = T.array((n, m), -1, 1)
    xs, us = T.array((n, ), -.5, .5), T.array((m, ), -.3, .3)
    at = T.choice(("general", "general", "state zero", "control zero",
                   "both zero"))
    xs = xs * 0 if at in ("state zero", "both zero") else xs
    us = us * 0 if at in ("control zero", "both zero") else us
    ulo = us - T.array((m, ), .1, 1.)
    uup = us + T.array((m, ), .1, 1.)
    x0 = T.array((n, ), -1.5, 1.5)
    t0, dur = T.choice((0., 0., 1.)), T.float(.05, 1.)
    sat = [0]

    def control(x):
        u = evaluate(theta, (n, hidden, m), .1, True, x) - \
            evaluate(theta, (n, hidden, m), .1, True, xs) + us
        sat[0] += bool(np.any(u < ulo) or np.any(u > uup))
        return np.clip(u, ulo, uup)

    class Plant:
        calls = 0

        def dynamics(self, x, u):
            T.check(isinstance(u, np.ndarray) and u.shape == (m, ),
                    "control", got=type(u))
            T.close(u, control(np.asarray(x)), "control along the "
                    "simulation", 1e-9, 1e-9, state=x, lo=ulo, up=uup)
            self.calls += 1
            return F @ x + B @ u
    plant = Plant()
    r = utils.simulate_plant_with_controller(
        plant, net, (t0, t0 + dur), torch.tensor(xs), torch.tensor(us),
        torch.tensor(ulo), torch.tensor(uup), x0)
    T.nontrivial(sat[0] > 0 and n > 1)
    T.label("saturated" if sat[0] else "not saturated")
    T.check(plant.calls > 0, "the plant is not called")
    T.check(r.y.shape == (n, len(r.t)), "shape", got=r.y.shape)
    T.close(r.t[0], t0, "first time", 1e-12, 0)
    T.check(np.all(r.t >= t0) and np.all(r.t <= t0 + dur + 1e-9) and
            np.all(np.diff(r.t) > 0) and r.t[-1] >= t0 + dur - .02,
            "times of the simulation", got=(r.t[0], r.t[-1]))
    # (the accuracy of the integrator is its own: 1e-3 per step, more where
    # the controller has kinks; its default settings are one reference, a
    # tight integration is the other)
    f = (lambda t, x: F @ x + B @ control(x))
    ref = solve_ivp(f, (t0, t0 + dur), x0, t_eval=r.t, rtol=1e-9, atol=1e-10)
    ref2 = solve_ivp(f, (t0, t0 + dur), x0, t_eval=r.t)
    if abs(r.y - ref2.y).max() > 1e-6:
        T.close(r.y, ref.y, "simulated states", 5e-2, 5e-2)
