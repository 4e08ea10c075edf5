# TECHNIQUE: property-based testing (Hypothesis): generated networks, boxes and inputs; the generated constraint tensors are examined by an independent MILP oracle against a numpy network
# NOTE: At each generated input both extreme admitted outputs (in a generic direction) are computed, so "exactly the network's output" is decided for all slack/binary values at that input; networks up to 3 hidden layers of width 4, inputs up to dimension 3.
import numpy as np
import torch
import neural_network_lyapunov.relu_to_optimization as relu_to_optimization
import neural_network_lyapunov.mip_utils as mip_utils
from pbt import case, to_np
from warm import warm
import gen
import mipo

PROPERTY = "P01"
SCALE = 2
RULE = ("nontrivial: the network has a unit that changes sides on the box "
        "(pre-activation bounds of opposite sign)")
ASSUMPTIONS = ["encoding tolerance 1e-5 (relative), inputs off the box by "
               "at least 0.02 must be rejected"]
M = mip_utils.PropagateBoundsMethod
METHODS = (M.IA, M.LP, M.MIP, M.IA_MIP)


def contains(T, lo, up, v, what, **info):
    lo, up, v = to_np(lo), to_np(up), np.asarray(v)
    tol = 1e-6 * (1 + np.abs(v))
    if np.any(v < lo - tol) or np.any(v > up + tol):
        T.fail(what + " does not contain a value of the network",
               lo=lo, up=up, value=v, **info)


def draw(T, **kw):
    n_in = T.int(1, 3)
    net = gen.net(T, n_in, T.int(1, 3), **kw)
    lo, up = gen.box(T, n_in, degenerate=True)
    return net, lo, up


def setup(T, net, lo, up, method):
    free = relu_to_optimization.ReLUFreePattern(net.torch, gen.DT)
    T.check(free.num_relu_units == net.num_units, "number of units")
    tl, tu = gen.t(lo), gen.t(up)
    warm(T, [net], lambda: free.output_constraint(tl - .2, tu + .1, method),
         lambda: free.output_constraint(tl, tu, method))
    c = free.output_constraint(tl, tu, method)
    T.close(tl, lo, "the box was changed", 0, 0)
    T.close(tu, up, "the box was changed", 0, 0)
    net.unchanged(T)
    T.note(widths=net.hidden, slope=net.slope, method=method.name,
           box=[list(np.round(lo, 3)), list(np.round(up, 3))])
    pl, pu = to_np(c.relu_input_lo), to_np(c.relu_input_up)
    T.nontrivial(bool(np.any((pl < 0) & (pu > 0))))
    T.label(method.name)
    if np.any(pl >= 0):
        T.label("always_active_unit")
    if np.any(pu <= 0):
        T.label("always_inactive_unit")
    return free, c


@case(quick=400, thorough=8000, shards=4, weight=20, large=16)
def encoding(T):
    net, lo, up = draw(T, max_hidden=3)
    method = T.choice(METHODS)
    free, c = setup(T, net, lo, up, method)
    st = mipo.Set(c)
    raw = mipo.Set(c, bounds=False)
    T.check(st.ni == net.n_in and st.ns == net.num_units
            and st.nb == net.num_units, "sizes of the encoding",
            sizes=(st.ni, st.ns, st.nb))
    for k in range(3):
        x = gen.inside(T, lo, up)
        pre, post, y = net.layers(x)
        z = mipo.exact(T, raw if k == 0 else st, x, y, "network encoding",
                       method=method.name)
        # the described pair of layer outputs and activations is a solution
        post, pre = np.concatenate(post), np.concatenate(pre)
        T.check(st.admits(x, post, pre > 0, 1e-6 * (1 + np.abs(
            pre).max())) or np.any(np.abs(pre) < 1e-6),
                "the layer outputs and activations of the input are not "
                "admitted", x=x)
        b = z[net.n_in + net.num_units:]
        sure = np.abs(pre) > 1e-4
        T.check(np.array_equal(np.round(b[sure]) == 1, pre[sure] > 0),
                "binaries do not tell the active side", x=x, got=b, pre=pre)
        T.close(z[net.n_in:net.n_in + net.num_units], post,
                "slacks are not the layer outputs", 1e-5, 1e-5)
    if T.bool():
        mipo.rejects(T, raw, gen.outside(T, lo, up), "network encoding")


@case(quick=300, thorough=6000, shards=3, weight=20, large=16)
def bounds(T):
    net, lo, up = draw(T, max_hidden=3)
    method = T.choice(METHODS)
    free, c = setup(T, net, lo, up, method)
    T.close(c.nn_input_lo, lo, "input bound", 0, 0)
    T.close(c.nn_input_up, up, "input bound", 0, 0)
    slack = 1e-6
    for x in gen.cloud(T, lo, up, 40):
        pre, post, y = net.layers(x)
        contains(T, c.relu_input_lo, c.relu_input_up, np.concatenate(pre),
                 "pre-activation bound", x=x, method=method.name)
        contains(T, c.relu_output_lo, c.relu_output_up,
                 np.concatenate(post), "post-activation bound", x=x,
                 method=method.name)
        contains(T, c.nn_output_lo, c.nn_output_up, y, "output bound", x=x,
                 method=method.name)
    pl, pu, ol, ou = net.ia(lo, up)
    pl, pu = np.concatenate(pl), np.concatenate(pu)
    sc = 1 + np.abs(pl).max() + np.abs(pu).max()
    if method == M.IA:
        T.close(c.relu_input_lo, pl, "interval-arithmetic bound", 1e-9)
        T.close(c.relu_input_up, pu, "interval-arithmetic bound", 1e-9)
        T.close(c.nn_output_lo, ol, "interval-arithmetic bound", 1e-9)
        T.close(c.nn_output_up, ou, "interval-arithmetic bound", 1e-9)
    elif method != M.IA_MIP:
        # (IA_MIP loosens the exact bounds on purpose)
        T.leq(pl, to_np(c.relu_input_lo), "bound looser than interval "
              "arithmetic", slack * sc, method=method.name)
        T.leq(to_np(c.relu_input_up), pu, "bound looser than interval "
              "arithmetic", slack * sc, method=method.name)
        so = 1 + np.abs(ol).max() + np.abs(ou).max()
        T.leq(ol, to_np(c.nn_output_lo), "output bound looser than interval "
              "arithmetic", slack * so, method=method.name)
        T.leq(to_np(c.nn_output_up), ou, "output bound looser than interval "
              "arithmetic", slack * so, method=method.name)
    cs = np.concatenate([np.full(h, net.c(i))
                         for i, h in enumerate(net.hidden)])
    f = lambda a: np.where(a > 0, a, cs * a)
    T.close(c.relu_output_lo, f(to_np(c.relu_input_lo)),
            "post-activation bound", 1e-9)
    T.close(c.relu_output_up, f(to_np(c.relu_input_up)),
            "post-activation bound", 1e-9)


@case(quick=120, thorough=3000, shards=3, weight=40)
def bounds_order(T):
    """LP bounds are no looser than IA's, MIP's no looser than LP's and equal
    to the exact range."""
    net, lo, up = draw(T, max_hidden=2, max_width=3)
    free, ia = setup(T, net, lo, up, M.IA)
    r = {M.IA: ia}
    for m in (M.LP, M.MIP, M.IA_MIP):
        r[m] = free.output_constraint(gen.t(lo), gen.t(up), m)
    sc = 1e-6 * (1 + max(np.abs(to_np(ia.relu_input_lo)).max(),
                         np.abs(to_np(ia.relu_input_up)).max(),
                         np.abs(to_np(ia.nn_output_lo)).max(),
                         np.abs(to_np(ia.nn_output_up)).max()))
    for a, b in ((M.IA, M.LP), (M.LP, M.MIP), (M.IA_MIP, M.MIP)):
        for nm in ("relu_input", "relu_output", "nn_output"):
            T.leq(to_np(getattr(r[a], nm + "_lo")),
                  to_np(getattr(r[b], nm + "_lo")),
                  f"{b.name} {nm} lower bound looser than {a.name}", sc)
            T.leq(to_np(getattr(r[b], nm + "_up")),
                  to_np(getattr(r[a], nm + "_up")),
                  f"{b.name} {nm} upper bound looser than {a.name}", sc)
    # "relax the MIP bound a little bit": far from loosened to the interval
    for nm in ("relu_input", "nn_output"):
        for side, sg in (("_lo", -1.), ("_up", 1.)):
            e, a, m = (sg * to_np(getattr(r[k], nm + side))
                       for k in (M.IA_MIP, M.IA, M.MIP))
            T.leq(e, m + .5 * np.maximum(a - m, 0.) + .03 * np.abs(m) + 2e-3,
                  "IA_MIP bound "
                  "loosened by more than a little", sc, what=nm + side)
    # exact range by an independent encoding with the interval bounds
    st = mipo.Set(ref_encoding(net, lo, up))
    o = net.n_in
    k = 0
    exlo, exup = [], []
    # pre-activation of layer i is affine in the post-activations before it
    off = None
    for i in range(len(net.Ws)):
        for j in range(net.Ws[i].shape[0]):
            c = np.zeros(st.n)
            if i == 0:
                c[:net.n_in] = net.Ws[0][j]
            else:
                c[off:off + net.Ws[i].shape[1]] = net.Ws[i][j]
            s1, v1, _ = st.opt(c)
            s2, v2, _ = st.opt(-c)
            exlo.append(v1 + net.b(i)[j])
            exup.append(-v2 + net.b(i)[j])
        off = o + k
        k += net.Ws[i].shape[0]
    nu = net.num_units
    m = r[M.MIP]
    T.close(m.relu_input_lo, exlo[:nu], "MIP pre-activation bound is not "
            "the exact minimum", sc, 1e-5)
    T.close(m.relu_input_up, exup[:nu], "MIP pre-activation bound is not "
            "the exact maximum", sc, 1e-5)
    T.close(m.nn_output_lo, exlo[nu:], "MIP output bound is not the exact "
            "minimum", sc, 1e-5)
    T.close(m.nn_output_up, exup[nu:], "MIP output bound is not the exact "
            "maximum", sc, 1e-5)


@case(quick=150, thorough=4000, shards=2, weight=4)
def bounds_slope(T):
    """with interval arithmetic the bounds carry the gradient in the
    parameters and in the input box; the first layer's also with IA_MIP"""
    net, lo, up = draw(T, max_hidden=3)
    method = T.choice((M.IA, M.IA, M.IA_MIP))
    tl, tu = gen.t(lo), gen.t(up)
    tl.requires_grad = tu.requires_grad = method == M.IA
    c = relu_to_optimization.ReLUFreePattern(net.torch, gen.DT).output_constraint(
        tl, tu, method)
    first = net.hidden[0]
    rng = T.rng()

    def terms(vals):
        """(pre_lo, pre_up, out_lo, out_up) with method IA"""
        return vals[:2] if method != M.IA else vals
    got = terms([c.relu_input_lo, c.relu_input_up, c.nn_output_lo,
                 c.nn_output_up])
    if method != M.IA:
        got = [v[:first] for v in got]
    ws = [rng.uniform(-1, 1, len(v)) for v in got]
    val = sum(gen.t(w) @ v for w, v in zip(ws, got))
    if not val.requires_grad:
        T.check(False, "the bounds carry no gradient", method=method.name)
    val.backward()

    def ref(Ws, bs, l, u):
        n = gen.Net(Ws, bs, net.slopes)
        a, b, o, q = n.ia(l, u)
        v = [a[0], b[0]] if method != M.IA else \
            [np.concatenate(a), np.concatenate(b), o, q]
        return float(sum(w @ x for w, x in zip(ws, v)))
    h = 1e-6
    dW = [rng.uniform(-1, 1, w.shape) for w in net.Ws]
    db = [None if b is None else rng.uniform(-1, 1, b.shape)
          for b in net.bs]
    dl, du = (rng.uniform(-1, 1, len(lo)) * (method == M.IA)
              for _ in range(2))

    def at(s):
        return ref([w + s * d for w, d in zip(net.Ws, dW)],
                   [None if b is None else b + s * d
                    for b, d in zip(net.bs, db)], lo + s * dl, up + s * du)
    f, b, z = at(h), at(-h), at(0.)
    if abs((f - z) - (z - b)) > 1e-4 * h:
        T.reject("a kink")
    ps = list(net.torch.parameters())
    ds = []
    for w, b_ in zip(dW, db):
        ds += [w] + ([] if b_ is None else [b_])
    slope = sum(float((to_np(p.grad) * d).sum())
                for p, d in zip(ps, ds) if p.grad is not None)
    if method == M.IA:
        slope += sum(float(to_np(v.grad) @ d) for v, d in
                     ((tl, dl), (tu, du)) if v.grad is not None)
    T.close(slope, (at(h) - at(-h)) / 2 / h,
            "gradient of the bounds", 1e-4, 1e-4, method=method.name)
    T.close(to_np(tl), lo, "the box was changed", 0, 0)
    T.close(to_np(tu), up, "the box was changed", 0, 0)
    T.nontrivial(abs(slope) > 1e-6 and len(net.hidden) > 1)
    T.label(method.name)


def ref_encoding(net, lo, up):
    """our own big-M encoding (dict of terms)."""
    pl, pu, _, _ = net.ia(lo, up)
    n, u = net.n_in, net.num_units
    rows = []
    rhs = []
    off = 0
    prev = None
    for i in range(len(net.hidden)):
        for j in range(net.hidden[i]):
            L, U = pl[i][j] - .1, pu[i][j] + .1
            L, U = min(L, -.1), max(U, .1)
            pre = np.zeros(n + 2 * u)
            if i == 0:
                pre[:n] = net.Ws[0][j]
            else:
                pre[n + prev:n + prev + net.hidden[i - 1]] = net.Ws[i][j]
            b = net.b(i)[j]
            z = np.zeros(n + 2 * u)
            z[n + off + j] = 1
            be = np.zeros(n + 2 * u)
            be[n + u + off + j] = 1
            c = net.c(i)
            rows += [pre - z, c * pre - z,
                     z - pre - (1 - c) * L * be,
                     z - c * pre - (1 - c) * U * be]
            rhs += [-b, -c * b, b - (1 - c) * L, c * b]
            # z <= pre - (1-c) L (1 - beta);  z <= c pre + (1-c) U beta
            rows[-2] = z - pre - (1 - c) * L * be
            rhs[-2] = b - (1 - c) * L
        prev = off
        off += net.hidden[i]
    A = np.array(rows)
    d = {k: None for k in mipo._NAMES}
    d.update(Ain_input=A[:, :n], Ain_slack=A[:, n:n + u],
             Ain_binary=A[:, n + u:], rhs_in=np.array(rhs),
             input_lo=np.array(lo), input_up=np.array(up))
    return d


@case(quick=150, thorough=3000, shards=2, weight=20)
def program_layers(T):
    """The layer-wise encoding into a program: bounds of every layer with a
    polytope of inputs (create_prog_callback)."""
    import gurobipy
    import neural_network_lyapunov.gurobi_torch_mip as gurobi_torch_mip
    net, lo, up = draw(T, max_hidden=2, max_width=3)
    free = relu_to_optimization.ReLUFreePattern(net.torch, gen.DT)
    method = T.choice((M.LP, M.MIP))
    a = T.array((net.n_in, ))
    x0 = gen.inside(T, lo, up)
    rhs = a @ x0 + T.float(0., .5)

    def callback():
        prog = gurobi_torch_mip.GurobiTorchMILP(gen.DT)
        x = prog.addVars(net.n_in, lb=-gurobipy.GRB.INFINITY)
        prog.addLConstr([gen.t(a)], [x], sense=gurobipy.GRB.LESS_EQUAL,
                        rhs=float(rhs))
        return prog, x
    pl, pu, ql, qu = free._compute_layer_bound(gen.t(lo), gen.t(up), method,
                                               callback)
    ol, ou = free._compute_network_output_bounds(
        pl, pu, gen.t(lo), gen.t(up), method, callback)
    full = free._compute_layer_bound(gen.t(lo), gen.t(up), method)
    T.nontrivial(bool(np.any(to_np(pl) > to_np(full[0]) + 1e-4) or
                      np.any(to_np(pu) < to_np(full[1]) - 1e-4)))
    n = 0
    for x in gen.cloud(T, lo, up, 60):
        if a @ x <= rhs:
            n += 1
            pre, post, y = net.layers(x)
            contains(T, pl, pu, np.concatenate(pre), "constrained "
                     "pre-activation bound", x=x, method=method.name)
            contains(T, ql, qu, np.concatenate(post), "constrained "
                     "post-activation bound", x=x, method=method.name)
            contains(T, ol, ou, y, "constrained output bound", x=x,
                     method=method.name)
    sc = 1e-6 * (1 + np.abs(to_np(full[0])).max() +
                 np.abs(to_np(full[1])).max())
    T.leq(to_np(full[0]), to_np(pl), "constraint loosened a bound", sc)
    T.leq(to_np(pu), to_np(full[1]), "constraint loosened a bound", sc)
    net.unchanged(T)
