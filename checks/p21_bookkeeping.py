# TECHNIQUE: stateful property-based testing (Hypothesis): histories of saving, changing, stepping and restoring parameters against a model; whole training runs whose pools, clusters and final parameters are compared with a model fed by the recorded evaluations; gradient projections against their algebraic definition
# NOTE: gurobipy is replaced by the stand-in in /verif/shim.
"""P21 Training-state bookkeeping loses and invents nothing."""
import os

import numpy as np
import torch

import gen
import p14_discrete_certificates as p14
import p20_training as p20
import training
import training_scratch
from pbt import case, to_np
from training import quiet
import neural_network_lyapunov.train_lyapunov_barrier as tlb
import neural_network_lyapunov.train_utils as train_utils

PROPERTY = "P21"
RULE = ("something changed between saving and restoring, a pool overflowed "
        "or grew, more than one group of states, or gradients in conflict")
ASSUMPTIONS = ["gurobipy stand-in"]
CASES = []


@case(quick=500, thorough=15000, shards=3, weight=5)
def save_restore(T):
    S = training.setup(T)
    tr = S.tr
    if not (hasattr(tr, "_get_current_training_params") and
            hasattr(tr, "_set_training_params")):
        T.reject("no such functions")
    ps = training.params(S)
    for p in ps:
        p.requires_grad_(True)
    opt = torch.optim.SGD(ps, lr=.1)
    saved = []
    ops = []
    for _ in range(T.span(2, 7, 10, 30)):
        op = T.choice(("save", "perturb", "restore", "step"))
        if op == "restore" and not saved:
            op = "save"
        ops.append(op)
        T.note(ops=ops)
        if op == "save":
            saved.append((tr._get_current_training_params(),
                          training.values(ps)))
            cur = saved[-1][1]
        elif op == "perturb":
            r = T.rng()
            with torch.no_grad():
                for p in ps:
                    p += gen.t(r.normal(size=p.shape))
            cur = training.values(ps)
        elif op == "step":
            old = training.values(training.params(S))
            opt.zero_grad()
            sum((p**2).sum() for p in training.params(S)).backward()
            opt.step()
            cur = [v - .1 * 2 * v for v in old]
        else:
            s, cur = T.choice(saved) if len(saved) > 1 else saved[0]
            tr._set_training_params(s)
            T.nontrivial("perturb" in ops or "step" in ops)
        now = training.params(S)
        T.check(len(now) == len(cur), "parameters were lost")
        for a, b in zip(now, cur):
            T.close(a, b, f"parameters after {op}", 1e-12, 1e-12, ops=ops)
        T.check(all(p.requires_grad and p.is_leaf for p in now),
                f"a parameter cannot be trained any more after {op}",
                ops=ops)
    S.D.unchanged(T) if S.loop is None else S.loop.fwd.unchanged(T)


def record(obj, name, log, pick):
    f = getattr(obj, name)

    def g(*a, **k):
        r = f(*a, **k)
        log.append(pick(a, k, r))
        return r
    setattr(obj, name, g)


def cluster(X, radius):
    """groups of consecutive states closer than the radius"""
    groups = []
    for x in X:
        if groups and np.sum((x - groups[-1][-1])**2) <= radius**2:
            groups[-1].append(x)
        else:
            groups.append([x])
    return groups


def sample_loss(S, tr, P, Q):
    a, b = tr.lyapunov_sample_loss(
        gen.t(P), gen.t(Q), S.D.code.step_forward(gen.t(Q)),
        tr.lyapunov_positivity_sample_cost_weight,
        tr.lyapunov_derivative_sample_cost_weight)
    return float(a) + float(b)


@case(quick=200, thorough=5000, shards=6, weight=18)
def adversarial(T):
    """pools and parameters after train_adversarial"""
    S = training.setup(T, hybrid=False)
    tr = S.tr
    fresh = training.programs(S)
    if fresh[1] is None:
        T.reject("the decrease program is infeasible")
    p20.configure(T, S, tr, fresh)
    p20.pools(T, tr)
    if not (tr.lyapunov_positivity_sample_cost_weight or
            tr.lyapunov_derivative_sample_cost_weight):
        tr.lyapunov_positivity_sample_cost_weight = 1.
    tr.add_positivity_adversarial_state = True
    tr.add_derivative_adversarial_state = True
    tr.max_iterations = T.choice((1, 1, 2, 3))
    o = tlb.Trainer.AdversarialTrainingOptions()
    o.num_batches = T.int(1, 3)
    o.num_epochs_per_mip = T.int(1, 5)
    o.positivity_samples_pool_size = T.choice((100, 6, 3, 1))
    o.derivative_samples_pool_size = T.choice((100, 6, 3, 1))
    radius = None
    if T.int(0, 1) == 0:
        radius = o.adversarial_cluster_radius = T.choice((1e-3, .1, .5))
    P = training.samples(T, S, T.int(1, 4))
    Q = training.samples(T, S, T.int(1, 4))
    T.seed()
    ps = training.params(S)
    for p in ps:
        p.requires_grad_(True)
    before = training.values(ps)
    pos, der, full = [], [], []
    record(tr, "solve_positivity_mip", pos, lambda a, k, r: to_np(r[2]))
    record(tr, "solve_lyap_derivative_mip", der, lambda a, k, r: to_np(r[2]))
    record(tr, "lyapunov_sample_loss", full, lambda a, k, r: (
        to_np(a[0]) if a else None, to_np(a[1]) if len(a) > 1 else None,
        float(sum(r).detach())))
    try:
        got = quiet(tr.train_adversarial, gen.t(P), gen.t(Q), o)
    except AttributeError as e:
        if "ObjVal" in str(e) or "ObjVal" in repr(e):
            T.reject("a program became infeasible")
        raise
    P2, Q2 = to_np(got[1]), to_np(got[2])
    for init, log, pool, lim, nm in (
            (P, pos, P2, o.positivity_samples_pool_size, "positivity"),
            (Q, der, Q2, o.derivative_samples_pool_size, "decrease")):
        want = init
        for X in log:
            if radius is not None:
                g = cluster(X, radius)
                T.label("clustered" if len(g) < len(X) else "not_clustered")
                X = np.array([a[0] for a in g]).reshape(-1, S.D.nx)
            want = np.concatenate((want, X))[-lim:]
        T.close(pool, want, f"{nm}: the pool is not the newest given and "
                "collected states", 1e-12, 1e-12, given=init, collected=log,
                limit=lim)
        if len(init) + sum(len(x) for x in log) > lim:
            T.label("overflow")
            T.nontrivial()
    now = training.values(training.params(S))
    if bool(got[0]):
        return
    moved = any(not np.array_equal(a, b) for a, b in zip(now, before))
    T.label("moved" if moved else "not_moved")
    T.nontrivial(moved)
    fin = sample_loss(S, tr, P2, Q2)
    tol = 1e-9 * (1 + abs(fin))
    seen = [l for a, b, l in full[:-1] if a is not None and b is not None and
            a.shape == P2.shape and b.shape == Q2.shape and
            np.array_equal(a, P2) and np.array_equal(b, Q2)]
    if tr.max_iterations == 1:
        if seen:
            T.label(f"epochs={min(len(seen) - 1, 3)}")
            T.check(fin <= min(seen) + tol, "the parameters left behind are "
                    "not the best ones evaluated", loss=fin, evaluated=seen)
        for p, v in zip(training.params(S), before):
            with torch.no_grad():
                p.copy_(gen.t(v))
        ini = sample_loss(S, tr, P2, Q2)
        T.check(fin <= ini + tol, "the sample loss increased", before=ini,
                after=fin)


@case(quick=1500, thorough=60000, shards=2, weight=2, large=40)
def clustering(T):
    f = getattr(tlb, "_cluster_adversarial_states", None)
    if f is None:
        T.reject("no such function")
    n = T.count(0, 0) if T.large else T.choice((0, 1, 2, 3, 3, 4, 6))
    nx = T.int(1, 3)
    radius = T.choice((.05, .5, 1., 3.))
    X = T.array((n, nx), -2., 2.)
    for i in range(1, n):
        if T.int(0, 2) == 0:
            X[i] = X[i - 1] + radius * T.choice((0., .1, .5)) / nx
    d2 = np.sum(np.diff(X, axis=0)**2, axis=1) if n else np.zeros(0)
    if np.any(abs(d2 - radius**2) < 1e-6):
        T.reject("distance at the radius")
    given = gen.t(X)
    kept, rep = f(given, radius)
    T.close(given, X, "the argument changed", 0, 0)
    g = cluster(X, radius)
    T.close(kept, np.array([a[0] for a in g]).reshape(-1, nx), "the states "
            "kept are not the first ones of the clusters", 0, 0, states=X,
            radius=radius)
    T.close(to_np(rep), np.array([len(a) for a in g], float),
            "multiplicities of the clusters", 0, 0, states=X, radius=radius)
    T.label(f"groups={min(len(g), 3)}")
    T.nontrivial(1 < len(g) < n or (n > 1 and len(g) in (1, 2)))


@case(quick=60, thorough=1500, shards=3, weight=10)
def saved_files(T):
    """the files written while training hold the current parameters"""
    S = training.setup(T, hybrid=False)
    tr = S.tr
    fresh = training.programs(S)
    if fresh[1] is None:
        T.reject("the decrease program is infeasible")
    tr.lyapunov_positivity_mip_cost_weight = 1.
    tr.lyapunov_derivative_mip_cost_weight = 1.
    tr.learning_rate = T.choice((1e-3, 1e-2, .1))
    tr.lyapunov_positivity_convergence_tol = 0.
    tr.lyapunov_derivative_convergence_tol = 0.
    tr.max_iterations = T.int(1, 4)
    tr.search_controller = T.bool()
    k = T.int(1, 3)
    X = training.samples(T, S, T.int(0, 3))
    for p in training.params(S):
        p.requires_grad_(True)
    log = []
    record(tr, "total_loss", log, lambda a, q, r: (
        training.values(S.c.net.torch.parameters()),
        to_np(S.R.R()).copy(), None if S.loop is None else training.values(
            S.D.code.controller_network.parameters())))
    with training_scratch.directory() as d:
        tr.save_network_path = d
        tr.save_network_iterations = k
        try:
            quiet(tr.train, gen.t(X))
        except AttributeError as e:
            if "ObjVal" in str(e) or "ObjVal" in repr(e):
                T.reject("a program became infeasible")
            raise
        except Exception as e:
            if type(e).__name__ == "IncorrectActiveConstraint":
                T.reject("no active constraints")
            raise
        tr.save_network_path = None
        if not log:
            T.reject("nothing recorded")

        def load(name):
            return torch.load(os.path.join(d, name), weights_only=False)
        want = log[(len(log) - 1) // k * k]
        T.label(f"saved_at={(len(log) - 1) // k * k}")
        T.nontrivial(len(log) > 1)
        T.check(os.path.exists(os.path.join(d, "lyapunov.pt")) and
                os.path.exists(os.path.join(d, "R.pt")), "a file is missing",
                got=sorted(os.listdir(d)))
        for a, b in zip(training.values(load("lyapunov.pt").parameters()),
                        want[0]):
            T.close(a, b, "the saved Lyapunov network is not the one "
                    "evaluated in that iteration", 0, 0)
        T.close(load("R.pt"), want[1], "the saved matrix is not the one "
                "evaluated in that iteration", 0, 0)
        if S.loop is not None:
            T.check(os.path.exists(os.path.join(d, "controller.pt")),
                    "the controller is not saved")
            for a, b in zip(training.values(
                    load("controller.pt").parameters()), want[2]):
                T.close(a, b, "the saved controller is not the one "
                        "evaluated in that iteration", 0, 0)


@case(quick=160, thorough=4000, shards=4, weight=12)
def on_samples(T):
    """train_lyapunov_on_samples leaves the best parameters it evaluated"""
    S = training.setup(T, hybrid=False)
    tr = S.tr
    tr.learning_rate = T.choice((1e-3, 1e-2, .1, .5))
    tr.search_controller = T.bool()
    tr.lyapunov_positivity_sample_cost_weight = T.float(.1, 2.)
    tr.lyapunov_derivative_sample_cost_weight = T.float(.1, 2.)
    tr.lyapunov_positivity_sample_margin = T.float(0., .5)
    tr.lyapunov_derivative_sample_margin = T.float(0., .5)
    X = training.samples(T, S, T.int(5, 11))
    T.seed()
    ps = training.params(S)
    for p in ps:
        p.requires_grad_(True)
    before = training.values(ps)
    fixed = training.values(S.D.code.controller_network.parameters()) \
        if S.loop is not None else None
    log, slopes = [], []

    def keep(a, k, r):
        qs = [p for p in ps if p.requires_grad]
        slopes.append([None if g is None else to_np(g).copy() for g in
                       torch.autograd.grad(r.loss, qs, retain_graph=True,
                                           allow_unused=True)]
                      if r.loss.requires_grad else [None] * len(qs))
        return (to_np(a[0]) if a else None, float(r.loss.detach()),
                training.values(ps))
    record(tr, "total_loss", log, keep)
    quiet(tr.train_lyapunov_on_samples, gen.t(X), T.int(1, 5), T.int(1, 4))
    if not log or log[-1][0] is None:
        T.reject("nothing recorded")
    test = log[-1][0]
    # the first step goes down the slope of the first batch
    if len(log) > 1 and not np.array_equal(log[0][0], test) and \
            len(slopes[0]) == len(ps):
        g = [np.zeros_like(v) if d is None else d
             for d, v in zip(slopes[0], log[0][2])]
        on = [i for i, p in enumerate(ps) if fixed is None or
              tr.search_controller or not any(
                  p is q for q in S.D.code.controller_network.parameters())]
        size = sum((g[i]**2).sum() for i in on)
        down = sum((g[i] * (log[1][2][i] - log[0][2][i])).sum() for i in on)
        T.check(size < 1e-16 or down < 0, "the first step does not go down "
                "the slope of the loss on the batch", slope=size, change=down)
        T.label("step_checked")
    for x in test:
        T.check(any(np.array_equal(x, y) for y in X), "a test sample that "
                "was not given", x=x)
    epochs = [(l, v) for a, l, v in log if a.shape == test.shape and
              np.array_equal(a, test)]
    best = min(l for l, v in epochs)
    now = training.values(training.params(S))
    fin = float(quiet(tr.total_loss, gen.t(test), gen.t(test),
                      training.successors(S, test),
                      tr.lyapunov_positivity_sample_cost_weight,
                      tr.lyapunov_derivative_sample_cost_weight, None, None,
                      0).loss.detach())
    T.label(f"epochs={min(3, len(epochs))}",
            "best_last" if epochs[-1][0] == best else "best_earlier")
    T.nontrivial(epochs[-1][0] != best)
    T.check(abs(fin - best) <= 1e-9 * (1 + abs(best)), "the parameters left "
            "behind are not the best ones evaluated on the test samples",
            loss=fin, evaluated=[l for l, v in epochs])
    T.check(any(all(np.array_equal(a, b) for a, b in zip(v, now))
                for l, v in epochs if l == best), "the parameters left "
            "behind are none of those evaluated at the best loss")
    if S.loop is None:
        S.D.unchanged(T)
    else:
        S.loop.fwd.unchanged(T)
        if not tr.search_controller:
            for a, b in zip(S.D.code.controller_network.parameters(), fixed):
                T.close(a, b, "a controller that is not searched changed", 0,
                        0)
    T.check(all(p.requires_grad and p.is_leaf for p in training.params(S)),
            "a parameter cannot be trained any more")


@case(quick=1200, thorough=50000, shards=3, weight=3)
def projection(T):
    n = T.int(1, 3)
    shapes = [tuple(T.int(1, 3) for _ in range(T.int(1, 2)))
              for _ in range(n)]
    net = torch.nn.Module()
    ps = []
    for i, s in enumerate(shapes):
        p = torch.nn.Parameter(gen.t(T.array(s, -1., 1.)))
        net.register_parameter(f"p{i}", p)
        ps.append(p)
    N = sum(int(np.prod(s)) for s in shapes)
    g1 = T.array((N, ), -2., 2.)
    k = T.int(0, 4)
    if k == 0:
        g2 = T.choice((-.5, -1., -2., 2.)) * g1
    elif k == 1:
        g2 = -g1 + .3 * T.array((N, ), -1., 1.)
    elif k == 2 and N > 1:
        g2 = T.array((N, ), -2., 2.)
        g2 = g2 - (g1 @ g2) / max(g1 @ g1, 1e-9) * g1
    else:
        g2 = T.array((N, ), -2., 2.)
    if g1 @ g1 < 1e-4 or g2 @ g2 < 1e-4:
        T.reject("a gradient is zero")
    if k == 2 and abs(g1 @ g2) > 0 and N > 1:
        T.label("nearly_orthogonal")
    flat = torch.cat([p.reshape(-1) for p in ps])
    # quadratic terms make the gradients depend on the parameters
    q = T.choice((0., 1.))
    loss1 = flat @ gen.t(g1) + 0. * (flat**2).sum()
    loss2 = flat @ gen.t(g2) + q * ((flat - flat.detach())**2).sum()
    if T.bool():
        for p in ps:
            p.grad = None
    mode = T.choice(list(train_utils.ProjectGradientMode))
    before = training.values(ps)
    retain = T.bool()
    need, n1, n2 = train_utils.project_gradient(net, loss1, loss2, mode,
                                                retain_graph=retain)
    for p, v in zip(ps, before):
        T.close(p, v, "the parameters changed", 0, 0)
    T.close(n1, g1, "first gradient", 1e-9, 1e-9)
    T.close(n2, g2, "second gradient", 1e-9, 1e-9)
    d = g1 @ g2
    got = np.concatenate([to_np(p.grad).reshape(-1) for p in ps])
    for p in ps:
        T.check(p.grad.shape == p.shape, "shape of a gradient")
    p1 = g1 - d / (g2 @ g2) * g2
    p2 = g2 - d / (g1 @ g1) * g1
    M = train_utils.ProjectGradientMode
    conflict = {M.LOSS1: p1, M.LOSS2: p2, M.BOTH: p1 + p2,
                M.EMPHASIZE_LOSS1: g1 + p2, M.EMPHASIZE_LOSS2: p1 + g2}[mode]
    T.label(mode.name, "conflict" if d < 0 else "aligned")
    if abs(d) > 1e-9:
        T.check(bool(need) == (d < 0), "conflict flag", got=need,
                inner_product=d)
        T.close(got, conflict if d < 0 else g1 + g2, "projected gradient",
                1e-9, 1e-9, mode=mode, g1=g1, g2=g2)
        if d < 0 and mode == M.LOSS1:
            T.check(abs(got @ g2) <= 1e-8, "the first loss's direction "
                    "changes the second loss")
        if d < 0 and mode == M.LOSS2:
            T.check(abs(got @ g1) <= 1e-8, "the second loss's direction "
                    "changes the first loss")
        if mode == M.BOTH:
            T.check(got @ g1 >= -1e-8 and got @ g2 >= -1e-8, "descending "
                    "increases a loss", g1=g1, g2=g2)
    T.nontrivial(d < 0 and N > 1)


@case(quick=400, thorough=10000, shards=2, weight=3)
def value_approximation(T):
    """train_with_cost_to_go reports success for the network it leaves"""
    nx = T.int(1, 3)
    net = gen.net(T, nx, 1, max_hidden=2, max_width=3)
    lam = T.float(0., 1., special=(0., .5))
    xe = T.array((nx, ), -1., 1.)
    R = None if T.bool() else T.array((nx + T.int(0, 1), nx), -1., 1.)
    Rm = np.eye(nx) if R is None else R
    n = T.int(1, 5)
    X = T.array((n, nx), -2., 2.)

    def V(x):
        with torch.no_grad():
            a = float(net.torch(gen.t(x)).squeeze() -
                      net.torch(gen.t(xe)).squeeze())
        return a + lam * np.abs(Rm @ (x - xe)).sum()
    y = np.array([V(x) for x in X]) + T.choice((0., .01, .3, 1.)) * T.array(
        (n, ), -1., 1.)
    app = tlb.TrainValueApproximator()
    app.max_epochs = T.int(1, 6)
    app.learning_rate = T.choice((1e-3, .02, .1))
    app.convergence_tolerance = T.choice((1e-8, 1e-3, .01, .1))

    def mse():
        return np.mean((np.array([V(x) for x in X]) - y)**2)
    l0 = mse()
    if abs(l0 - app.convergence_tolerance) < 1e-9:
        T.reject("loss at the tolerance")
    ok, loss = app.train_with_cost_to_go(
        net.torch, [(gen.t(x), gen.t(v)) for x, v in zip(X, y)], lam,
        gen.t(xe), None if R is None else gen.t(R))
    T.label("success" if ok else "no_success", f"n={min(n, 2)}")
    if l0 <= app.convergence_tolerance:
        T.check(ok, "no success although the network fits at the start",
                loss=loss, expected=l0)
        net.unchanged(T, "the network")
    if ok:
        T.check(loss <= app.convergence_tolerance, "success with a loss "
                "above the tolerance", loss=loss)
        T.close(loss, mse(), "the loss reported is not the one of the "
                "network left behind", 1e-8, 1e-8)
    else:
        T.check(loss > app.convergence_tolerance, "no success with a loss "
                "within the tolerance", loss=loss)
        if app.max_epochs == 1:
            T.close(loss, l0, "loss of the only epoch", 1e-8, 1e-8)
    T.nontrivial(n > 1 and l0 > app.convergence_tolerance)
