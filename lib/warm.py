"""Earlier use of the same objects: with other weights and other arguments.
Nothing of it may show afterwards (no stale results)."""
import numpy as np
import torch


def modules(*objs):
    """all networks that the objects hold, also inside each other"""
    out, seen, todo = [], set(), [(o, 0) for o in objs]
    while todo:
        o, d = todo.pop()
        if id(o) in seen or d > 5:
            continue
        seen.add(id(o))
        if isinstance(o, torch.nn.Module):
            if not any(o is q for q in out):
                out.append(o)
        elif isinstance(o, (list, tuple)):
            todo += [(q, d + 1) for q in o]
        elif type(o).__module__.startswith("neural_network_lyapunov"):
            todo += [(q, d + 1) for q in vars(o).values()]
    return out


def warm(T, nets, *calls, p=4):
    """One time in p: give the networks other weights, make the calls (their
    results and errors are dropped: other weights need not be supported) and
    put the weights back."""
    if T.int(0, p - 1):
        return False
    T.label("used before")
    ps = []
    for n in nets:
        if n is None:
            continue
        ps += list(getattr(n, "torch", n).parameters())
    old = [q.detach().clone() for q in ps]
    rng = np.random.default_rng(len(ps))
    k = T.int(0, 2)
    with torch.no_grad():
        for q in ps:
            if k < 2:
                # the sign or the size of some weights
                f = rng.choice((-1., 1.), size=tuple(q.shape)) if k else \
                    rng.uniform(.3, 1.7, size=tuple(q.shape))
                q.mul_(torch.tensor(f, dtype=q.dtype))
                q.add_(torch.tensor(rng.uniform(-.1, .1,
                                                size=tuple(q.shape)),
                                    dtype=q.dtype))
    for f in calls:
        try:
            f()
        except Exception:
            pass
    with torch.no_grad():
        for q, o in zip(ps, old):
            q.copy_(o)
            q.grad = None
    return True


def certificate(T, code, c, D, *more, p=4):
    """earlier use of a Lyapunov (c: lyap.Cert) object: other weights, other
    constants, another matrix and equilibrium"""
    import gen
    import neural_network_lyapunov.lyapunov as lyapunov
    mid = (D.lo + D.up) / 2
    X = gen.t(np.array([mid, c.xeq]))
    E = lyapunov.ConvergenceEps
    n = len(mid)

    def use(xeq, lam, eps, R):
        def go(f):
            try:
                f()
            except Exception:
                pass
        go(lambda: code.lyapunov_value(X, xeq, lam, R=R))
        go(lambda: code.lyapunov_positivity_as_milp(xeq, lam, eps, R=R))
        for k in (E.ExpLower, E.ExpUpper):
            go(lambda: code.lyapunov_derivative_as_milp(xeq, lam, eps, k,
                                                        R=R))
        go(lambda: code.lyapunov_derivative(X[0], xeq, lam, eps, R=R))
        go(lambda: code.lyapunov_positivity_loss_at_samples(
            xeq, X, lam, eps, R=R))
        go(lambda: code.lyapunov_derivative_loss_at_samples(
            lam, eps, X, xeq, E.ExpLower, R=R))
    return warm(T, modules(code, *more),
                lambda: use(gen.t(mid), c.lam + .7, .1,
                            None if c.R is not None else gen.t(
                                2 * np.eye(n))),
                lambda: use(c.xt, c.lam, .3, c.Rt), p=p)


def barrier(T, code, xs, b, D, xt, p=4):
    import gen
    mid = (D.lo + D.up) / 2
    X = gen.t(np.array([mid, xs]))

    def use(xs, b, eps):
        def go(f):
            try:
                f()
            except Exception:
                pass
        go(lambda: code.value(X, xs, b))
        go(lambda: code.derivative_as_milp(xs, b, eps))
        go(lambda: code.derivative(X[0], xs, b, eps))
        go(lambda: code.derivative_loss_at_samples_and_next_states(
            xs, b, eps, X, X.flip(0)))
    return warm(T, modules(code), lambda: use(gen.t(mid), b + .5, .1),
                lambda: use(xt, b, .3), p=p)
