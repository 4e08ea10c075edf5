# TECHNIQUE: property-based testing (Hypothesis), model-based: multi-step optimizer histories against an independent numpy model of SGD/Adam plus Armijo backtracking
# NOTE: With weight decay the directional derivative uses the decayed gradient (the gradient of the regularized loss).
import numpy as np
import torch

from pbt import case
from neural_network_lyapunov import line_search_gd, line_search_adam

PROPERTY = "P22"
SCALE = 2
RULE = ("a case is non-trivial when some step of the history rejected at least "
        "one step size or had optimizer state from an earlier step")
ASSUMPTIONS = ["several parameter groups share the line-search constants (step size reduction, decrement, smallest step, smallest improvement)",
               "losses closer than 1e-11 (relative) to the acceptance "
               "threshold are not judged"]


def make_loss(T, n):
    kind = T.int(0, 4)
    Q = T.array((n, n), -1, 1)
    q = T.array((n, ), -2, 2)
    s = T.float(0.1, 20.)
    H = Q @ Q.T * s + 0.1 * np.eye(n)
    Ht, qt = torch.from_numpy(H), torch.from_numpy(q)

    def f(v):
        if kind == 0:
            return 0.5 * v @ (Ht @ v) + qt @ v
        if kind == 1:
            return torch.sum(torch.sin(3 * v + qt)) + 0.05 * v @ v
        if kind == 2:
            return torch.sum(torch.abs(Ht @ v - qt))
        if kind == 3:
            return torch.sum(torch.relu(Ht @ v + qt)) + \
                0.1 * torch.sum(torch.log1p(v * v))
        return torch.sum(100 * (v[1:] - v[:-1]**2)**2) + torch.sum(
            (1 - v)**2)
    return kind, f


class Flat:
    def __init__(self, T, names_shapes):
        self.ps = [torch.nn.Parameter(T.tensor(s, -1.5, 1.5))
                   for s in names_shapes]

    def vec(self):
        return torch.cat([p.reshape(-1) for p in self.ps])

    def data(self):
        return np.concatenate(
            [p.detach().numpy().reshape(-1).copy() for p in self.ps])


def shapes(T):
    k = T.int(1, 3)
    return [T.choice([(1, ), (2, ), (3, ), (2, 2), (1, 3)])
            for _ in range(k)]


def backtrack(f, x, d, t, slope, loss0, c1, red, amin, imp):
    """Returns the acceptable (alpha, loss) pair or the last one tried.
    slope: directional derivative (per unit step t).  None -> undecidable."""
    alpha = 1.
    tried = []
    while alpha > amin:
        xn = x + alpha * t * d
        loss = f(xn)
        tried.append((alpha, loss))
        thr = loss0 - imp
        if c1 is not None:
            thr = min(thr, loss0 + c1 * alpha * slope)
        scale = 1e-11 * (1 + abs(loss0) + abs(loss))
        if not np.isfinite(loss):
            return None, tried
        if abs(loss - thr) <= scale:
            return None, tried
        if loss < thr:
            return (alpha, loss), tried
        alpha *= red
    return tried[-1], tried


def draw_group(T, which):
    """Settings that a parameter group may set for itself."""
    kw = dict(lr=T.float(0.001, .1) if T.large else T.float(0.01, 2.),
              weight_decay=T.choice([0., 0., 0.1, 0.5]))
    if which == "gd":
        mom = T.choice([0., 0., 0.5, 0.9])
        nest = bool(mom > 0 and T.bool())
        damp = 0. if nest else T.choice([0., 0.3])
        kw.update(momentum=mom, nesterov=nest, dampening=damp)
    else:
        kw.update(betas=(T.choice([0.9, 0.5, 0.]),
                         T.choice([0.999, 0.9, 0.5])),
                  amsgrad=T.bool(), eps=T.choice([1e-8, 1e-3]))
    return kw


def direction(which, kw, st, g):
    """(search direction, step size) of one parameter tensor; st: its state,
    which only advances when the tensor has a gradient."""
    if which == "gd":
        mom = kw["momentum"]
        if mom == 0:
            return -g, kw["lr"]
        if "buf" not in st:
            st["buf"] = g.copy()
        else:
            st["buf"] = mom * st["buf"] + (1 - kw["dampening"]) * g
        if kw["nesterov"]:
            return -(g + mom * st["buf"]), kw["lr"]
        return -st["buf"], kw["lr"]
    b1, b2 = kw["betas"]
    st["k"] = st.get("k", 0) + 1
    st["m"] = b1 * st.get("m", 0.) + (1 - b1) * g
    st["v"] = b2 * st.get("v", 0.) + (1 - b2) * g * g
    st["vmax"] = np.maximum(st.get("vmax", 0.), st["v"])
    den = np.sqrt(st["vmax"] if kw["amsgrad"] else st["v"]) / np.sqrt(
        1 - b2**st["k"]) + kw["eps"]
    return -st["m"] / den, kw["lr"] / (1 - b1**st["k"])


def run_history(T, which):
    sh = shapes(T)
    P = Flat(T, sh)
    n = P.data().size
    kind, f = make_loss(T, n)
    if kind == 4 and n < 2:
        kind, f = 0, lambda v: torch.sum(v * v)
    c1 = T.choice([1e-4, 0.01, 0.3, 0.6])
    red = T.choice([0.2, 0.5, 0.8])
    amin = T.choice([1e-4, 1e-2, 0.3])
    imp = T.choice([0., 0., 1e-3, 0.05])
    common = dict(min_step_size_decrease=amin, step_size_reduction=red,
                  min_improvement=imp)
    if which == "adam" and T.int(0, 4) == 0:
        c1 = None
    common["loss_minimal_decrement"] = c1
    kw0 = draw_group(T, which)
    cls = (line_search_gd.LineSearchGD if which == "gd" else
           line_search_adam.LineSearchAdam)
    kws = [kw0 for _ in P.ps]
    if len(P.ps) > 1 and T.int(0, 2) == 0:
        # parameter groups; settings a group leaves out come from the
        # constructor
        cut = T.int(1, len(P.ps) - 1)
        groups = []
        for lo, hi in ((0, cut), (cut, len(P.ps))):
            own = draw_group(T, which)
            for key in list(own):
                if T.int(0, 2) == 0:
                    del own[key]
            eff = dict(kw0, **own)
            if eff.get("nesterov") and (eff["momentum"] <= 0 or
                                        eff["dampening"] != 0):
                own["nesterov"] = False
            eff = dict(kw0, **own)
            groups.append(dict(params=P.ps[lo:hi], **own))
            kws[lo:hi] = [eff] * (hi - lo)
        opt = cls(groups, **kw0, **common)
        T.label("groups")
    else:
        opt = cls(P.ps, **kw0, **common)
    T.note(which=which, loss=kind, **common)
    T.note(kws=[str(k) for k in kws])
    T.label(f"loss{kind}")
    state = [{} for _ in P.ps]
    steps = T.int(8, 60) if T.large else T.int(1, 5)
    reset = T.choice(["none", "zero", "opt"])

    def fnp(x):
        with torch.no_grad():
            return float(f(torch.from_numpy(x)))

    def closure():
        return f(P.vec())
    sizes = [p.numel() for p in P.ps]
    split = np.cumsum(sizes)[:-1]
    for k in range(steps):
        x = P.data()
        if not np.all(np.isfinite(x)) or np.max(np.abs(x)) > 1e6:
            T.reject("diverged")
        for p in P.ps:
            if reset == "none" or p.grad is None:
                p.grad = None
            elif reset == "zero":
                p.grad.zero_()
        if reset == "opt":
            opt.zero_grad(set_to_none=False)
        loss = f(P.vec())
        loss.backward()
        if k > 0 and len(P.ps) > 1 and T.int(0, 4) == 0:
            # one tensor takes no part in this step
            P.ps[T.int(0, len(P.ps) - 1)].grad = None
            T.label("absent")
        loss0 = float(loss.item())
        tds, slope = [], 0.
        for i, (p, xi) in enumerate(zip(P.ps, np.split(x, split))):
            if p.grad is None:
                tds.append(np.zeros(sizes[i]))
                continue
            g = p.grad.numpy().reshape(-1).copy() + \
                kws[i]["weight_decay"] * xi
            di, ti = direction(which, kws[i], state[i], g)
            tds.append(ti * di)
            slope += ti * float(g @ di)
        td = np.concatenate(tds)
        got = opt.step(closure, loss0)
        exp, tried = backtrack(fnp, x, td, 1., slope, loss0, c1, red, amin,
                               imp)
        if exp is None:
            T.label("tie")
            if k > 7:
                T.label("long")
            return
        if len(tried) > 1:
            T.label("backtracked")
        if len(tried) > 1 or k > 0:
            T.nontrivial()
        xn = P.data()
        xe = x + exp[0] * td
        T.close(xn, xe, f"step {k}: parameters are not start + "
                f"{exp[0]:.3g} * direction", 1e-8, 1e-8,
                tried=[(round(a, 6), l) for a, l in tried], loss0=loss0)
        T.close(float(got), fnp(xn), "returned loss is not the loss at the "
                "parameters left behind", 1e-9 * (1 + abs(loss0)), 1e-7)


@case(quick=1600, thorough=60000, shards=4, large=80)
def gd_history(T):
    run_history(T, "gd")


@case(quick=1600, thorough=60000, shards=4, large=80)
def adam_history(T):
    run_history(T, "adam")


@case(quick=60, thorough=600)
def partial_gradients(T):
    """A parameter without gradient stays untouched."""
    a = torch.nn.Parameter(T.tensor((2, ), -1, 1))
    b = torch.nn.Parameter(T.tensor((2, ), -1, 1))
    b0 = b.detach().clone()
    a0 = a.detach().clone()
    opt = (line_search_gd.LineSearchGD([a, b], lr=0.5, momentum=0.5)
           if T.bool() else line_search_adam.LineSearchAdam([b, a], lr=0.1))
    T.nontrivial(bool(torch.any(a0 != 0)))
    for _ in range(T.int(1, 3)):
        a.grad = None
        loss = torch.sum(a * a)
        loss.backward()
        out = opt.step(lambda: torch.sum(a * a), loss.item())
        T.close(float(out), float(torch.sum(a * a)), "returned loss")
    T.close(b, b0, "parameter without gradient moved", 0, 0)


@case(quick=40, thorough=300)
def option_validation(T):
    """Documented invalid settings are refused, not silently accepted."""
    p = torch.nn.Parameter(torch.zeros(2, dtype=torch.float64))
    T.nontrivial()
    bad = -T.float(0.01, 2)
    big = 1 + T.float(0, 2)
    for kw in (dict(lr=bad), dict(lr=.1, momentum=bad),
               dict(lr=.1, weight_decay=bad),
               dict(lr=.1, nesterov=True),
               dict(lr=.1, nesterov=True, momentum=.5, dampening=-bad)):
        T.check(T.call_raises(
            lambda: line_search_gd.LineSearchGD([p], **kw), ValueError),
            "LineSearchGD accepted invalid options", kw=kw)
    for kw in (dict(lr=bad), dict(eps=bad), dict(betas=(big, .9)),
               dict(betas=(.9, big)), dict(betas=(bad, .9)),
               dict(betas=(.9, bad))):
        T.check(T.call_raises(
            lambda: line_search_adam.LineSearchAdam([p], **kw), ValueError),
            "LineSearchAdam accepted invalid options", kw=kw)
