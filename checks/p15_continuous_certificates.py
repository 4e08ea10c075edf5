# TECHNIQUE: property-based testing (Hypothesis): generated continuous-time systems (ReLU networks, hybrid, closed loops), Lyapunov networks, rates and level sets; the admitted objectives at generated states (smooth, at kinks and at mode borders) decided by an independent MILP oracle against all gradient/velocity combinations, optima against a sample cloud and the reported state
# NOTE: gurobipy is replaced by the stand-in in /verif/shim.
"""P15 Continuous-time Lyapunov certificates."""
import gurobipy
import numpy as np
import torch

import closed
import gen
import lyap
import p14_discrete_certificates as p14
import prog
import systems
from pbt import case, to_np
import warm
from p14_discrete_certificates import fixed, inbox, levels, near, pattern, \
    solve
import neural_network_lyapunov.continuous_time_lyapunov as ctl
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.lyapunov as lyapunov

PROPERTY = "P15"
RULE = ("at least two generated states meet the side conditions and lie on "
        "different pieces of V, or one lies on a kink or a mode border")
ASSUMPTIONS = ["gurobipy stand-in", "tolerance 1e-5 (relative) at fixed "
               "states, 1e-4 for optima",
               "the bound propagation methods of the system and of the "
               "Lyapunov function fit each other (both interval based, or "
               "both based on programs)",
               "R is the identity for hybrid systems (documented)"]
CASES = []
M = systems.M
EXP = lyapunov.ConvergenceEps.ExpLower


class Dyn(p14.Dyn):
    pass


def smooth_system(T):
    """ReLU networks and closed loops; possible velocities D.f"""
    w = T.choice((.3, .6, 1.))
    lm = T.choice((M.IA, M.IA, M.LP, M.MIP))
    D = Dyn()
    if T.int(0, 2) == 0:
        # (relu_system's forward systems publish no bounds on the velocity)
        fwd = systems.pendulum(T, wmax=w, method=lm if lm == M.IA else
                               T.choice((lm, M.LP, M.MIP)))
        L = closed.loop(T, fwd=fwd, method=T.choice((M.IA, M.LP, M.MIP)))
        D.code, D.nx, D.lo, D.up, D.f = L.code, L.nx, L.lo, L.up, L.f
        D.kind, D.unchanged, D.xeq = "loop-" + L.fwd.kind, L.unchanged, None
        D.loop = L
        if L.fwd.xeq is not None and inbox(L, L.xeq):
            D.xeq = L.xeq
    else:
        nx = T.int(1, 3)
        box = gen.sym_box(T, nx) if T.bool() else gen.box(T, nx)
        m = T.choice((M.IA, M.IA_MIP) if lm == M.IA else
                     (M.LP, M.MIP, M.IA_MIP))
        xeq = gen.inside(T, *box) if T.bool() else None
        s = systems.autonomous(T, kinds=systems.AUTO, nx=nx, box=box, xeq=xeq,
                               discrete=False, max_hidden=1, max_width=3,
                               wmax=w, method=m)
        D.code, D.nx, D.lo, D.up, D.f = s.code, s.nx, s.lo, s.up, s.f
        D.kind, D.unchanged, D.xeq = s.kind, s.unchanged, s.xeq
    D.hybrid = False
    T.label(D.kind, f"{D.kind}:{lm}")
    c = lyap.cert(T, D.lo, D.up, xeq=D.xeq, max_hidden=2)
    code = ctl.LyapunovContinuousTimeSystem(D.code, c.net.torch)
    code.network_bound_propagate_method = lm
    warm.certificate(T, code, c, D, p=5)
    return D, c, code


def hybrid_system(T):
    nx = T.int(1, 3)
    box = gen.sym_box(T, nx) if T.bool() else gen.box(T, nx)
    xeq = gen.inside(T, *box) if T.bool() else None
    s = systems.autonomous(T, kinds=("hybrid", ), nx=nx, box=box, xeq=xeq,
                           discrete=False)
    D = Dyn()
    D.code, D.nx, D.lo, D.up, D.f = s.code, s.nx, s.lo, s.up, s.f
    D.kind, D.unchanged, D.xeq = "hybrid", s.unchanged, s.xeq
    D.hybrid, D.modes = True, s.modes
    c = lyap.cert(T, D.lo, D.up, xeq=D.xeq, R=None, max_hidden=2)
    code = ctl.LyapunovContinuousTimeHybridSystem(D.code, c.net.torch)
    code.network_bound_propagate_method = T.choice(systems.METHODS)
    warm.certificate(T, code, c, D, p=5)
    return D, c, code


def epsilon(T):
    return T.float(0., 1., special=(0., .1, 1.))


def combos(D, c, eps, x, tol=0.):
    """all values of dV/dx . xdot + eps V, or None"""
    g = c.grads(x, tol)
    if g is None:
        return None
    ys = D.f(x, tol) if D.hybrid else D.f(x)
    return [a @ y + eps * c.V(x) for a in g for y in ys]


def clear(D, c, x):
    """exact and approximate kinks (and borders) at x agree"""
    a, b = c.grads(x, 0.), c.grads(x, 1e-6)
    if a is None or b is None or len(a) != len(b):
        return False
    return not D.hybrid or (len(D.f(x, 1e-6)) == len(D.f(x)) and
                            len(D.f(x, -1e-6)) in (0, len(D.f(x))))


def pick(T, D, c):
    """a state, now and then on a kink or a border"""
    k = T.int(0, 7)
    if k == 0:
        return c.xeq.copy()
    x = gen.inside(T, D.lo, D.up)
    if k == 1:
        i = T.int(0, D.nx - 1)
        x[i] = c.xeq[i]
    elif k == 2 and D.hybrid:
        A, g, l, u = T.choice(D.modes)
        x = gen.inside(T, l, u)
        i = T.int(0, D.nx - 1)
        x[i] = T.choice((l, u))[i]
    return x


def nearby(T, D, c, eps, x):
    """values at smooth states next to x, inside the box"""
    r = np.random.default_rng(T.int(0, 2**16))
    out = []
    for _ in range(12):
        y = np.clip(x + 1e-6 * r.uniform(-1, 1, D.nx), D.lo, D.up)
        if c.margin(y) < 1e-10:
            # a piece that is one rounding wide
            continue
        v = combos(D, c, eps, y)
        if v is not None and len(v) == 1:
            out += v
    return out


def on_kink(D, c, x):
    g = c.grads(x, 0.)
    return g is not None and len(g) > 1 or D.hybrid and len(D.f(x)) > 1


def examine(T, D, c, P, x, eps, lo, up, pts, what, relax=False):
    n = 0
    for p in pts:
        v = c.V(p)
        if (lo is not None and abs(v - lo) < 1e-4) or \
                (up is not None and abs(v - up) < 1e-4):
            continue
        if not clear(D, c, p):
            continue
        ref = combos(D, c, eps, p)
        o = fixed(T, P, [(x, p)], what, x=p)
        if not ((lo is None or v > lo) and (up is None or v < up)):
            T.label("excluded_state")
            if not relax:
                T.check(o is None, what + " admits a state off the level "
                        "set", x=p, V=v, lower=lo, upper=up)
            continue
        T.check(o is not None, what + " rejects a state that meets its side "
                "conditions", x=p, V=v, lower=lo, upper=up)
        n += 1
        if on_kink(D, c, p):
            T.label("kink")
            T.nontrivial(True)
        # one-sided values that occur inside the box
        some = nearby(T, D, c, eps, p) if len(ref) > 1 else ref
        tol = 2e-5 * (1 + max(abs(a) for a in ref))
        if some:
            T.check(o[1] >= max(some) - tol and o[0] <= min(some) + tol,
                    what + ": a one-sided derivative is missing at a state",
                    x=p, got=o, expected=some, eps=eps, lam=c.lam, R=c.Rm,
                    xeq=c.xeq, xdot=D.f(p))
        if not relax:
            T.check(o[1] <= max(ref) + tol and o[0] >= min(ref) - tol, what +
                    ": objective at a state", x=p, got=o, expected=ref,
                    eps=eps, lam=c.lam, R=c.Rm, xeq=c.xeq, xdot=D.f(p))
    return n


def optimum(T, D, c, P, milp, x, eps, lo, up, what):
    opt = solve(T, milp, what)
    vals = []
    for p in gen.cloud(T, D.lo, D.up, 80):
        v = c.V(p)
        if (lo is not None and v < lo + 1e-6) or \
                (up is not None and v > up - 1e-6):
            continue
        r = combos(D, c, eps, p)
        if r and len(r) > 1:
            r = nearby(T, D, c, eps, p)
            r = [min(r) - 1e-4] if r else r
        if r:
            vals.append((max(r), p))
    T.label("infeasible" if opt is None else "feasible")
    if opt is None:
        T.check(not vals, what + " is infeasible although a state meets its "
                "conditions")
        return None
    if vals:
        b, p = max(vals, key=lambda t: t[0])
        T.check(b <= opt + 1e-5 * (1 + abs(opt)), what + ": a state violates "
                "the condition by more than the optimum", x=p, violation=b,
                optimum=opt)
    xs = np.array([q.x for q in x])
    T.check(inbox(D, xs, 1e-5), what + ": the optimal state is off the box",
            x=xs)
    v = c.V(xs)
    T.check((lo is None or v >= lo - 1e-4 * (1 + abs(lo))) and
            (up is None or v <= up + 1e-4 * (1 + abs(up))), what +
            ": the optimal state is off the level set", V=v, lower=lo,
            upper=up)
    r = combos(D, c, eps, xs, 1e-5)
    if r is not None:
        T.check(min(abs(a - opt) for a in r) <= 2e-4 * (1 + abs(opt)), what +
                ": the optimum is not attained at the reported state", x=xs,
                values=r, optimum=opt)
    return opt


def bounds_kw(T, lo, up):
    kw = {}
    if lo is not None or T.bool():
        kw["lyapunov_lower"] = lo
    if up is not None or T.bool():
        kw["lyapunov_upper"] = up
    return kw


@case(quick=420, thorough=9000, shards=6, weight=12, large=8)
def smooth_decrease(T):
    D, c, code = smooth_system(T)
    eps = epsilon(T)
    pts = [pick(T, D, c) for _ in range(4)]
    lo, up = levels(T, D, c, pts)
    kw = bounds_kw(T, lo, up)
    relax = T.int(0, 6) == 0
    if relax:
        kw["binary_var_type"] = gtm.BINARYRELAX
        T.label("relaxed")
    if T.int(0, 3) == 0:
        kw["x_warmstart"] = gen.t(gen.inside(T, D.lo, D.up))
    ret = code.lyapunov_derivative_as_milp(c.xt, c.lam, eps, EXP, R=c.Rt,
                                           **kw)
    P = prog.Prog(ret.milp)
    what = "the decrease program"
    T.check(not (relax and P.integ.any()), "a relaxed program has integer "
            "variables", got=int(P.integ.sum()))
    n = examine(T, D, c, P, ret.x, eps, lo, up, pts, what, relax)
    p = gen.outside(T, D.lo, D.up)
    T.check(fixed(T, P, [(ret.x, p)], "") is None,
            "the decrease program admits a state off the box", x=p)
    T.nontrivial(n >= 2 and len({pattern(c, q) for q in pts}) > 1)
    if not relax:
        opt = optimum(T, D, c, P, ret.milp, ret.x, eps, lo, up, what)
        if opt is not None:
            xs = np.array([q.x for q in ret.x])
            xd = np.array([q.x for q in ret.xdot])
            T.check(np.allclose(D.f(xs)[0], xd, atol=1e-4), "the reported "
                    "velocity is not that of the reported state", x=xs,
                    got=xd, expected=D.f(xs)[0])
    c.net.unchanged(T, "the Lyapunov network")
    D.unchanged(T)


@case(quick=300, thorough=7000, shards=5, weight=12, large=8)
def hybrid_decrease(T):
    """both formulations for hybrid systems"""
    D, c, code = hybrid_system(T)
    eps = epsilon(T)
    pts = [pick(T, D, c) for _ in range(3)]
    lo, up = levels(T, D, c, pts)
    opts = []
    R = None if T.bool() else torch.eye(D.nx, dtype=gen.DT)
    for name in ("lyapunov_derivative_as_milp",
                 "lyapunov_derivative_as_milp2"):
        kw = bounds_kw(T, lo, up)
        if name[-1] != "2" and T.int(0, 3) == 0:
            kw["x_warmstart"] = gen.t(gen.inside(T, D.lo, D.up))
        ret = getattr(code, name)(c.xt, c.lam, eps, EXP, R=R, **kw)
        P = prog.Prog(ret.milp)
        what = name
        n = examine(T, D, c, P, ret.x, eps, lo, up, pts, what)
        p = gen.outside(T, D.lo, D.up)
        T.check(fixed(T, P, [(ret.x, p)], "") is None, what + " admits a "
                "state off the box", x=p)
        T.nontrivial(n >= 2 and len({pattern(c, q) for q in pts}) > 1)
        opt = optimum(T, D, c, P, ret.milp, ret.x, eps, lo, up, what)
        opts.append(opt)
        if opt is not None:
            g = np.array([q.x for q in ret.gamma])
            xs = np.array([q.x for q in ret.x])
            k = int(g.argmax())
            T.check(abs(g.sum() - 1) < 1e-5 and g[k] > 1 - 1e-5, what + ": "
                    "not exactly one active mode", got=g)
            A, b, l, u = D.modes[k]
            T.check(np.all(xs >= l - 1e-5) and np.all(xs <= u + 1e-5), what +
                    ": the reported mode does not contain the reported "
                    "state", x=xs, mode=k)
    T.check((opts[0] is None) == (opts[1] is None) and (
        opts[0] is None or abs(opts[0] - opts[1]) <= 1e-4 *
        (1 + abs(opts[0]))), "the two formulations have different optima",
        got=opts)
    c.net.unchanged(T, "the Lyapunov network")
    D.unchanged(T)


@case(quick=400, thorough=12000, shards=4, weight=8, large=8)
def smooth_value(T):
    """lyapunov_derivative lists all values at a state"""
    D, c, code = smooth_system(T)
    eps = epsilon(T)
    x = pick(T, D, c)
    tol = T.choice((0., 1e-6))
    if not clear(D, c, x):
        T.reject("close to a kink")
    ref = combos(D, c, eps, x)
    kw = {} if tol == 0. and T.bool() else dict(zero_tol=tol)
    got = to_np(code.lyapunov_derivative(gen.t(x), c.xt, c.lam, eps, R=c.Rt,
                                         **kw)).reshape(-1)
    values(T, got, ref, x)
    T.nontrivial(len(ref) > 1 or c.net.margin(x) > 0)


def values(T, got, ref, x):
    """same sets of values (multiplicities are not part of the statement)"""
    for a in got:
        T.check(min(abs(a - r) for r in ref) <= 1e-7 * (1 + abs(a)),
                "a listed derivative is not one", x=x, got=got, expected=ref)
    for r in ref:
        T.check(len(got) and np.min(np.abs(got - r)) <= 1e-7 * (1 + abs(r)),
                "a derivative is not listed", x=x, got=got, expected=ref)
    T.label(f"values={min(4, len(set(np.round(ref, 9))))}")


@case(quick=400, thorough=12000, shards=3, weight=6, large=8)
def hybrid_value(T):
    D, c, code = hybrid_system(T)
    eps = epsilon(T)
    x = pick(T, D, c)
    if not clear(D, c, x):
        T.reject("close to a kink")
    ref = combos(D, c, eps, x)
    R = None if T.bool() else torch.eye(D.nx, dtype=gen.DT)
    got = code.lyapunov_derivative(gen.t(x), c.xt, c.lam, eps, R)
    values(T, np.array([float(g.detach()) for g in got]), ref, x)
    T.nontrivial(len(ref) > 1 or c.net.margin(x) > 0)


@case(quick=160, thorough=5000, shards=2, weight=8)
def product_terms(T):
    """the terms of the objective, one by one"""
    D, c, code = hybrid_system(T)
    p = gen.inside(T, D.lo, D.up)
    g = c.net.gradients(p, 1e-6)
    f = D.f(p, 1e-6)
    if g is None or len(g) != 1 or len(f) != 1 or \
            np.abs(p - c.xeq).min() < 1e-6:
        T.reject("close to a kink")
    sign, grad = np.sign(p - c.xeq), g[0].reshape(-1)
    k = [i for i, m in enumerate(D.modes)
         if np.all(p >= m[2]) and np.all(p <= m[3])][0]
    A, b = D.modes[k][:2]
    milp = gtm.GurobiTorchMILP(gen.DT)
    inf = gurobipy.GRB.INFINITY
    x = milp.addVars(D.nx, lb=-inf)
    xdot = milp.addVars(D.nx, lb=-inf)
    r = D.code.add_dynamics_constraint(milp, x, xdot, "s", "gamma",
                                       gurobipy.GRB.BINARY)
    s, gamma = r.slack, r.binary
    what = T.choice(("Aisi", "gigammai", "xdot"))
    given = what == "xdot" or T.bool()
    kw = {}
    if given and what == "xdot":
        kw = dict(xdot_lower=D.code.dx_lower, xdot_upper=D.code.dx_upper)
    elif given:
        # (the exact ranges, or wider ones)
        n, wide = len(D.modes), T.float(0., 2.) * T.int(0, 1)
        if what == "Aisi":
            lo = [sum(np.minimum(m[0] * m[2], m[0] * m[3]).T) for m in
                  D.modes]
            up = [sum(np.maximum(m[0] * m[2], m[0] * m[3]).T) for m in
                  D.modes]
        else:
            lo, up = [m[1] for m in D.modes], [m[1] for m in D.modes]
        kw = {what + "_lower": [gen.t(np.minimum(v, 0.) - wide) for v in lo],
              what + "_upper": [gen.t(np.maximum(v, 0.) + wide) for v in up]}
    arg = dict(Aisi=s, gigammai=gamma, xdot=xdot)[what]
    if T.bool():
        ret = code.add_lyap_relu_output_constraint(milp, x)
        z, a = getattr(code, "add_relu_gradient_times_" + what)(
            milp, arg, ret[1], **kw)
        rest = None
        u = grad
        T.label("gradient*" + what)
    else:
        _, alpha = code.add_state_error_l1_constraint(milp, c.xt, x)
        z, a, rest = getattr(code, "add_sign_state_error_times_" + what)(
            milp, arg, alpha, **kw)
        u = sign
        T.label("sign*" + what)
    if what == "xdot":
        z, a, rest = [z], [a], None if rest is None else [rest]
    ref = u @ {"Aisi": A @ p, "gigammai": b, "xdot": A @ p + b}[what]
    cs, vs = list(a), list(z)
    if rest is not None:
        cs.append(torch.cat(list(rest)))
        vs.append(arg)
    milp.setObjective(cs, vs, 0., gurobipy.GRB.MAXIMIZE)
    P = prog.Prog(milp)
    o = fixed(T, P, [(x, p)], "a product term", x=p)
    T.check(o is not None, "the constraints of a product term reject a state",
            x=p, given=given)
    T.nontrivial(len(D.modes) > 1 and abs(ref) > 1e-3)
    T.close(o[0], ref, f"{what}: the product term at a state (minimum)", 1e-5,
            1e-5, x=p)
    T.close(o[1], ref, f"{what}: the product term at a state (maximum)", 1e-5,
            1e-5, x=p)
