# TECHNIQUE: property-based testing (Hypothesis): generated systems, Lyapunov networks, rates and level sets; the certificate programs are examined by an independent MILP oracle at generated states, and their optimum is compared with the violation of a sample cloud and at the reported state
# NOTE: at each generated state all admitted objective values are decided (state fixed, everything else free); the optimum is certified attainable at the reported state and compared with 60-200 sampled states.
"""P14 Discrete-time Lyapunov certificates."""
import gurobipy
import numpy as np

import closed
import gen
import lyap
import prog
import systems
from pbt import case, to_np
import warm
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.lyapunov as lyapunov

PROPERTY = "P14"
RULE = ("at least two generated states (cloud states for optimum cases) "
        "satisfy the side conditions and lie on different pieces of the "
        "Lyapunov network or the optimum is positive")
ASSUMPTIONS = ["gurobipy stand-in", "tolerance 1e-5 (relative) at fixed "
               "states, 1e-4 for optima"]
M = systems.M
G = gurobipy.GRB
E = lyapunov.ConvergenceEps


class Dyn:
    modes = None
    loop = None


def dynamics(T, loops=True):
    """a discrete-time system: D.f(x) is the list of possible successors"""
    w = T.choice((.3, .6, 1.))
    if loops != "hybrid" and loops and T.int(0, 2) == 0:
        L = closed.loop(T, discrete=True, max_hidden=1, max_width=3, wmax=w,
                        max_nx=2)
        D = Dyn()
        D.code, D.nx, D.lo, D.up, D.f, D.kind = L.code, L.nx, L.lo, L.up, \
            L.f, "loop-" + L.fwd.kind
        D.hybrid, D.unchanged = L.hybrid, L.unchanged
        D.method = L.method
        D.loop = L
        x = L.xeq
        D.xeq = x if L.fwd.xeq is not None and np.all(x >= L.lo) and \
            np.all(x <= L.up) else None
    else:
        nx = T.int(1, 3)
        box = gen.sym_box(T, nx) if T.bool() else gen.box(T, nx)
        xeq = gen.inside(T, *box) if T.bool() else None
        kinds = {"kinds": ("hybrid", )} if loops == "hybrid" else {}
        s = systems.autonomous(T, nx=nx, box=box, xeq=xeq, discrete=True,
                               max_hidden=1, max_width=3, wmax=w, **kinds)
        D = Dyn()
        D.code, D.nx, D.lo, D.up, D.f, D.kind = s.code, s.nx, s.lo, s.up, \
            s.f, s.kind
        D.hybrid, D.unchanged, D.method, D.xeq = s.hybrid, s.unchanged, \
            s.method, s.xeq
        D.modes = getattr(s, "modes", None)
    T.label(D.kind, f"{D.kind}:{D.method}")
    return D


def inbox(D, y, tol=0.):
    return np.all(y >= D.lo - tol) and np.all(y <= D.up + tol)


def crit(c, eps, kind, x, y):
    """what the program maximizes at state x with successor y"""
    v, vn = c.V(x), c.V(y)
    if kind == E.ExpLower:
        return vn - v + eps * v
    if kind == E.ExpUpper:
        return -(vn - v + eps * v)
    return vn - v + eps * c.l1(x)


def draw(T, **kw):
    D = dynamics(T, **kw)
    xeq = D.xeq
    c = lyap.cert(T, D.lo, D.up, xeq=xeq, max_hidden=1)
    code = lyapunov.LyapunovDiscreteTimeHybridSystem(D.code, c.net.torch)
    code.network_bound_propagate_method = T.choice(systems.METHODS)
    eps = T.float(0., 1., special=(0., .1, 1.))
    T.note(kind=D.kind, nx=D.nx, widths=c.net.hidden, lam=c.lam, eps=eps)
    warm.certificate(T, code, c, D, p=5)
    return D, c, code, eps


def pattern(c, x):
    return (tuple(np.concatenate(c.net.layers(x)[0]) > 0),
            tuple(np.sign(c.Rm @ (x - c.xeq))))


def states(T, D, k):
    """k states, preferably with a successor in the box"""
    out = []
    pool = gen.cloud(T, D.lo, D.up, 40)
    good = [x for x in pool if all(inbox(D, y, -1e-4) for y in D.f(x))
            and len(D.f(x)) == 1]
    for _ in range(k):
        if good and T.int(0, 3):
            out.append(good[T.int(0, len(good) - 1)])
        else:
            out.append(gen.inside(T, D.lo, D.up))
    return out


def solve(T, milp, what):
    m = milp.gurobi_model
    m.setParam(G.Param.OutputFlag, 0)
    m.optimize()
    T.check(m.status in (G.Status.OPTIMAL, G.Status.INFEASIBLE),
            what + ": status", got=m.status)
    return m.ObjVal if m.status == G.Status.OPTIMAL else None


def fixed(T, P, fix, what, **info):
    """the range of the objective with fix"""
    c, c0 = P.objective()
    s1, lo, _ = P.opt(c, fix)
    if s1 == "infeasible":
        return None
    s2, up, _ = P.opt(-c, fix)
    prog.undecided(T, s1, s2)
    T.check(s1 == s2 == "optimal", what + ": status", got=(s1, s2), **info)
    return lo + c0, -up + c0


def near(a, b, tol=1e-5):
    return abs(a - b) <= tol * (1 + abs(b))


@case(quick=220, thorough=6000, shards=4, weight=9, large=12)
def positivity(T):
    D, c, code, eps = draw(T, loops=T.bool())
    warm = gen.t(gen.inside(T, D.lo, D.up)) if T.bool() else None
    r = code.lyapunov_positivity_as_milp(c.xt, c.lam, eps, R=c.Rt,
                                         x_warmstart=warm)
    milp, x = r[0], r[1]
    P = prog.Prog(milp)

    def viol(p):
        return eps * c.l1(p) - c.V(p)
    pats = set()
    for i in range(3):
        p = c.xeq if T.int(0, 6) == 0 else gen.inside(T, D.lo, D.up)
        pats.add(pattern(c, p))
        o = fixed(T, P, [(x, p)], "positivity program", x=p)
        T.check(o is not None, "the positivity program rejects a state of "
                "the box", x=p, lo=D.lo, up=D.up)
        for a in o:
            T.check(near(a, viol(p)), "objective of the positivity program "
                    "at a state", x=p, got=o, expected=viol(p))
    p = gen.outside(T, D.lo, D.up)
    T.check(fixed(T, P, [(x, p)], "") is None, "the positivity program "
            "admits a state off the box", x=p)
    opt = solve(T, milp, "positivity program")
    T.check(opt is not None, "the positivity program is infeasible")
    C = gen.cloud(T, D.lo, D.up, 100)
    v = np.array([viol(p) for p in C])
    T.check(v.max() <= opt + 1e-5 * (1 + abs(opt)), "a state violates "
            "positivity by more than the optimum", x=C[v.argmax()],
            violation=v.max(), optimum=opt)
    xs = np.array([q.x for q in x])
    T.check(inbox(D, xs, 1e-5), "the optimal state is off the box", x=xs)
    T.check(abs(viol(xs) - opt) <= 1e-4 * (1 + abs(opt)), "the optimum is "
            "not attained at the reported state", x=xs, value=viol(xs),
            optimum=opt)
    T.nontrivial(len(pats) > 1 or opt > 1e-6)
    c.net.unchanged(T, "the Lyapunov network")
    D.unchanged(T)


def levels(T, D, c, xs):
    """level set bounds among the values of some states"""
    v = sorted(c.V(x) for x in gen.cloud(T, D.lo, D.up, 30))
    lo = up = None
    k = T.int(0, 3)
    if k in (1, 3):
        lo = float(v[T.int(0, 20)])
    if k in (2, 3):
        up = float(v[T.int(8, 29)])
    # the level of the equilibrium
    if T.int(0, 3) == 0:
        if lo is not None and v[-1] > .05:
            lo = 0.
            T.label("lower level zero")
        elif up is not None and v[0] < -.05:
            up = 0.
            T.label("upper level zero")
    if lo is not None and up is not None and lo > up:
        lo, up = up, lo
    T.label(f"levels={lo is not None},{up is not None}")
    return lo, up


def dmilp(T, code, c, eps, kind, lo, up, **kw):
    if lo is not None or T.bool():
        kw["lyapunov_lower"] = lo
    if up is not None or T.bool():
        kw["lyapunov_upper"] = up
    return code.lyapunov_derivative_as_milp(c.xt, c.lam, eps, kind, R=c.Rt,
                                            **kw)


def check_states(T, D, c, P, ret, eps, kind, lo, up, pts, what, relax=False):
    """the objective at fixed states; returns the number of decided ones"""
    n = 0
    for p in pts:
        ys = D.f(p)
        v = c.V(p)
        if (lo is not None and abs(v - lo) < 1e-4) or \
                (up is not None and abs(v - up) < 1e-4):
            continue
        if any(inbox(D, y, 1e-4) != inbox(D, y, -1e-4) for y in ys):
            continue
        if D.hybrid and len(ys) > 1:
            T.label("several_successors")
        ys = [y for y in ys if inbox(D, y)]
        ok = bool(ys) and (lo is None or v > lo) and (up is None or v < up)
        o = fixed(T, P, [(ret.x, p)], what, x=p)
        if not ok:
            T.label("excluded_state")
            if not relax:
                T.check(o is None, what + " admits a state that does not "
                        "meet its side conditions", x=p, V=v, lower=lo,
                        upper=up, successors=D.f(p), box=(D.lo, D.up))
            continue
        T.label("admitted_state")
        T.check(o is not None, what + " rejects a state that meets its side "
                "conditions", x=p, V=v, lower=lo, upper=up, successors=ys,
                box=(D.lo, D.up))
        ref = [crit(c, eps, kind, p, y) for y in ys]
        if relax:
            T.check(o[1] >= max(ref) - 1e-5 * (1 + abs(max(ref))), what +
                    " cuts off the violation at a state", x=p, got=o,
                    expected=ref)
        elif D.hybrid:
            # borders are shared by modes; rounding may reach a neighbour
            for a in o:
                T.check(min(ref) - 1e-5 * (1 + abs(min(ref))) <= a <=
                        max(ref) + 1e-5 * (1 + abs(max(ref))) or
                        border(D, p), what + ": objective at a state", x=p,
                        got=o, expected=ref)
            if not border(D, p):
                T.check(near(o[1], max(ref)), what + ": objective at a "
                        "state", x=p, got=o, expected=ref)
        else:
            for a in o:
                T.check(near(a, ref[0]), what + ": objective at a state",
                        x=p, got=o, expected=ref, lam=c.lam, eps=eps,
                        R=c.Rm, xeq=c.xeq, successor=ys)
        n += 1
    return n


def border(D, p):
    return len(D.f(p, 1e-5)) > len(D.f(p)) or len(D.f(p, -1e-5)) < len(
        D.f(p))


@case(quick=240, thorough=6000, shards=6, weight=14, large=12)
def decrease(T):
    D, c, code, eps = draw(T)
    kind = T.choice(list(E))
    pts = states(T, D, 4)
    lo, up = levels(T, D, c, pts)
    warm = None
    if T.int(0, 2) == 0 and all(inbox(D, y, -1e-6) for y in D.f(pts[0])):
        warm = gen.t(pts[0])
    relax = T.int(0, 5) == 0
    kw = dict(x_warmstart=warm) if warm is not None else {}
    if relax:
        kw["binary_var_type"] = gtm.BINARYRELAX
        T.label("relaxed")
    T.label(kind.name)
    ret = dmilp(T, code, c, eps, kind, lo, up, **kw)
    P = prog.Prog(ret.milp)
    T.check(not (relax and P.integ.any()), "a relaxed program has integer "
            "variables")
    n = check_states(T, D, c, P, ret, eps, kind, lo, up, pts,
                     "the decrease program", relax)
    p = gen.outside(T, D.lo, D.up)
    T.check(fixed(T, P, [(ret.x, p)], "") is None,
            "the decrease program admits a state off the box", x=p)
    T.nontrivial(n >= 2 and len({pattern(c, q) for q in pts}) > 1)
    c.net.unchanged(T, "the Lyapunov network")
    D.unchanged(T)


@case(quick=160, thorough=4000, shards=6, weight=16)
def optimum(T):
    D, c, code, eps = draw(T)
    kind = T.choice(list(E))
    lo, up = levels(T, D, c, [])
    T.label(kind.name)
    ret = dmilp(T, code, c, eps, kind, lo, up)
    opt = solve(T, ret.milp, "decrease program")
    C = [x for x in gen.cloud(T, D.lo, D.up, 150)]
    vals = []
    for x in C:
        v = c.V(x)
        if (lo is not None and v < lo + 1e-6) or \
                (up is not None and v > up - 1e-6):
            continue
        ys = [y for y in D.f(x) if inbox(D, y, -1e-6)]
        if ys:
            vals.append((max(crit(c, eps, kind, x, y) for y in ys), x))
    T.label("infeasible" if opt is None else "feasible",
            f"cloud={min(2, len(vals))}")
    if not vals:
        if opt is None:
            return
    else:
        b, x = max(vals, key=lambda t: t[0])
        T.check(opt is not None, "the decrease program is infeasible "
                "although a state meets its conditions", x=x)
        T.check(b <= opt + 1e-5 * (1 + abs(opt)), "a state violates the "
                "decrease condition by more than the optimum", x=x,
                violation=b, optimum=opt, successors=D.f(x))
    xs = np.array([q.x for q in ret.x])
    xn = np.array([q.x for q in ret.x_next])
    T.check(inbox(D, xs, 1e-5) and inbox(D, xn, 1e-5), "the optimal state "
            "or successor is off the box", x=xs, x_next=xn)
    v = c.V(xs)
    T.check((lo is None or v >= lo - 1e-4 * (1 + abs(lo))) and
            (up is None or v <= up + 1e-4 * (1 + abs(up))),
            "the optimal state is off the level set", V=v, lower=lo,
            upper=up)
    ys = D.f(xs, 1e-5) if D.hybrid else D.f(xs)
    T.check(any(np.allclose(y, xn, atol=1e-4) for y in ys), "the reported "
            "next state is not a successor of the reported state", x=xs,
            x_next=xn, successors=ys)
    T.check(abs(crit(c, eps, kind, xs, xn) - opt) <= 2e-4 * (1 + abs(opt)),
            "the optimum is not attained at the reported state", x=xs,
            value=crit(c, eps, kind, xs, xn), optimum=opt)
    T.nontrivial(len(vals) >= 2)


@case(quick=120, thorough=3000, shards=5, weight=16)
def strengthened(T):
    """programs strengthened with cuts at relaxed solutions"""
    D, c, code, eps = draw(T)
    kind = T.choice(list(E))
    pts = states(T, D, 4)
    lo, up = levels(T, D, c, pts)
    ret = dmilp(T, code, c, eps, kind, lo, up)
    opt = solve(T, ret.milp, "decrease program")
    if opt is None:
        T.reject("infeasible")
    kw = {}
    if lo is not None:
        kw["lyapunov_lower"] = lo
    if up is not None:
        kw["lyapunov_upper"] = up
    num = T.int(0, 3)
    st = code.strengthen_lyapunov_derivative_as_milp(
        c.xt, c.lam, eps, kind, num, R=c.Rt, **kw)
    T.label(f"points={num}", kind.name)
    P0, P = prog.Prog(ret.milp), prog.Prog(st.milp)
    T.check(P.integ.sum() == P0.integ.sum(), "the strengthened program has "
            "another number of binary variables", got=int(P.integ.sum()),
            expected=int(P0.integ.sum()))
    n = check_states(T, D, c, P, st, eps, kind, lo, up, pts,
                     "the strengthened program")
    o2 = solve(T, st.milp, "strengthened program")
    T.check(o2 is not None and abs(o2 - opt) <= 1e-4 * (1 + abs(opt)),
            "strengthening changed the optimum", before=opt, after=o2)
    T.nontrivial(num > 0 and n > 0)
    c.net.unchanged(T, "the Lyapunov network")
    D.unchanged(T)


@case(quick=100, thorough=2500, shards=5, weight=18)
def strengthened_binaries(T):
    """equalities between the binaries of V(x) and V(x_next) that hold at
    all states with a nonnegative objective"""
    D, c, code, eps = draw(T)
    kind = T.choice(list(E))
    pts = states(T, D, 5)
    ret = dmilp(T, code, c, eps, kind, None, None)
    opt = solve(T, ret.milp, "decrease program")
    if opt is None:
        T.reject("infeasible")
    before = len(prog.Prog(ret.milp).rows[3])
    code.strengthen_lyapunov_derivative_milp_binary(ret)
    P = prog.Prog(ret.milp)
    after = len(P.rows[3])
    T.label("added" if after > before else "none_added", kind.name)
    T.nontrivial(after > before)
    T.check(after >= before, "constraints were lost", before=before,
            after=after)
    if opt >= 1e-4:
        o2 = solve(T, ret.milp, "strengthened program")
        T.label("positive_optimum")
        T.check(o2 is not None and abs(o2 - opt) <= 1e-4 * (1 + abs(opt)),
                "strengthening the binaries changed a positive optimum",
                before=opt, after=o2)
    for p in pts:
        ys = D.f(p)
        if len(ys) != 1 or not inbox(D, ys[0], -1e-4) or \
                (D.hybrid and border(D, p)):
            continue
        v = crit(c, eps, kind, p, ys[0])
        if v < 1e-4:
            if np.array_equal(pattern(c, p)[0], pattern(c, ys[0])[0]) and \
                    min(c.net.margin(p), c.net.margin(ys[0])) > 1e-4:
                # satisfies every equality between the binaries
                T.label("satisfied_state")
                o = fixed(T, P, [(ret.x, p)], "strengthened program", x=p)
                T.check(o is not None and near(o[0], v) and near(o[1], v),
                        "strengthening the binaries changed a state on the "
                        "same pieces as its successor", x=p, got=o,
                        expected=v)
            continue
        T.label("counterexample_state")
        o = fixed(T, P, [(ret.x, p)], "strengthened program", x=p)
        T.check(o is not None, "strengthening the binaries removed a state "
                "that violates the condition", x=p, violation=v)
        T.check(near(o[1], v), "strengthening the binaries changed the "
                "objective at a state", x=p, got=o, expected=v)


@case(quick=250, thorough=8000, shards=1, weight=3)
def derivative_value(T):
    """lyapunov_derivative lists the decrease for every successor"""
    D, c, code, eps = draw(T)
    x = gen.inside(T, D.lo, D.up)
    if D.modes is not None and T.int(0, 3):
        # on the border of a mode
        A, g, l, u = T.choice(D.modes)
        x = gen.inside(T, l, u)
        i = T.int(0, D.nx - 1)
        x[i] = T.choice((l, u))[i]
    if D.hybrid and (len(D.f(x, 1e-5)) != len(D.f(x)) or
                     (D.modes is None and border(D, x))):
        T.reject("rounding at a border")
    ys = D.f(x)
    ref = sorted(c.V(y) - c.V(x) + eps * c.V(x) for y in ys)
    got = code.lyapunov_derivative(gen.t(x), c.xt, c.lam, eps, R=c.Rt)
    got = sorted(float(g.detach()) for g in got)
    T.nontrivial(len(ys) > 1 or pattern(c, x) != pattern(c, ys[0]))
    T.label(f"successors={len(ys)}")
    T.close(np.array(got), np.array(ref), "lyapunov_derivative", 1e-8, 1e-8,
            x=x)
