# TECHNIQUE: property-based testing (Hypothesis): generated systems, networks, R parameterizations, weights, pools and options; verification programs run by the trainer compared with sample clouds and with the state they report, losses with their definition, gradients with finite differences, and whole training runs with a step-by-step model of the training loop
# NOTE: gurobipy is replaced by the stand-in in /verif/shim.
"""P20 Training certifies only what the verifier accepts."""
import gurobipy
import numpy as np
import torch

import gen
import lyap
import p14_discrete_certificates as p14
import p17_barrier as p17
import p18_losses as p18
import training
from pbt import Violation, case, to_np
from p14_discrete_certificates import inbox
from training import E, dviol, pviol, quiet
import neural_network_lyapunov.train_lyapunov_barrier as tlb
import neural_network_lyapunov.utils as utils

PROPERTY = "P20"
RULE = ("a violating and a satisfying state exist (programs), at least two "
        "components are present (losses), or at least one step was taken "
        "and the outcome was judged (runs)")
ASSUMPTIONS = ["gurobipy stand-in", "optima to 1e-4 (relative)",
               "the decrease program is feasible (a state with a successor "
               "in the box exists)"]
CASES = []
G = gurobipy.GRB


def pools(T, tr):
    tr.lyapunov_positivity_mip_pool_solutions = T.choice((1, 1, 2, 4))
    tr.lyapunov_derivative_mip_pool_solutions = T.choice((1, 1, 2, 4))
    tr.add_adversarial_state_only = T.bool()
    for a in ("lyapunov_positivity_mip_warmstart",
              "lyapunov_derivative_mip_warmstart"):
        setattr(tr, a, T.bool())


def pool_costs(mip, limit):
    """costs of the program's solutions, best first"""
    m = mip.gurobi_model
    out = []
    for i in range(min(limit, m.solCount)):
        m.setParam(G.Param.SolutionNumber, i)
        out.append(m.PoolObjVal)
    m.setParam(G.Param.SolutionNumber, 0)
    return out


def judge_pool(T, mip, adv, viol, limit, only, what):
    """every collected state is that of its own solution of the pool"""
    costs = pool_costs(mip, limit)
    kept = [c for c in costs if c > 0] if only else costs
    adv = to_np(adv)
    T.check(len(adv) == len(kept), what + ": not the states of the pool's "
            "solutions", got=len(adv), expected=kept, all=costs)
    if len(kept) > 1 and max(kept) - min(kept) > 1e-3:
        T.label("pool_of_different_costs")
    for i, (x, c) in enumerate(zip(adv, kept)):
        v = viol(x)
        tol = 2e-4 * (1 + abs(c) + abs(costs[0]))
        if v:
            T.check(min(v) - tol <= c <= max(v) + tol, what + ": a collected "
                    "state is not that of the solution of its rank", x=x,
                    violation=v, expected=c, rank=i, costs=costs)


def judge_states(T, S, adv, obj, viol, limit, only, what, full=True):
    """states the trainer collected"""
    adv = to_np(adv)
    T.check(adv.ndim == 2 and adv.shape[1] == S.D.nx, what + ": shape of the "
            "collected states", got=adv.shape)
    T.check(len(adv) <= limit, what + ": more states than asked for",
            got=len(adv), limit=limit)
    prev = np.inf
    for i, x in enumerate(adv):
        T.check(inbox(S.D, x, 1e-5), what + ": a collected state is off the "
                "box", x=x, lo=S.D.lo, up=S.D.up)
        v = viol(x)
        tol = 2e-4 * (1 + abs(obj))
        if not v:
            continue
        lo, hi = min(v), max(v)
        if only:
            T.check(hi >= -tol, what + ": a collected state does not violate "
                    "the condition", x=x, violation=v)
        if i == 0 and full:
            T.check(lo - tol <= obj <= hi + tol, what + ": the first state "
                    "collected is not the worst one", x=x, violation=v,
                    optimum=obj)
        T.check(lo <= prev + tol, what + ": the collected states are not in "
                "the order of their violations", x=x, violation=v,
                previous=prev)
        prev = min(hi, prev)
    if only and obj <= -1e-6:
        T.check(len(adv) == 0, what + ": a state was collected although none "
                "violates the condition", states=adv, optimum=obj)
    if obj > 1e-5 or not only:
        T.check(len(adv) > 0, what + ": no state was collected", optimum=obj)


def off_modes(T, S, e):
    """a solution of a hybrid system's program off all modes by rounding"""
    if S.D.hybrid and ("StepForwardException" in type(e).__name__ or
                       "NoneType" in str(e)):
        T.reject("no mode")


@case(quick=200, thorough=8000, shards=3, weight=8)
def positivity(T):
    S = training.setup(T, loops=T.bool())
    tr = S.tr
    pools(T, tr)
    thr = None
    if T.int(0, 3) == 0:
        thr = T.float(-.5, 1., special=(0., ))
        tr.lyapunov_positivity_mip_term_threshold = thr
        T.label("threshold")
    C = gen.cloud(T, S.D.lo, S.D.up, 80)
    v = np.array([pviol(S, x) for x in C])
    for rep in range(2):
        mip, obj, adv = quiet(tr.solve_positivity_mip)
        if thr is None or obj <= thr:
            T.check(v.max() <= obj + 1e-5 * (1 + abs(obj)), "a state "
                    "violates positivity by more than the optimum",
                    x=C[v.argmax()], violation=v.max(), optimum=obj)
        judge_states(T, S, adv, obj, lambda x: [pviol(S, x)],
                     tr.lyapunov_positivity_mip_pool_solutions,
                     tr.add_adversarial_state_only, "positivity program")
        if thr is None:
            judge_pool(T, mip, adv, lambda x: [pviol(S, x)],
                       tr.lyapunov_positivity_mip_pool_solutions,
                       tr.add_adversarial_state_only, "positivity program")
        last = tr.lyapunov_positivity_last_x_adv
        if tr.lyapunov_positivity_mip_warmstart:
            T.check(last is not None and abs(pviol(S, to_np(last)) - obj) <=
                    2e-4 * (1 + abs(obj)), "the state kept for the warm "
                    "start is not the one found", x=last, optimum=obj)
        else:
            T.check(last is None, "a state was kept for a warm start")
    T.nontrivial(v.max() > 1e-6 and v.min() < -1e-6)
    S.c.net.unchanged(T, "the Lyapunov network")
    S.D.unchanged(T)


@case(quick=180, thorough=8000, shards=5, weight=14)
def decrease(T):
    S = training.setup(T)
    tr, D = S.tr, S.D
    pools(T, tr)
    thr = None
    k = T.int(0, 5)
    if k == 0:
        thr = T.float(-.5, 1., special=(0., ))
        tr.lyapunov_derivative_mip_term_threshold = thr
        T.label("threshold")
    elif k == 1 and not S.cont:
        tr.derivative_mip_num_strengthen_pts = T.int(1, 2)
        T.label("strengthened")
    elif k == 2:
        tr.lyapunov_derivative_mip_params = {
            G.Param.OutputFlag: False, G.Param.PoolSearchMode: 2,
            G.Param.TimeLimit: 600. + T.int(0, 9)}
        T.label("pool_search")
    elif k == 3 and not S.cont:
        tr.derivative_mip_strengthen_binary = True
    if training.programs(S)[1] is None:
        T.reject("the decrease program is infeasible")
    vals = []
    for x in gen.cloud(T, D.lo, D.up, 60):
        v = dviol(S, x)
        if len(v) == 1 and (S.cont or all(inbox(D, y, -1e-6)
                                          for y in D.f(x))):
            vals.append((v[0], x))
    if tr.derivative_mip_strengthen_binary:
        # only the states that violate the condition stay in the program
        vals = [v for v in vals if v[0] > 1e-4]
        if not vals:
            T.reject("no state violates the condition")
        T.label("strengthened_binary")
    for rep in range(2):
        try:
            mip, obj, adv, nxt = quiet(tr.solve_lyap_derivative_mip)
        except Exception as e:
            off_modes(T, S, e)
            raise
        if k == 2:
            for nm, v in tr.lyapunov_derivative_mip_params.items():
                T.check(getattr(mip.gurobi_model.Params, nm) == v,
                        "a solver setting is not in force", setting=nm,
                        value=v)
        if vals and (thr is None or obj <= thr):
            b, x = max(vals, key=lambda t: t[0])
            T.check(b <= obj + 1e-5 * (1 + abs(obj)), "a state violates the "
                    "decrease condition by more than the optimum", x=x,
                    violation=b, optimum=obj)
        judge_states(T, S, adv, obj, lambda x: dviol(S, x, 1e-5),
                     tr.lyapunov_derivative_mip_pool_solutions,
                     tr.add_adversarial_state_only, "decrease program")
        if thr is None:
            judge_pool(T, mip, adv, lambda x: dviol(S, x, 1e-5),
                       tr.lyapunov_derivative_mip_pool_solutions,
                       tr.add_adversarial_state_only, "decrease program")
        adv, nxt = to_np(adv), to_np(nxt)
        T.check(nxt.shape == adv.shape, "successors and states do not match",
                got=nxt.shape, expected=adv.shape)
        for x, y in zip(adv, nxt):
            ys = D.f(x, 1e-5) if D.hybrid else D.f(x)
            T.check(any(np.allclose(y, z, atol=1e-6) for z in ys), "a "
                    "collected state does not come with its successor", x=x,
                    got=y, expected=ys)
        if len(adv) > 1:
            T.label("several_states")
    T.nontrivial(len(vals) > 1 and max(v[0] for v in vals) > 0 >
                 min(v[0] for v in vals))
    S.c.net.unchanged(T, "the Lyapunov network")
    D.unchanged(T)


def slope(T, S, modules, loss, what, program=True):
    objs = (S.code, S.D.code, getattr(S.D.code, "forward_system", None))
    if program and any(
            getattr(o, a, p14.M.IA) != p14.M.IA for o in objs for a in
            ("network_bound_propagate_method",
             "controller_network_bound_propagate_method")):
        # bounds from programs carry no gradient
        try:
            p18.slope(T, modules, loss, what, program)
        except Violation:
            T.known("P20-gradient-with-program-bounds")
    else:
        p18.slope(T, modules, loss, what, program)


@case(quick=160, thorough=6000, shards=2, weight=6)
def decrease_modes(T):
    """hybrid systems and several solutions: every collected state comes
    with the successor of its own mode"""
    S = training.setup(T, continuous=False, loops="hybrid")
    tr, D = S.tr, S.D
    tr.lyapunov_derivative_mip_pool_solutions = k = T.choice((3, 6, 10))
    tr.lyapunov_derivative_mip_params = {
        G.Param.OutputFlag: False, G.Param.PoolSearchMode: T.choice((1, 2))}
    tr.add_adversarial_state_only = T.int(0, 3) == 0
    if training.programs(S)[1] is None:
        T.reject("the decrease program is infeasible")
    try:
        mip, obj, adv, nxt = quiet(tr.solve_lyap_derivative_mip)
    except Exception as e:
        off_modes(T, S, e)
        raise
    judge_pool(T, mip, adv, lambda x: dviol(S, x, 1e-5), k,
               tr.add_adversarial_state_only, "decrease program")
    adv, nxt = to_np(adv), to_np(nxt)
    T.check(nxt.shape == adv.shape, "successors and states do not match",
            got=nxt.shape, expected=adv.shape)
    met = set()
    for x, y in zip(adv, nxt):
        ys = D.f(x, 1e-5)
        T.check(any(np.allclose(y, z, atol=1e-6) for z in ys), "a "
                "collected state does not come with its successor", x=x,
                got=y, expected=ys)
        if len(ys) == 1:
            met.add(tuple(
                i for i, (_, _, l, u) in enumerate(D.modes)
                if np.all(x >= l) and np.all(x <= u)))
    if len(met) > 1:
        T.label("states_of_several_modes")
    T.nontrivial(len(met) > 1)
    S.c.net.unchanged(T, "the Lyapunov network")
    D.unchanged(T)


@case(quick=150, thorough=6000, shards=3, weight=8)
def boundary_gap(T):
    S = training.setup(T, loops=False)
    D, tr, c = S.D, S.tr, S.c
    gap, vmin, vmax, xmin, xmax = quiet(tr.solve_boundary_gap_mip)
    P = gen.cloud(T, D.lo, D.up, 60)
    for x in P:
        i = int(abs(x[0] * 1e6)) % D.nx
        x[i] = D.lo[i] if int(abs(x[-1] * 1e7)) % 2 else D.up[i]
    v = [c.V(x) for x in P]
    s = 1e-5 * (1 + abs(vmin) + abs(vmax))
    T.check(min(v) >= vmin - s and max(v) <= vmax + s, "a boundary state has "
            "a value outside the reported range", range=(vmin, vmax),
            got=(min(v), max(v)))
    for x, val, w in ((to_np(xmin), vmin, "minimal"),
                      (to_np(xmax), vmax, "maximal")):
        T.check(inbox(D, x, 1e-6) and np.min(
            np.minimum(abs(x - D.lo), abs(x - D.up))) <= 1e-6, "the state of "
            f"{w} value is not on the boundary", x=x, lo=D.lo, up=D.up)
        T.check(abs(c.V(x) - val) <= 1e-4 * (1 + abs(val)), "the state "
                f"reported does not have the {w} value", x=x, V=c.V(x),
                got=val)
    T.check(abs(float(gap.detach()) - (vmax - vmin)) <= 1e-5 *
            (1 + abs(vmax) + abs(vmin)), "the gap is not the difference of "
            "the values", got=float(gap.detach()), expected=vmax - vmin)
    T.nontrivial(vmax - vmin > 1e-4)
    if T.int(0, 1):
        slope(T, S, mods(S), lambda: quiet(tr.solve_boundary_gap_mip)[0],
              "boundary gap")


class Tensors:
    def __init__(self, ps):
        self.ps = ps

    def parameters(self):
        return self.ps


def mods(S, controller=False):
    ps = list(S.c.net.torch.parameters()) + list(S.R.variables())
    if controller and S.loop is not None:
        ps += list(S.D.code.controller_network.parameters())
    return [Tensors(ps)]


def sample_losses(T, S, P, Q, QN, wp, wd, red, mp, md):
    """reference values of the sample losses (range for kinks)"""
    p = 0.
    if wp and len(P):
        p = wp * p18.reduce_(np.maximum(np.array(
            [pviol(S, x) for x in P]) + mp, 0), red)
    if not (wd and len(Q)):
        return p, 0., 0.
    if S.cont:
        vs = []
        for x, y in zip(Q, QN):
            g = S.c.grads(x, 1e-8)
            if g is None:
                return p, None, None
            vs.append([a @ y + S.eps * S.c.V(x) for a in g])
        lo = np.array([min(v) for v in vs])
        hi = np.array([max(v) for v in vs])
    else:
        lo = hi = np.array([p14.crit(S.c, S.eps, S.kind, x, y)
                            for x, y in zip(Q, QN)])
    return p, wd * p18.reduce_(np.maximum(lo + md, 0), red), \
        wd * p18.reduce_(np.maximum(hi + md, 0), red)


def weight(T, none=False):
    k = T.int(0, 4)
    if k == 0:
        return 0.
    if k == 1 and none:
        return None
    return T.float(.1, 5., special=(1., 10.))


def within(T, got, lo, hi, what, scale=0., **info):
    if lo is None:
        return
    tol = 1e-7 * (1 + abs(lo) + abs(hi) + scale)
    T.check(lo - tol <= got <= hi + tol, what, got=got, expected=(lo, hi),
            **info)


@case(quick=200, thorough=8000, shards=6, weight=20)
def total(T):
    S = training.setup(T)
    tr, D = S.tr, S.D
    pools(T, tr)
    tr.add_positivity_adversarial_state = T.bool()
    tr.add_derivative_adversarial_state = T.bool()
    tr.max_sample_pool_size = T.choice((500, 500, 1, 2, 3))
    red = tr.sample_loss_reduction = T.choice(p18.RED)
    mp = tr.lyapunov_positivity_sample_margin = T.float(0., .3, special=(0, ))
    md = tr.lyapunov_derivative_sample_margin = T.float(0., .3, special=(0, ))
    P = training.samples(T, S, T.int(0, 4))
    Q = training.samples(T, S, T.int(0, 4))
    QN = to_np(training.successors(S, Q))
    wp, wd = weight(T), weight(T)
    mwp, mwd = weight(T, True), weight(T, True)
    gw = T.choice((0., 0., 1., .1))
    if mwd is not None and training.programs(S)[1] is None:
        mwd = None
    controller = S.loop is not None

    def run():
        try:
            return quiet(tr.total_loss, gen.t(P), gen.t(Q),
                         training.successors(S, Q), wp, wd, mwp, mwd, gw)
        except Exception as e:
            off_modes(T, S, e)
            raise
    r = run()
    L = r.lyap_loss
    fresh = training.programs(S)

    def val(a):
        return float(a.detach()) if hasattr(a, "detach") else float(a)
    n = 0
    tot = 0.
    for nm, w, obj, loss, ref in (
            ("positivity", mwp, L.positivity_mip_obj, L.positivity_mip_loss,
             fresh[0]),
            ("decrease", mwd, L.derivative_mip_obj, L.derivative_mip_loss,
             fresh[1])):
        if w is None:
            T.check(obj is None, f"{nm}: an optimum although the program is "
                    "switched off", got=obj)
        else:
            T.check(abs(obj - ref) <= 1e-5 * (1 + abs(ref)), f"{nm}: "
                    "reported optimum", got=obj, expected=ref)
        e = w * ref if w else 0.
        T.check(abs(val(loss) - e) <= 1e-5 * (1 + abs(e)), f"{nm}: weighted "
                "optimum", got=val(loss), expected=e, weight=w)
        tot += val(loss)
        n += bool(w)
    if gw == 0:
        T.check(val(L.gap_mip_loss) == 0., "boundary gap although its weight "
                "is zero", got=val(L.gap_mip_loss))
    else:
        g = quiet(tr.solve_boundary_gap_mip)
        T.check(abs(val(L.gap_mip_loss) - gw * (g[2] - g[1])) <= 1e-5 *
                (1 + abs(g[1]) + abs(g[2])), "weighted boundary gap",
                got=val(L.gap_mip_loss), expected=gw * (g[2] - g[1]))
        n += 1
    tot += val(L.gap_mip_loss)
    # collected samples
    P2, Q2, QN2 = (to_np(a) for a in (
        L.positivity_state_samples, L.derivative_state_samples,
        L.derivative_state_samples_next))
    for old, new, add, w, lim, nm in (
            (P, P2, tr.add_positivity_adversarial_state, mwp,
             tr.lyapunov_positivity_mip_pool_solutions, "positivity"),
            (Q, Q2, tr.add_derivative_adversarial_state, mwd,
             tr.lyapunov_derivative_mip_pool_solutions, "decrease")):
        T.check(len(new) >= len(old) and np.array_equal(new[:len(old)], old),
                f"{nm}: the given samples were not kept in place", got=new,
                given=old)
        if not add or w is None:
            T.check(len(new) == len(old), f"{nm}: states were added although "
                    "that is switched off")
        elif len(new) > len(old):
            T.label("states_added")
    T.check(np.array_equal(QN2[:len(Q)], QN), "decrease: the successors of "
            "the given samples were not kept in place")
    T.check(QN2.shape == Q2.shape, "decrease: states and successors do not "
            "match", got=(Q2.shape, QN2.shape))
    for x, y in zip(Q2[len(Q):], QN2[len(Q):]):
        ys = D.f(x, 1e-5) if D.hybrid else D.f(x)
        T.check(any(np.allclose(y, z, atol=1e-6) for z in ys), "an added "
                "state does not come with its successor", x=x, got=y,
                expected=ys)
    m = tr.max_sample_pool_size
    if max(len(P2), len(Q2)) > m:
        T.label("pool_overflow")
    p, dlo, dhi = sample_losses(T, S, P2[-m:], Q2[-m:], QN2[-m:], wp, wd, red,
                                mp, md)
    within(T, val(L.positivity_sample_loss), p, p, "positivity sample loss",
           samples=P2, limit=m, reduction=red, margin=mp, weight=wp)
    within(T, val(L.derivative_sample_loss), dlo, dhi, "decrease sample loss",
           samples=Q2, limit=m, reduction=red, margin=md, weight=wd)
    n += bool(wp and len(P2)) + bool(wd and len(Q2))
    tot += val(L.positivity_sample_loss) + val(L.derivative_sample_loss)
    T.close(val(r.loss), tot, "the total is not the sum of the reported "
            "components", 1e-9, 1e-9)
    T.nontrivial(n >= 2)
    S.c.net.unchanged(T, "the Lyapunov network")
    D.unchanged(T)
    if n and T.bool():
        tr.add_positivity_adversarial_state = False
        tr.add_derivative_adversarial_state = False
        if run().loss.requires_grad:
            slope(T, S, mods(S, controller and not (S.cont and mwd)),
                  lambda: run().loss, "total loss", bool(mwp or mwd or gw))


# -- training runs ----------------------------------------------------------
def configure(T, S, tr, fresh):
    tr.add_positivity_adversarial_state = T.bool()
    tr.add_derivative_adversarial_state = T.bool()
    tr.optimizer = T.choice(("Adam", "SGD"))
    tr.momentum = T.choice((0., .5)) if tr.optimizer == "SGD" else 0.
    tr.learning_rate = T.choice((1e-3, 1e-2, .1))
    tr.lyapunov_positivity_sample_cost_weight = weight(T)
    tr.lyapunov_derivative_sample_cost_weight = weight(T)
    tr.lyapunov_positivity_mip_cost_weight = weight(T)
    tr.lyapunov_derivative_mip_cost_weight = weight(T)
    tr.search_controller = T.bool()

    def tol(v):
        k = T.int(0, 4)
        if k == 0:
            return v + .1
        if k == 1:
            return v - T.choice((1e-3, .01, .1))
        if k == 2:
            return v + 5.
        return 1e-6 if k == 3 else v + 1e-3
    tr.lyapunov_positivity_convergence_tol = tol(fresh[0])
    tr.lyapunov_derivative_convergence_tol = tol(fresh[1])
    tr.max_sample_pool_size = T.choice((500, 3))
    T.label(tr.optimizer)


def judge_run(T, S, tr, ok, before, what, strict=False):
    """what holds after any run"""
    frozen = []
    D = S.D
    if S.loop is None:
        D.unchanged(T)
    else:
        S.loop.fwd.unchanged(T)
        if not tr.search_controller:
            D.unchanged(T)
    if S.R.fixed_R:
        T.close(S.R.R(), S.c.R, what + ": the fixed R changed", 0, 0)
    if ok:
        T.label("success")
        now = training.programs(S)
        for a, tol, nm in ((now[0], tr.lyapunov_positivity_convergence_tol,
                            "positivity"),
                           (now[1], tr.lyapunov_derivative_convergence_tol,
                            "decrease")):
            T.check(a is not None and a <= tol + 1e-6 * (1 + abs(tol)), what +
                    f" reports success but the {nm} program of the network "
                    "left behind exceeds the tolerance", optimum=a,
                    tolerance=tol)
        # and the verdict holds at sampled states (torch evaluation)
        for x in gen.cloud(T, D.lo, D.up, 25):
            tx = gen.t(x)
            with torch.no_grad():
                V = float(S.code.lyapunov_value(tx, S.c.xt, S.c.lam,
                                                R=S.R.R()).squeeze())
                l1 = float((S.R.R() @ (tx - S.c.xt)).abs().sum())
                if S.cont or D.hybrid:
                    y = None
                else:
                    y = D.code.step_forward(tx).reshape(-1)
            T.check(S.eps2 * l1 - V <= tr.lyapunov_positivity_convergence_tol
                    + 1e-5 * (1 + abs(V)), what + " reports success but a "
                    "state violates positivity", x=x, V=V, l1=l1)
            if y is None or not inbox(D, to_np(y), -1e-6):
                continue
            with torch.no_grad():
                Vn = float(S.code.lyapunov_value(y, S.c.xt, S.c.lam,
                                                 R=S.R.R()).squeeze())
            d = Vn - V + S.eps * (l1 if S.kind == E.Asymp else V)
            d = -d if S.kind == E.ExpUpper else d
            T.check(d <= tr.lyapunov_derivative_convergence_tol + 1e-5 *
                    (1 + abs(V)), what + " reports success but a state "
                    "violates the decrease condition", x=x, violation=d)


def model_run(S, tr, X, ps):
    """the documented loop on its own: evaluate, stop when both optima are
    within tolerance, otherwise step"""
    opt = torch.optim.Adam(ps, lr=tr.learning_rate) \
        if tr.optimizer == "Adam" else \
        torch.optim.SGD(ps, lr=tr.learning_rate, momentum=tr.momentum)
    P, Q = X.copy(), X.copy()
    for _ in range(tr.max_iterations):
        for p in ps:
            p.grad = None
        r = quiet(tr.total_loss, gen.t(P), gen.t(Q),
                  training.successors(S, Q),
                  tr.lyapunov_positivity_sample_cost_weight,
                  tr.lyapunov_derivative_sample_cost_weight,
                  tr.lyapunov_positivity_mip_cost_weight,
                  tr.lyapunov_derivative_mip_cost_weight,
                  tr.boundary_value_gap_mip_cost_weight)
        L = r.lyap_loss
        P, Q = (to_np(L.positivity_state_samples),
                to_np(L.derivative_state_samples))
        out = (r.loss.item(), L.positivity_mip_obj, L.derivative_mip_obj)
        if L.positivity_mip_obj <= tr.lyapunov_positivity_convergence_tol \
                and L.derivative_mip_obj <= \
                tr.lyapunov_derivative_convergence_tol:
            return (True, ) + out
        if r.loss.requires_grad:
            r.loss.backward()
        opt.step()
    return (False, ) + out


@case(quick=130, thorough=5000, shards=5, weight=20)
def run(T):
    """train() against a model of its loop"""
    S = training.setup(T, hybrid=False)
    tr = S.tr
    fresh = training.programs(S)
    if fresh[1] is None:
        T.reject("the decrease program is infeasible")
    configure(T, S, tr, fresh)
    if not (tr.lyapunov_positivity_mip_cost_weight or
            tr.lyapunov_derivative_mip_cost_weight):
        # (a loss that depends on the parameters)
        tr.lyapunov_positivity_mip_cost_weight = 1.
    tr.boundary_value_gap_mip_cost_weight = T.choice((0., 0., .5))
    tr.max_iterations = T.int(1, 3)
    X = training.samples(T, S, T.int(0, 4))
    ps = training.params(S) if tr.search_controller else \
        list(S.c.net.torch.parameters()) + list(S.R.variables())
    for p in training.params(S):
        p.requires_grad_(True)
    all_ = training.params(S)
    before = training.values(all_)
    try:
        want = model_run(S, tr, X, ps)
    except AttributeError:
        T.reject("a program became infeasible")
    except Exception as e:
        # (documented for optima that are not accurate to 1e-3, e.g. when
        # the steps diverge)
        if type(e).__name__ == "IncorrectActiveConstraint":
            T.reject("no active constraints")
        raise
    ref = training.values(all_)
    with torch.no_grad():
        for p, v in zip(all_, before):
            p.copy_(gen.t(v))
            p.grad = None
    tr.lyapunov_positivity_last_x_adv = None
    tr.lyapunov_derivative_last_x_adv = None
    got = quiet(tr.train, gen.t(X))
    T.check(len(got) == 4, "return value of train", got=got)
    T.check(bool(got[0]) == want[0], "train ends with another verdict than "
            "its loop", got=got, expected=want,
            tol=(tr.lyapunov_positivity_convergence_tol,
                 tr.lyapunov_derivative_convergence_tol))
    T.close(np.array(got[1:], float), np.array(want[1:], float), "train "
            "reports other values (loss, positivity, decrease) than its loop",
            1e-6, 1e-6)
    for a, b, v in zip(training.values(all_), ref, before):
        T.close(a, b, "train leaves other parameters than its loop", 1e-6,
                1e-6, before=v)
    judge_run(T, S, tr, got[0], before, "train")
    T.nontrivial(any(not np.array_equal(a, b) for a, b in zip(ref, before))
                 or want[0])


@case(quick=100, thorough=4000, shards=5, weight=20)
def adversarial_run(T):
    """train_adversarial: its verdict holds for what it leaves behind"""
    S = training.setup(T)
    tr = S.tr
    fresh = training.programs(S)
    if fresh[1] is None:
        T.reject("the decrease program is infeasible")
    configure(T, S, tr, fresh)
    pools(T, tr)
    if not (tr.lyapunov_positivity_sample_cost_weight or
            tr.lyapunov_derivative_sample_cost_weight):
        # (a loss that depends on the parameters)
        tr.lyapunov_positivity_sample_cost_weight = 1.
    tr.add_positivity_adversarial_state = True
    tr.add_derivative_adversarial_state = True
    tr.max_iterations = T.int(1, 3)
    o = tlb.Trainer.AdversarialTrainingOptions()
    o.num_batches = T.int(1, 3)
    o.num_epochs_per_mip = T.int(1, 3)
    o.positivity_samples_pool_size = T.choice((100, 6, 3))
    o.derivative_samples_pool_size = T.choice((100, 6, 3))
    if T.int(0, 2) == 0:
        o.adversarial_cluster_radius = T.choice((1e-3, .1, .5))
    pert = 0
    if T.int(0, 3) == 0:
        pert = o.perturb_derivative_sample_count = T.int(1, 2)
        o.perturb_derivative_sample_std = 1e-4
    P = training.samples(T, S, T.int(1, 4))
    Q = training.samples(T, S, T.int(1, 4))
    if not len(P) or not len(Q):
        T.reject("no samples")
    T.seed()
    for p in training.params(S):
        p.requires_grad_(True)
    before = training.values(training.params(S))
    try:
        got = quiet(tr.train_adversarial, gen.t(P), gen.t(Q), o)
    except AttributeError as e:
        if "ObjVal" in str(e) or "ObjVal" in repr(e):
            T.reject("a program became infeasible")
        raise
    except Exception as e:
        off_modes(T, S, e)
        raise
    ok = bool(got[0])
    P2, Q2 = to_np(got[1]), to_np(got[2])
    for old, new, lim, per, nm in (
            (P, P2, o.positivity_samples_pool_size,
             tr.lyapunov_positivity_mip_pool_solutions, "positivity"),
            (Q, Q2, o.derivative_samples_pool_size,
             tr.lyapunov_derivative_mip_pool_solutions * (1 + pert),
             "decrease")):
        T.check(len(new) <= lim, f"{nm}: the sample pool exceeds its limit",
                got=len(new), limit=lim)
        rounds = tr.max_iterations
        T.check(len(new) <= len(old) + rounds * per, f"{nm}: more samples "
                "than were collected", got=len(new))
        # samples that were given can only be lost at the front of the pool
        k = max((j for j in range(len(old) + 1) if j <= len(new) and
                 np.array_equal(new[:j], old[len(old) - j:])))
        if k < len(old):
            T.label("pool_overflow")
            T.check(len(new) == min(lim, len(new)) and len(new) == lim,
                    f"{nm}: given samples were dropped from a pool that is "
                    "not full", given=old, pool=new, limit=lim)
        for x in new[k:]:
            T.check(inbox(S.D, x, 1e-5 if not (pert and nm == "decrease")
                          else 2e-3), f"{nm}: a state off the box in the "
                    "pool", x=x)
    judge_run(T, S, tr, ok, before, "train_adversarial")
    moved = any(not np.array_equal(a, b) for a, b in
                zip(training.values(training.params(S)), before))
    T.label("moved" if moved else "not_moved")
    T.nontrivial(ok or moved)
    T.check(len(S.R.variables()) == (0 if S.R.fixed_R else 1) and
            all(v.is_leaf and v.requires_grad for v in S.R.variables()),
            "R cannot be trained any more after a run")


# -- barrier ----------------------------------------------------------------
@case(quick=170, thorough=6000, shards=4, weight=10)
def barrier(T):
    D, B, code = p17.draw(T, loops=False)
    tr = tlb.Trainer()
    tr.add_barrier(code, gen.t(B.xs), float(B.c), T.float(0., 1.))
    eps = tr.barrier_epsilon
    # (bounds of variables alone are not part of the differentiable data)
    kinds = [k for k in p17.KINDS if k != "bounds"]
    safe = [p17.region(T, D, kinds) for _ in range(T.int(0, 2))]
    unsafe = [p17.region(T, D, kinds) for _ in range(T.int(0, 2))]
    tr.safe_regions = [r.code for r in safe]
    tr.unsafe_regions = [r.code for r in unsafe]
    tr.barrier_value_mip_pool_solutions = T.choice((1, 1, 2))
    tr.barrier_derivative_mip_pool_solutions = T.choice((1, 1, 2))
    tr.add_adversarial_state_only = T.bool()
    red = tr.sample_loss_reduction = T.choice(p18.RED)
    m = tr.max_sample_pool_size = T.choice((500, 2))
    X = [np.array([gen.inside(T, D.lo, D.up) for _ in range(T.int(0, 3))]
                  ).reshape(-1, D.nx) for _ in range(3)]
    ws = [weight(T) for _ in range(3)]
    mws = [weight(T, True) for _ in range(3)]
    r = code.derivative_as_milp(gen.t(B.xs), B.c, eps)
    r.milp.gurobi_model.setParam("OutputFlag", 0)
    r.milp.gurobi_model.optimize()
    rate = r.milp.gurobi_model.ObjVal if r.milp.gurobi_model.status == 2 \
        else None
    if rate is None:
        mws[2] = None
    try:
        L = quiet(tr.compute_barrier_loss, *[gen.t(x) for x in X], *ws, *mws)
    except Exception as e:
        if "StepForwardException" in type(e).__name__:
            # (a solution off all modes by rounding)
            T.reject("no mode")
        raise
    n = 0
    pools_ = []
    for nm, regs, s, w, obj, loss, old, new in (
            ("safe", safe, -1., mws[0], L.safe_mip_obj, L.safe_mip_loss, X[0],
             L.safe_state_samples),
            ("unsafe", unsafe, 1., mws[1], L.unsafe_mip_obj,
             L.unsafe_mip_loss, X[1], L.unsafe_state_samples)):
        new = to_np(new)
        T.check(np.array_equal(new[:len(old)], old), f"{nm}: the given "
                "samples were not kept in place")
        if w is None:
            T.check(obj is None and loss is None and len(new) == len(old),
                    f"{nm}: results although the program is switched off")
        else:
            T.check(len(obj) == len(regs), f"{nm}: one optimum per region",
                    got=obj)
            for i, g in enumerate(regs):
                C = [p for l, u in g.boxes for p in gen.cloud(T, l, u, 20)
                     if inbox(D, p)]
                v = [s * B.h(p) for p in C]
                if v:
                    T.check(max(v) <= obj[i] + 1e-5 * (1 + abs(obj[i])),
                            f"{nm}: a state exceeds the optimum",
                            x=C[int(np.argmax(v))], optimum=obj[i])
                if w:
                    T.check(abs(float(loss[i].detach()) - w * obj[i]) <=
                            1e-5 * (1 + abs(w * obj[i])), f"{nm}: weighted "
                            "optimum", got=float(loss[i].detach()),
                            expected=w * obj[i])
            add = new[len(old):]
            T.check(len(add) <= len(regs) *
                    tr.barrier_value_mip_pool_solutions, f"{nm}: more states "
                    "than asked for", got=len(add))
            T.check(len(add) >= len(regs), f"{nm}: the state of an optimum "
                    "was not collected")
            for x in add:
                T.check(any(g.has(x, 1e-5) for g in regs), f"{nm}: a "
                        "collected state is off the regions", x=x)
            for i, g in enumerate(regs):
                T.check(any(g.has(x, 1e-5) and abs(s * B.h(x) - obj[i]) <=
                            1e-4 * (1 + abs(obj[i])) for x in add), f"{nm}: "
                        "the optimum of a region is not attained at a "
                        "collected state", optimum=obj[i], states=add)
            n += len(regs)
        pools_.append(new)
    new, old = to_np(L.derivative_state_samples), X[2]
    T.check(np.array_equal(new[:len(old)], old), "rate: the given samples "
            "were not kept in place")
    if mws[2] is None:
        T.check(L.derivative_mip_obj is None and len(new) == len(old),
                "rate: results although the program is switched off")
    else:
        T.check(abs(L.derivative_mip_obj - rate) <= 1e-5 * (1 + abs(rate)),
                "rate: optimum", got=L.derivative_mip_obj, expected=rate)
        if mws[2]:
            T.check(abs(float(L.derivative_mip_loss.detach()) - mws[2] *
                        rate) <= 1e-5 * (1 + abs(mws[2] * rate)), "rate: "
                    "weighted optimum")
        add = new[len(old):]
        only = tr.add_adversarial_state_only
        T.check(len(add) <= tr.barrier_derivative_mip_pool_solutions,
                "rate: more states than asked for")
        T.check(len(add) or (only and rate <= 1e-5), "rate: no state was "
                "collected", optimum=rate)
        if only and rate <= -1e-6:
            T.label("no_counterexample")
            T.check(len(add) == 0, "rate: a state was collected although "
                    "none violates the condition", optimum=rate)
        for i, x in enumerate(add):
            T.check(inbox(D, x, 1e-5), "rate: a collected state is off the "
                    "box", x=x)
            ys = D.f(x, 1e-5) if D.hybrid else D.f(x)
            v = [B.rate(eps, x, y) for y in ys]
            if i == 0:
                T.check(any(abs(a - rate) <= 2e-4 * (1 + abs(rate))
                            for a in v), "rate: the first collected state is "
                        "not the worst one", x=x, got=v, optimum=rate)
            if only:
                T.check(max(v) >= -2e-4, "rate: a collected state does not "
                        "violate the condition", x=x, violation=v)
        n += 1
    pools_.append(new)

    def hinge(w, v):
        return w * p18.reduce_(np.maximum(np.array(v), 0.), red) if w and \
            len(v) else 0.
    for nm, w, got, v in (
            ("safe", ws[0], L.safe_sample_loss,
             [-B.h(x) for x in pools_[0][-m:]]),
            ("unsafe", ws[1], L.unsafe_sample_loss,
             [B.h(x) for x in pools_[1][-m:]])):
        T.close(float(got.detach()), hinge(w, v), f"{nm}: sample loss", 1e-8,
                1e-7, values=v, weight=w, reduction=red)
        n += bool(w and len(v))
    vs = []
    for x in pools_[2][-m:]:
        ys = D.f(x, 1e-6) if D.hybrid else D.f(x)
        vs.append([B.rate(eps, x, y) for y in ys])
    lo = hinge(ws[2], [min(v) for v in vs])
    hi = hinge(ws[2], [max(v) for v in vs])
    within(T, float(L.derivative_sample_loss.detach()), lo, hi, "rate: "
           "sample loss", values=vs, weight=ws[2], reduction=red)
    if T.bool():
        # the programs one by one: every state that of its own solution
        tr.barrier_value_mip_pool_solutions = T.choice((2, 3))
        tr.barrier_derivative_mip_pool_solutions = T.choice((2, 3))
        quiet_ = {G.Param.OutputFlag: False,
                  G.Param.TimeLimit: 600. + T.int(0, 9)}
        tr.barrier_derivative_mip_params = dict(quiet_)
        for nm, s, flag, regs in (("safe", -1., True, safe),
                                  ("unsafe", 1., False, unsafe)):
            mips, objs, advs = quiet(tr.solve_barrier_value_mip, flag)
            T.check(len(mips) == len(objs) == len(advs) == len(regs),
                    f"{nm}: one program per region")
            for mip, o, a in zip(mips, objs, advs):
                judge_pool(T, mip, a, lambda x: [s * B.h(x)],
                           tr.barrier_value_mip_pool_solutions, False, nm)
        if rate is not None:
            mip, o, a = quiet(tr.solve_barrier_derivative_mip)
            for nm, v in quiet_.items():
                T.check(getattr(mip.gurobi_model.Params, nm) == v,
                        "a solver setting is not in force", setting=nm,
                        value=v)
            judge_pool(T, mip, a, lambda x: [
                B.rate(eps, x, y) for y in
                (D.f(x, 1e-5) if D.hybrid else D.f(x))],
                tr.barrier_derivative_mip_pool_solutions,
                tr.add_adversarial_state_only, "rate")
    T.nontrivial(n >= 2)
    B.net.unchanged(T, "the barrier network")
    D.unchanged(T)
