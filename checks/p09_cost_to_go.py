# TECHNIQUE: property-based testing (Hypothesis): random piecewise-affine systems simulated by an own reference (exact recursion; adaptive order-8 integration at tolerance 1e-11 for continuous time), tail sums/integrals and stopping times compared; partitions against the defining grid and by point coverage
"""P09 Cost-to-go, trajectory sampling and partitions are consistent."""
import numpy as np
import scipy.integrate
import torch

import cvxpatch
import gen
from pbt import case, to_np
import neural_network_lyapunov.hybrid_linear_system as hls

cvxpatch.install()

PROPERTY = "P09"
SCALE = 3
RULE = ("trajectories of at least two states with a stage cost that is not "
        "zero; partitions with at least two cells")
ASSUMPTIONS = ["cvxpy's GUROBI replaced by HiGHS",
               "continuous-time systems are continuous across the modes, "
               "values within 1e-4 (the code integrates at rtol 1e-8)"]

Exc = hls.AutonomousHybridLinearSystem.StepForwardException


class PWA:
    """split of a box along one coordinate in one to three modes"""
    def __init__(self, T, nx, scale, continuous):
        self.nx = nx
        self.lo, self.up = -np.ones(nx), np.ones(nx)
        self.K = T.span(1, 3, 9, 14)
        self.j = T.int(0, nx - 1)
        cuts = {1: [], 2: [0.], 3: [-.3, .4]}.get(self.K)
        if cuts is None:
            cuts = list(np.linspace(-1., 1., self.K + 1)[1:-1] +
                        .02 * T.rng().random(self.K - 1))
        self.edges = np.array([-1.] + cuts + [1.])
        self.A, self.g = [], []
        for i in range(self.K):
            A = T.array((nx, nx), -1., 1., coarse=False)
            n = np.linalg.norm(A, 2)
            if n > 0:
                A = A * scale / max(n, .3)
            if continuous:
                # stable: symmetric part below -0.2
                A = A - A.T - .3 * A @ A.T - .4 * np.eye(nx)
            g = T.array((nx, ), -.2, .2) * (T.int(0, 1))
            if continuous and i > 0:
                # agree with the previous mode on x_j = edge
                A = self.A[-1].copy()
                d = T.array((nx, ), -.2, .2)
                A[:, self.j] += d
                g = self.g[-1] - d * self.edges[i]
            self.A.append(A)
            self.g.append(g)
        self.P, self.q = [], []
        for i in range(self.K):
            l, u = self.lo.copy(), self.up.copy()
            l[self.j], u[self.j] = self.edges[i], self.edges[i + 1]
            self.P.append(np.vstack((np.eye(nx), -np.eye(nx))))
            self.q.append(np.concatenate((u, -l)))

    def build(self):
        s = hls.AutonomousHybridLinearSystem(self.nx, gen.DT)
        for i in range(self.K):
            s.add_mode(*[gen.t(v[i]) for v in
                         (self.A, self.g, self.P, self.q)])
        return s

    def images(self, x, tol=1e-9):
        return [self.A[i] @ x + self.g[i] for i in range(self.K)
                if np.all(self.P[i] @ x <= self.q[i] + tol)]

    def field(self, x):
        i = int(np.clip(np.searchsorted(self.edges[1:-1], x[self.j]), 0,
                        self.K - 1))
        return self.A[i] @ x + self.g[i]


def stage_cost(T, nx):
    """(code's callable, numpy callable, name)"""
    k = T.int(0, 3)
    if k == 0:
        return (lambda x: x[0]), (lambda x: x[0]), "a component"
    if k == 1:
        return (lambda x: x @ x), (lambda x: x @ x), "squares"
    if k == 2:
        return (lambda x: torch.norm(x, p=1)), \
            (lambda x: np.abs(x).sum()), "one-norm"
    Q = T.array((nx, nx))
    Q = Q @ Q.T
    return (lambda x: x @ (gen.t(Q) @ x) + 1.), \
        (lambda x: x @ Q @ x + 1.), "quadratic"


def check_discrete(T, s, x0, N, f, goal, r):
    total, xs, costs = r
    xs, costs = to_np(xs), to_np(costs)
    n = xs.shape[1]
    T.check(xs.shape == (s.nx, n) and costs.shape == (n, ) and n <= N + 1,
            "shapes of the trajectory", got=(xs.shape, costs.shape))
    T.close(xs[:, 0], x0, "start of the trajectory", 0, 0)
    for k in range(n - 1):
        im = s.images(xs[:, k])
        T.check(any(np.allclose(y, xs[:, k + 1], 1e-9, 1e-9) for y in im),
                "the trajectory does not follow the system", step=k,
                x=xs[:, k], got=xs[:, k + 1], expected=im)
    l = np.array([f(xs[:, k]) for k in range(n)])
    tail = np.cumsum(l[::-1])[::-1]
    T.close(total, tail[0], "total cost", 1e-9, 1e-9)
    T.close(costs, tail, "cost to go along the trajectory", 1e-8, 1e-9)
    # the length
    if goal is None:
        T.check(n == N + 1, "number of steps", got=n - 1, expected=N)
        return n
    d = np.linalg.norm(xs - goal[:, None], axis=0)
    for k in range(n - 1):
        T.check(d[k] > 1e-3 - 1e-9, "the trajectory continues at the goal",
                step=k)
    T.check(n == N + 1 or d[-1] < 1e-3 + 1e-9, "the trajectory stops before "
            "the goal and before the horizon", steps=n - 1)
    return n


def leaves(s, x0, N, goal):
    """True/False/None (undecided: on a border)"""
    x = x0
    for k in range(N):
        if goal is not None and np.linalg.norm(x - goal) < 1e-3:
            return False
        im = s.images(x, 1e-9)
        if len(im) != len(s.images(x, -1e-9)) or len(im) > 1:
            if not im:
                return True
            if len(im) == 1 and s.images(x, -1e-9) == []:
                return None
            if len(im) > 1:
                return None
        if not im:
            return True
        x = im[0]
    return False


def goal_and_start(T, s):
    x0 = gen.inside(T, s.lo, s.up) * .95
    k = T.int(0, 2)
    goal = None
    if k == 1:
        # the fixed point of a mode (if it is one)
        i = T.int(0, s.K - 1)
        try:
            goal = np.linalg.solve(np.eye(s.nx) - s.A[i], s.g[i])
        except np.linalg.LinAlgError:
            goal = np.zeros(s.nx)
    elif k == 2:
        # a point of the trajectory
        goal = x0
        for _ in range(T.int(0, 4)):
            im = s.images(goal)
            if im:
                goal = im[0]
        goal = goal + T.array((s.nx, ), -5e-4, 5e-4) / np.sqrt(s.nx)
    T.label(("no goal", "goal: fixed point", "goal: on the way")[k])
    return x0, goal


@case(quick=250, thorough=10000, shards=4, weight=5, large=40)
def discrete_time(T):
    nx = T.int(1, 3)
    s = PWA(T, nx, T.choice((.3, .8, .95, 1.4)), False)
    code = s.build()
    x0, goal = goal_and_start(T, s)
    N = T.int(0, 8)
    if T.int(0, 3) == 0:
        N = T.int(9, 60)
    tf, f, name = stage_cost(T, nx)
    T.label(name)
    tx = gen.t(x0)
    tg = None if goal is None else gen.t(goal)
    lv = leaves(s, x0, N, goal)
    if lv is None:
        T.reject("on a border")
    call = lambda: hls.compute_discrete_time_system_cost_to_go(
        code, tx, N, tf, tg)
    if lv:
        T.label("leaves the domain")
        T.check(T.call_raises(call), "a trajectory that leaves the domain "
                "has a cost")
        return
    n = check_discrete(T, s, x0, N, f, goal, call())
    T.close(tx, x0, "the start state was changed", 0, 0)
    T.nontrivial(n >= 2)


@case(quick=150, thorough=6000, shards=4, weight=8, large=24)
def discrete_samples(T):
    nx = T.int(1, 2)
    s = PWA(T, nx, T.choice((.3, .8, .95, 1.6)), False)
    code = s.build()
    starts, goal = [], None
    for _ in range(T.span(1, 4, 9, 20)):
        x0, goal = goal_and_start(T, s)
        if T.int(0, 3) == 0:
            x0 = x0 * 1.7
        starts.append(x0)
    N = T.span(0, 6, 0, 24)
    tf, f, name = stage_cost(T, nx)
    thr = T.float(0., 1.)
    pruner = None if T.bool() else (lambda x: bool(x[0] > thr))
    lv = [leaves(s, x, N, goal) for x in starts]
    if any(v is None for v in lv):
        T.reject("on a border")
    got = hls.generate_cost_to_go_samples(
        code, [gen.t(x) for x in starts], N, tf, True,
        None if goal is None else gen.t(goal), pruner)
    T.label(f"leaving={sum(lv)}")
    exp = []
    for x, v in zip(starts, lv):
        if v:
            continue
        xs = [x]
        for k in range(N):
            if goal is not None and np.linalg.norm(xs[-1] - goal) < 1e-3:
                break
            xs.append(s.images(xs[-1])[0])
        l = np.array([f(y) for y in xs])
        tail = np.cumsum(l[::-1])[::-1]
        for y, c in zip(xs, tail):
            if pruner is None or not y[0] > thr:
                exp.append((y, c))
    if len(exp) != len(got) and goal is not None:
        for x, v in zip(starts, lv):
            if not v:
                y = x
                for k in range(N):
                    if abs(np.linalg.norm(y - goal) - 1e-3) < 1e-9:
                        T.reject("goal distance on the threshold")
                    y = s.images(y)[0]
    T.check(len(got) == len(exp), "number of samples", got=len(got),
            expected=len(exp), leaving=lv)
    for (gx, gc), (ex, ec) in zip(got, exp):
        T.close(gx, ex, "sampled state", 1e-9, 1e-9)
        T.close(gc, ec, "sampled cost", 1e-8, 1e-8)
    T.nontrivial(len(exp) >= 2)


@case(quick=40, thorough=1000, shards=4, weight=60)
def continuous_time(T):
    nx = T.int(1, 3)
    s = PWA(T, nx, T.choice((.5, 1., 2.)), True)
    code = s.build()
    x0 = gen.inside(T, s.lo, s.up) * .6
    Tend = T.float(0., 4.)
    if T.int(0, 4) == 0:
        Tend = T.float(4., 30.)
    tf, f, name = stage_cost(T, nx)
    ref = scipy.integrate.solve_ivp(
        lambda t, y: np.append(s.field(y[:nx]), f(y[:nx])), (0., Tend),
        np.append(x0, 0.), method="DOP853", rtol=1e-11, atol=1e-12,
        dense_output=True)
    # a goal: on the trajectory, the equilibrium, none
    k = T.int(0, 2)
    goal = None
    if k == 1:
        goal = ref.sol(Tend * T.float(.2, .9))[:nx] + \
            T.array((nx, ), -3e-4, 3e-4) / np.sqrt(nx)
    elif k == 2:
        i = T.int(0, s.K - 1)
        goal = -np.linalg.solve(s.A[i], s.g[i])
    T.label(("no goal", "goal on the way", "goal: equilibrium")[k])
    tt = np.linspace(0., Tend, 4001)
    Y = ref.sol(tt)[:nx] if Tend > 0 else x0[:, None]
    if np.max(np.abs(Y)) > .999:
        T.label("leaves the domain")
        if np.max(np.abs(Y)) < 1.01 or goal is not None:
            T.reject("border of the domain")
        T.check(T.call_raises(lambda:
                hls.compute_continuous_time_system_cost_to_go(
                    code, gen.t(x0), float(Tend), tf)),
                "a trajectory that leaves the domain has a cost")
        return
    stop = None
    if goal is not None:
        dist = np.linalg.norm(Y - goal[:, None], axis=0)
        if dist[0] < 1.1e-3:
            T.reject("starts at the goal")
        near = np.nonzero(dist < 1e-3)[0]
        if len(near):
            stop = near[0]
            # passes through quickly enough for an event to be seen?  The
            # integrator looks for sign changes between its own steps.
            T.label("reaches the goal")
    V, xs, ctg, sol = hls.compute_continuous_time_system_cost_to_go(
        code, gen.t(x0), float(Tend), tf,
        None if goal is None else gen.t(goal))
    te = sol.t[-1]
    if goal is not None and stop is not None:
        end_near = np.linalg.norm(to_np(xs)[:, -1] - goal)
        if te < Tend - 1e-9:
            T.check(abs(end_near - 1e-3) < 1e-4, "stops away from the goal",
                    distance=end_near)
            T.check(te > tt[max(stop - 1, 0)] - 1e-2, "stops too early",
                    got=te)
        if dist[-1] < .5e-3:
            # stays at the goal until the end: the stop cannot be missed
            T.check(te < Tend or stop >= len(tt) - 2,
                    "the goal is reached but the simulation continues",
                    reached=tt[stop], end=te)
    else:
        T.close(te, Tend, "end of the simulation", 1e-3 if goal is not None
                and dist.min() < 1.01e-3 else 1e-9)
    T.nontrivial(xs.shape[1] >= 2)
    R = ref.sol(sol.t) if Tend > 0 else \
        np.tile(np.append(x0, 0.)[:, None], (1, len(sol.t)))
    X, C = to_np(xs), to_np(ctg)
    T.check(X.shape == (nx, len(sol.t)) and C.shape == (len(sol.t), ),
            "shapes")
    T.close(X, R[:nx], "trajectory", 1e-4)
    end = R[nx, -1]
    T.close(V, end, "total cost", 2e-4, 1e-5)
    T.close(C, end - R[nx], "cost to go along the trajectory", 4e-4, 1e-5)
    if T.int(0, 3) == 0:
        got = hls.generate_cost_to_go_samples(
            code, [gen.t(x0)], float(Tend), tf, False,
            None if goal is None else gen.t(goal))
        T.check(len(got) == len(C), "number of samples")
        for i, (gx, gc) in enumerate(got):
            T.close(gx, X[:, i], "sampled state", 1e-9)
            T.close(gc, C[i], "sampled cost", 1e-9)


@case(quick=150, thorough=5000, shards=2, weight=6, large=16)
def partition(T):
    nx, nu = T.int(1, 3), T.int(1, 2)
    lo, up = gen.box(T, nx + nu)
    kb = [T.int(1, 3) for _ in range(nx + nu)]
    if np.prod(kb) > 40:
        kb = [min(k, 2) for k in kb]
    if T.large:
        kb = [min(k, 2) for k in kb]
        kb[T.int(0, nx + nu - 1)] = T.int(9, 24)
    overlap = T.choice((0., 0., 1., -1.))
    d = overlap * T.array((nx + nu, ), 0., .4)
    r = hls.partition_state_input_space(
        gen.t(lo[:nx]), gen.t(up[:nx]), gen.t(lo[nx:]), gen.t(up[nx:]),
        torch.tensor(kb[:nx], dtype=torch.int),
        torch.tensor(kb[nx:], dtype=torch.int), gen.t(d[:nx]),
        gen.t(d[nx:]))
    T.check(len(r) == 6, "six results")
    x, u, xl, xu, ul, uu = [to_np(v) for v in r]
    C, L, U = np.hstack((x, u)), np.hstack((xl, ul)), np.hstack((xu, uu))
    n = int(np.prod(kb))
    T.nontrivial(n >= 2)
    T.label(f"overlap={overlap}")
    T.check(C.shape == L.shape == U.shape == (n, nx + nu), "sizes",
            got=(C.shape, L.shape, U.shape), expected=n)
    kb = np.array(kb)
    w = (up - lo) / kb
    # every grid cell exactly once, with its centre and its (grown) borders
    idx = np.round((C - lo) / w - .5).astype(int)
    T.check(len({tuple(i) for i in idx}) == n and np.all(idx >= 0) and
            np.all(idx < kb), "each cell occurs once", got=idx)
    T.close(C, lo + (idx + .5) * w, "centre of a cell", 2e-6, 1e-6)
    T.close(L, np.clip(lo + idx * w - d * w, lo, up), "lower border", 2e-6,
            1e-6)
    T.close(U, np.clip(lo + (idx + 1) * w + d * w, lo, up), "upper border",
            2e-6, 1e-6)
    T.check(np.all(L >= lo - 1e-12) and np.all(U <= up + 1e-12),
            "a cell leaves the box")
    if overlap >= 0:
        pts = gen.cloud(T, lo, up, 60)
        for p in pts:
            T.check(np.any(np.all((p >= L - 2e-6) & (p <= U + 2e-6), 1)),
                    "a point of the box is in no cell", point=p)
