# TECHNIQUE: property-based testing (Hypothesis): random mode polytopes and affine maps; every binary assignment of the encoding enumerated and its output range compared with the images of the modes containing the point; bounds against exact LPs
# NOTE: gurobipy is replaced by the stand-in in /verif/shim; cvxpy's GUROBI by HiGHS.
"""P08 Hybrid linear systems: constraints and bounds match the dynamics."""
import itertools

import gurobipy
import numpy as np

import cvxpatch
import gen
import mipo
from pbt import case, to_np
import neural_network_lyapunov.gurobi_torch_mip as gurobi_torch_mip
import neural_network_lyapunov.hybrid_linear_system as hls

cvxpatch.install()

PROPERTY = "P08"
RULE = ("the system has at least two modes and the point lies in a mode, on "
        "a border of modes, or off every mode by a clear margin")
ASSUMPTIONS = ["gurobipy/cvxpy-GUROBI stand-ins",
               "mode polytopes are bounded and non-empty (documented)",
               "memberships closer than 1e-7 to a border count either way"]


class Sys:
    """modes as numpy; n = nx + nu"""
    def __init__(self, T, nu, max_modes=4):
        self.nx = T.int(1, 3)
        self.nu = nu
        n = self.n = self.nx + nu
        self.lo, self.up = gen.box(T, n)
        self.style = T.choice(("grid", "grid", "poly"))
        boxes = [(self.lo, self.up)]
        k = T.int(10, 13) if T.large else T.int(1, max_modes)
        while len(boxes) < k:
            i = T.int(0, len(boxes) - 1)
            l, u = boxes.pop(i)
            j = T.int(0, n - 1)
            m = l[j] + (u[j] - l[j]) * T.choice((.5, .25, .6))
            u1, l1 = u.copy(), l.copy()
            u1[j] = l1[j] = m
            boxes += [(l, u1), (l1, u)]
        self.P, self.q, self.A, self.B, self.c = [], [], [], [], []
        coarse = T.int(0, 2) == 0
        for l, u in boxes:
            if self.style == "poly":
                # overlapping or separated
                d = (u - l) * T.float(-.2, .3)
                l, u = l - d, u + d
            P = np.vstack((np.eye(n), -np.eye(n)))
            q = np.concatenate((u, -l))
            if self.style == "poly":
                m = T.int(0, 2)
                a = T.array((m, n))
                mid = l + (u - l) * T.array((n, ), .2, .8)
                P = np.vstack((P, a))
                q = np.concatenate((q, a @ mid + T.array((m, ), .05, .5)))
            perm = np.argsort(T.array((len(q), )), kind="stable")
            self.P.append(P[perm])
            self.q.append(q[perm])
            self.A.append(T.array((self.nx, self.nx), -1.5, 1.5, coarse))
            self.B.append(T.array((self.nx, nu), -1.5, 1.5, coarse))
            self.c.append(T.array((self.nx, ), -1., 1., coarse))
            if len(self.c) > 1 and T.int(0, 5) == 0:
                # almost the map of the mode before
                self.A[-1], self.B[-1] = self.A[-2].copy(), self.B[-2].copy()
                self.c[-1] = self.c[-2] + T.choice((1e-3, -1e-5))
        self.K = len(boxes)
        self.edges = [sorted({b[0][j] for b in boxes} |
                             {b[1][j] for b in boxes}) for j in range(n)]
        # rows of a grid are unit vectors: membership is exact
        self.exact = self.style == "grid"

    def lp(self, i, w):
        """min w z over mode i"""
        s, o, _ = mipo.lp(w, self.P[i], np.full(len(self.q[i]), -np.inf),
                          self.q[i])
        return o if s == "optimal" else None

    def member(self, i, z):
        """largest violation"""
        return np.max(self.P[i] @ z - self.q[i])

    def image(self, i, z):
        return self.A[i] @ z[:self.nx] + self.B[i] @ z[self.nx:] + self.c[i]

    def surely(self, z):
        t = 0. if self.exact else -1e-7
        return [i for i in range(self.K) if self.member(i, z) <= t]

    def maybe(self, z):
        return [i for i in range(self.K) if self.member(i, z) <= 1e-7]

    def untouched(self, T):
        for g, a in self.given:
            T.close(g, a, "a matrix the caller gave was changed", 0, 0)

    def narrow(self, T):
        """bounds that meet the hull of the modes"""
        l, u = gen.box(T, self.n)
        mid = gen.inside(T, self.lo, self.up)
        l, u = np.minimum(l, mid), np.maximum(u, mid)
        if self.style == "poly":
            # a common point of the bounds and of the hull
            l, u = np.minimum(l, self.lo), np.maximum(u, self.up)
        return l, u

    def arguments(self, T):
        """arguments of mixed_integer_constraints, the bounds they mean"""
        l, u = self.narrow(T)
        lo, up = np.full(self.n, -np.inf), np.full(self.n, np.inf)
        conv = T.choice((gen.t, np.array))
        nx = self.nx
        names = [("x_lo", l[:nx], lo, 0), ("x_up", u[:nx], up, 0)]
        if self.nu:
            names += [("u_lo", l[nx:], lo, nx), ("u_up", u[nx:], up, nx)]
        kw = {}
        for name, v, dst, o in names:
            if T.int(0, 3):
                kw[name] = conv(v.copy())
                dst[o:o + len(v)] = v
        return kw, lo, up

    def constraints(self, T, code, kw):
        old = {k: to_np(v).copy() for k, v in kw.items()}
        c = code.mixed_integer_constraints(**kw)
        for k, v in kw.items():
            T.close(v, old[k], "a bound the caller gave was changed", 0, 0,
                    name=k)
        return c

    def build(self, T):
        self.given = []
        early = T.int(0, 2) == 0
        if self.nu:
            s = hls.HybridLinearSystem(self.nx, self.nu, gen.DT)
        else:
            s = hls.AutonomousHybridLinearSystem(self.nx, gen.DT)
        for i in range(self.K):
            v = (self.A, self.B, self.c, self.P, self.q) if self.nu else \
                (self.A, self.c, self.P, self.q)
            given = [gen.t(a[i]) for a in v]
            self.given += [(g, a[i]) for g, a in zip(given, v)]
            s.add_mode(*given, check_polyhedron_bounded=T.int(0, 3) == 0)
            if early and i < self.K - 1 and (i < 3 or T.int(0, 3) == 0):
                self.use(T, s, i + 1)
        return s

    def use(self, T, s, k):
        """the system is used while it only has its first k modes"""
        T.label("used before the last mode")
        z = gen.inside(T, self.lo, self.up)
        args = [gen.t(z[:self.nx])] + [gen.t(z[self.nx:])] * (self.nu > 0)
        what = T.int(0, 3)
        if what == 0:
            r = s.mixed_integer_constraints()
            T.check(r.num_binary() == k, "binaries of the first modes",
                    got=r.num_binary(), expected=k)
        elif what == 1:
            s.mode(*args)
            s.possible_dx(*args)
        elif what == 2:
            try:
                s.step_forward(*args)
            except hls.AutonomousHybridLinearSystem.StepForwardException:
                pass
        elif self.nu:
            s.x_lo_all, s.x_up_all, s.u_lo_all, s.u_up_all
        else:
            s.x_lo_all, s.x_up_all, s.dx_lower, s.dx_upper

    def point(self, T):
        k = T.int(0, 4)
        if k == 0:
            z = gen.outside(T, self.lo, self.up)
        else:
            z = gen.inside(T, self.lo, self.up)
        if k in (1, 2):
            for j in range(self.n):
                if T.bool():
                    z[j] = T.choice(self.edges[j])
                    if k == 2:
                        # close to a border
                        z[j] += T.choice((1e-4, -1e-4, 2e-6, -2e-6))
        return z


def system(T):
    s = Sys(T, T.choice((0, 0, 1, 2)))
    T.label("controlled" if s.nu else "autonomous", f"modes={s.K}", s.style)
    return s


def split(s, z):
    return gen.t(z[:s.nx]), gen.t(z[s.nx:])


@case(quick=250, thorough=10000, shards=4, weight=12, large=10)
def encoding(T):
    s = system(T)
    code = s.build(T)
    kw = {}
    lo, up = np.full(s.n, -np.inf), np.full(s.n, np.inf)
    if T.int(0, 3) == 0:
        T.label("other bounds before")
        s.constraints(T, code, s.arguments(T)[0])
    if T.int(0, 2) == 0:
        T.label("tightened")
        kw, lo, up = s.arguments(T)
    c = s.constraints(T, code, kw)
    s.untouched(T)
    st = mipo.Set(c)
    T.check(st.ni == s.n and st.no == s.nx, "sizes of the encoding",
            got=(st.ni, st.no))
    z = s.point(T)
    sure, maybe = s.surely(z), s.maybe(z)
    if np.all(z >= lo + 1e-7) and np.all(z <= up - 1e-7):
        pass
    elif np.any(z < lo - 1e-7) or np.any(z > up + 1e-7):
        sure, maybe = [], []
        T.label("outside the tighter bounds")
    else:
        sure = []
    if not maybe:
        far = min(s.member(i, z) for i in range(s.K))
        if far < 1e-5 and not (np.any(z < lo - 1e-5) or
                               np.any(z > up + 1e-5)):
            T.reject("close to a border")
    T.nontrivial(s.K > 1)
    T.label(f"modes at the point={len(maybe)}")
    images = {i: s.image(i, z) for i in maybe}
    w = np.resize(mipo.W, st.no)
    seen = set()
    base = st.ni + st.ns
    for bits in itertools.product((0., 1.), repeat=st.nb):
        fix = {base + j: v for j, v in enumerate(bits)}
        r1, o1, z1 = st.opt(w @ st.C, z, fix)
        if r1 == "infeasible":
            continue
        r2, o2, z2 = st.opt(-w @ st.C, z, fix)
        T.check(r1 == "optimal" and r2 == "optimal", "encoding: status",
                got=(r1, r2))
        y1, y2 = st.out(z1), st.out(z2)
        T.close(w @ y1, w @ y2, "several next states at one binary "
                "assignment", 1e-5, 1e-5, x=z, bits=bits)
        hit = [i for i in maybe if np.allclose(images[i], y1, 1e-5, 1e-5)]
        T.check(hit, "a next state of no mode containing the point is "
                "admitted", x=z, admitted=y1, expected=images, bits=bits)
        seen |= set(hit)
    for i in sure:
        T.check(i in seen, "the next state of a mode containing the point "
                "is not admitted", x=z, mode=i, expected=images[i])


@case(quick=60, thorough=2500, shards=2, weight=15)
def in_program(T):
    s = system(T)
    code = s.build(T)
    z = s.point(T)
    sure, maybe = s.surely(z), s.maybe(z)
    if len(sure) != len(maybe):
        T.reject("on a border")
    if not maybe and min(s.member(i, z) for i in range(s.K)) < 1e-5:
        T.reject("close to a border")
    T.nontrivial(s.K > 1)
    prog = gurobi_torch_mip.GurobiTorchMILP(gen.DT)
    G = gurobipy.GRB
    v = prog.addVars(s.n, lb=gen.t(z), ub=gen.t(z))
    y = prog.addVars(s.nx, lb=-G.INFINITY)
    if s.nu:
        code.add_dynamics_constraint(prog, v[:s.nx], y, v[s.nx:], "s", "b",
                                     binary_var_type=G.BINARY)
    else:
        code.add_dynamics_constraint(prog, v, y, "s", "b", G.BINARY)
    w = np.resize(mipo.W, s.nx)
    val = [w @ s.image(i, z) for i in sure]
    for sense, f in ((G.MINIMIZE, min), (G.MAXIMIZE, max)):
        prog.setObjective([gen.t(w)], [y], 0., sense)
        prog.gurobi_model.optimize()
        if not val:
            T.label("off the modes")
            T.check(prog.gurobi_model.status in
                    (G.Status.INFEASIBLE, G.Status.INF_OR_UNBD),
                    "a point off every mode has a next state", x=z,
                    status=prog.gurobi_model.status)
        else:
            T.check(prog.gurobi_model.status == G.Status.OPTIMAL,
                    "status", got=prog.gurobi_model.status, x=z)
            T.close(prog.gurobi_model.ObjVal, f(val), "next state in a "
                    "program", 1e-5, 1e-5, x=z)


@case(quick=300, thorough=10000, shards=2, weight=4, large=12)
def stepping(T):
    s = system(T)
    code = s.build(T)
    n = T.int(6, 20) if T.large else T.int(1, 4)
    pts = [s.point(T) for _ in range(n)]
    outs = []
    for z in pts:
        sure, maybe = s.surely(z), s.maybe(z)
        tx, tu = split(s, z)
        args = (tx, tu) if s.nu else (tx, )
        T.nontrivial(s.K > 1)
        m = code.mode(*args)
        if m is None:
            T.check(not sure, "a point of a mode has no mode", x=z)
        else:
            T.check(m in maybe, "mode() returns a mode the point is not in",
                    x=z, got=m, expected=maybe)
            T.check(all(m <= i for i in sure), "not the first mode", got=m,
                    expected=sure)
        # step
        try:
            r = code.step_forward(*args)
        except hls.AutonomousHybridLinearSystem.StepForwardException:
            T.check(not s.nu, "exception of the autonomous system")
            r = None
        if s.nu:
            T.check(len(r) == 2, "next state and mode")
            T.check(r[1] == m, "mode of the step", got=r[1], expected=m)
            r = r[0]
        T.check((r is None) == (m is None), "a step is returned exactly in "
                "the modes", x=z, got=r)
        if r is not None:
            T.close(r, s.image(m, z), "next state", 1e-9, 1e-9, x=z)
            if not s.nu:
                T.close(code.step_forward(tx, mode_x=m), s.image(m, z),
                        "next state of a given mode", 1e-9, 1e-9)
                k = T.int(0, s.K - 1)
                T.close(code.step_forward(tx, mode_x=k), s.image(k, z),
                        "next state of a given mode", 1e-9, 1e-9)
        outs.append(r)
        dx = [to_np(v) for v in code.possible_dx(*args)]
        T.check(len(sure) <= len(dx) <= len(maybe), "number of possible "
                "next states", x=z, got=len(dx))
        for i in sure:
            T.check(any(np.allclose(d, s.image(i, z), 1e-9, 1e-9)
                        for d in dx), "a possible next state is missing",
                    x=z)
        for d in dx:
            T.check(any(np.allclose(d, s.image(i, z), 1e-9, 1e-9)
                        for i in maybe), "an impossible next state", x=z)
        T.close(np.concatenate([to_np(a) for a in args]), z,
                "the point given was changed", 0, 0)
    s.untouched(T)
    Z = np.array(pts)
    X, U = gen.t(Z[:, :s.nx]), gen.t(Z[:, s.nx:])
    if all(o is not None for o in outs):
        T.label("batch")
        r = code.step_forward(X, U) if s.nu else code.step_forward(X)
        if s.nu:
            r = r[0]
        T.close(r, np.array([to_np(o) for o in outs]), "batch of steps",
                1e-12, 1e-12)
    else:
        T.check(T.call_raises(lambda: code.step_forward(X, U) if s.nu else
                              code.step_forward(X)),
                "a batch with a point off every mode")


@case(quick=100, thorough=3000, shards=4, weight=12)
def bounds(T):
    s = system(T)
    code = s.build(T)
    if T.int(0, 2) == 0:
        T.label("used before")
        s.constraints(T, code, s.arguments(T)[0])
    s.untouched(T)
    T.nontrivial(s.K > 1)
    n = s.n
    E = np.eye(n)
    lo = np.array([[s.lp(i, E[j]) for j in range(n)] for i in range(s.K)])
    up = np.array([[-s.lp(i, -E[j]) for j in range(n)] for i in range(s.K)])
    T.check(code.num_modes == s.K, "number of modes")
    for i in range(s.K):
        T.close(code.x_lo[i], lo[i][:s.nx], "state bound of a mode", 1e-6)
        T.close(code.x_up[i], up[i][:s.nx], "state bound of a mode", 1e-6)
        if s.nu:
            T.close(code.u_lo[i], lo[i][s.nx:], "input bound of a mode",
                    1e-6)
            T.close(code.u_up[i], up[i][s.nx:], "input bound of a mode",
                    1e-6)
    T.close(code.x_lo_all, lo.min(0)[:s.nx], "state bound", 1e-6)
    T.close(code.x_up_all, up.max(0)[:s.nx], "state bound", 1e-6)
    if s.nu:
        T.close(code.u_lo_all, lo.min(0)[s.nx:], "input bound", 1e-6)
        T.close(code.u_up_all, up.max(0)[s.nx:], "input bound", 1e-6)
        return
    dl = np.full(s.nx, np.inf)
    du = -dl
    for i in range(s.K):
        l, u = code.mode_derivative_bounds(i)
        rl = np.array([s.lp(i, a) for a in s.A[i]])
        ru = np.array([-s.lp(i, -a) for a in s.A[i]])
        T.close(l, rl, "lower bound of A x in a mode", 1e-5, 1e-5, mode=i)
        T.close(u, ru, "upper bound of A x in a mode", 1e-5, 1e-5, mode=i)
        dl = np.minimum(dl, rl + s.c[i])
        du = np.maximum(du, ru + s.c[i])
    T.close(code.dx_lower, dl, "lower bound of the derivative", 1e-5, 1e-5)
    T.close(code.dx_upper, du, "upper bound of the derivative", 1e-5, 1e-5)
