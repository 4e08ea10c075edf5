# TECHNIQUE: property-based testing (Hypothesis, model-based): random sequences of variable/constraint additions against an own list of rows; the torch copy and the solver model compared as sets by LP; recomputed costs and autograd derivatives against finite differences of independently solved optima
# NOTE: gurobipy is replaced by the stand-in in /verif/shim (HiGHS/Clarabel); its pool of solutions is an enumeration.
"""P06 Recomputed optimal cost and its gradient match the solver."""
import itertools

import gurobipy
import numpy as np
import torch

import gen
import mipo
from progset import poly, same_set, solver_rows, torch_rows, unit_rows
from pbt import case, to_np
import neural_network_lyapunov.gurobi_torch_mip as gurobi_torch_mip
import neural_network_lyapunov.utils as utils

PROPERTY = "P06"
SCALE = 4
RULE = ("mirror: rows of at least two kinds with continuous and binary "
        "variables; cost/gradient cases: the optimum is non-degenerate, so "
        "that the derivative is compared")
ASSUMPTIONS = ["gurobipy stand-in", "variables named in one call are "
               "distinct (documented)",
               "derivatives are compared where forward and backward "
               "differences of the reference agree"]

GRB = gurobipy.GRB
BR = gurobi_torch_mip.BINARYRELAX
SENSES = (GRB.LESS_EQUAL, GRB.GREATER_EQUAL, GRB.EQUAL)


class Ref:
    """own record of a program: variables in creation order; rows as
    lo <= a.v <= up; data: list of tensors (leafs) the rows are made of"""
    def __init__(self):
        self.kind = []      # "r" / "z"
        self.lb = []
        self.ub = []
        self.rows = []      # (dict var -> value, lo, up)
        self.bound_rows = True

    def matrix(self):
        n = len(self.kind)
        A = np.zeros((len(self.rows), n))
        for i, (d, _, _) in enumerate(self.rows):
            for k, v in d.items():
                A[i, k] += v
        return A, np.array([r[1] for r in self.rows]).reshape((-1, )), \
            np.array([r[2] for r in self.rows]).reshape((-1, ))


@case(quick=150, thorough=6000, shards=4, weight=12, large=16)
def mirror(T):
    prog = T.choice((gurobi_torch_mip.GurobiTorchMILP,
                     gurobi_torch_mip.GurobiTorchMIQP))(gen.DT)
    ref = Ref()
    order = []
    kinds = set()
    relaxed = False
    for step in range(T.span(2, 7, 13, 24)):
        op = T.int(0, 3)
        if op == 0 or not order:
            n = T.span(1, 3, 1, 8)
            vt = T.choice((GRB.CONTINUOUS, GRB.CONTINUOUS, GRB.BINARY, BR))
            lb, ub = np.zeros(n), np.full(n, np.inf)
            kw = {}
            if vt == GRB.CONTINUOUS:
                m = T.int(0, 4)
                if m == 4:
                    # fixed
                    l0 = T.choice((0., 0., T.float(-2., 2.)))
                    lb, ub = np.full(n, l0), np.full(n, l0)
                    kw = T.choice((dict(lb=l0, ub=l0),
                                   dict(lb=gen.t(lb), ub=gen.t(ub))))
                elif m == 1:
                    l0, u0 = T.float(-3., 0., (-3., 0.)), T.float(0., 3.)
                    lb, ub = np.full(n, l0), np.full(n, u0)
                    kw = dict(lb=l0, ub=u0)
                elif m == 2:
                    kw = dict(lb=-GRB.INFINITY)
                    lb = np.full(n, -np.inf)
                elif m == 3:
                    lb = T.array((n, ), -2., 1.)
                    ub = lb + T.array((n, ), 0., 2., coarse=True)
                    for i in range(n):
                        k = T.int(0, 5)
                        if k == 0:
                            lb[i] = -np.inf
                        elif k == 1:
                            ub[i] = np.inf
                        elif k == 2:
                            lb[i] = lb[i] * T.int(0, 1)
                            ub[i] = lb[i]
                    kw = dict(lb=gen.t(lb), ub=gen.t(ub))
            else:
                lb, ub = np.zeros(n), np.ones(n)
                if T.bool() and vt == BR:
                    kw = dict(lb=-1., ub=2.)
                elif T.int(0, 3) == 0:
                    # some of them are fixed (or, relaxed, held in a part
                    # of [0, 1])
                    for i in range(n):
                        lb[i], ub[i] = T.choice(
                            ((0., 1.), (0., 0.), (1., 1.)) if
                            vt == GRB.BINARY else
                            ((0., 1.), (0., 0.), (1., 1.), (.25, 1.),
                             (0., .75)))
                    kw = dict(lb=gen.t(lb), ub=gen.t(ub))
                    T.label("narrow")
                else:
                    kw = T.choice((dict(lb=0., ub=1.), dict(lb=0, ub=1)))
            vs = prog.addVars(n, vtype=vt, name=f"v{step}", **kw)
            T.check(isinstance(vs, list) and len(vs) == n,
                    "addVars returns the new variables")
            order.extend(vs)
            ref.kind.extend(["r" if vt == GRB.CONTINUOUS else "z"] * n)
            ref.lb.extend(lb)
            ref.ub.extend(ub)
            kinds.add(vt)
            relaxed = relaxed or vt == BR
        elif op in (1, 2):
            k = T.int(1, len(order))
            perm = list(range(len(order)))
            if len(perm) > 10:
                T.rng().shuffle(perm)
            for i in range(len(perm) - 1, 0, -1) if len(perm) <= 10 else ():
                j = T.int(0, i)
                perm[i], perm[j] = perm[j], perm[i]
            sel = perm[:k]
            cut = T.int(0, k)
            groups = [g for g in (sel[:cut], sel[cut:]) if g]
            sense = T.choice(SENSES)
            m = 1 if op == 1 else T.span(1, 3, 1, 14)
            A = [T.array((m, len(g)), -2., 2.) for g in groups]
            b = T.array((m, ), -2., 4.)
            for r in range(m):
                d = {}
                for g, a in zip(groups, A):
                    for j, v in enumerate(g):
                        d[v] = a[r, j]
                ref.rows.append(
                    (d, -np.inf if sense == GRB.LESS_EQUAL else b[r],
                     np.inf if sense == GRB.GREATER_EQUAL else b[r]))
            vv = [[order[i] for i in g] for g in groups]
            kinds.add((op, sense))
            if op == 1:
                rhs = T.choice((lambda: float(b[0]), lambda: gen.t(b[0])))()
                prog.addLConstr([gen.t(a[0]) for a in A], vv, sense, rhs)
            else:
                prog.addMConstr([gen.t(a) for a in A], vv, sense, gen.t(b))
        else:
            if T.int(0, 3) == 0 and relaxed:
                prog.remove_binary_relaxation()
                relaxed = False
    prog.gurobi_model.update()
    T.nontrivial(len([k for k in kinds if isinstance(k, tuple)]) >= 1 and
                 "r" in ref.kind and "z" in ref.kind)
    T.label(*[str(k) for k in kinds])
    n = len(order)
    A, lo, up = ref.matrix()
    zb = unit_rows(n, [i for i, k in enumerate(ref.kind) if k == "z"])
    R = poly(A, lo, up, ref.lb, ref.ub) + zb
    free = [(0., 1.) if k == "z" else b for k, b in
            zip(ref.kind, zip(ref.lb, ref.ub))]
    same_set(T, torch_rows(T, prog, order) + zb,
             poly(A, lo, up, [b[0] for b in free], [b[1] for b in free]) +
             zb, n, "torch data and the constraints that were added differ")
    same_set(T, solver_rows(T, prog, order), R, n,
             "solver model and the constraints that were added differ")
    for v, k in zip(order, ref.kind):
        if k == "r":
            T.check(v.vtype == GRB.CONTINUOUS, "type of a variable")
    # order of the variables: continuous ones in creation order
    T.check(all((v.vtype == GRB.BINARY or relaxed) for v in prog.zeta),
            "binary variables are binary after the relaxation is removed")


# -- programs with an optimum -----------------------------------------

class Data:
    """A bounded feasible mixed-integer program as numpy blocks.  groups of
    rows: (A, b, sense).  All entries are differentiable data."""
    def __init__(self, T, nr, nz, quad=False, maxrows=4, bounded_rows=False):
        self.nr, self.nz = nr, nz
        self.lb = -T.array((nr, ), .25, 2., coarse=False)
        self.ub = T.array((nr, ), .25, 2., coarse=False)
        if nr > 1 and T.int(0, 4) == 0:
            # a variable that is fixed: one equality, not two inequalities
            i = T.int(0, nr - 1)
            self.lb[i] = self.ub[i] = T.choice((0., self.lb[i]))
            T.label("fixed")
        coarse = T.int(0, 5) == 0
        x0 = self.lb + (self.ub - self.lb) * T.array((nr, ), .2, .8,
                                                     coarse=False)
        z0 = np.array([T.int(0, 1) for _ in range(nz)], dtype=float)
        v0 = np.concatenate((x0, z0))
        self.groups = []
        for _ in range(T.int(1, 2)):
            m = T.int(1, maxrows // 2)
            A = T.array((m, nr + nz), -2., 2., coarse)
            sense = T.choice((GRB.LESS_EQUAL, GRB.GREATER_EQUAL))
            s = T.array((m, ), .05, 1.5, coarse=False)
            b = A @ v0 + (s if sense == GRB.LESS_EQUAL else -s)
            self.groups.append([A, b, sense])
        if nr >= 2 and T.int(0, 2) == 0:
            A = T.array((1, nr + nz), -2., 2., coarse)
            self.groups.append([A, A @ v0, GRB.EQUAL])
        self.cr = T.array((nr, ), -2., 2., coarse)
        self.cz = T.array((nz, ), -1., 1., coarse)
        self.c0 = T.float(-2., 2.)
        self.sense = T.choice((GRB.MINIMIZE, GRB.MAXIMIZE))
        self.Qr = np.zeros((nr, nr))
        self.Qz = np.zeros((nz, nz))
        self.Qrz = np.zeros((nr, nz))
        if quad:
            L = T.array((nr, nr), -1., 1., coarse=False)
            Q = L @ L.T + np.eye(nr) * T.float(.1, 1.)
            if T.bool():
                K = T.array((nr, nr), -1., 1., coarse=False)
                Q = Q + K - K.T
                T.label("asymmetric")
            self.Qr = Q if self.sense == GRB.MINIMIZE else -Q
            if T.bool():
                self.Qz = T.array((nz, nz), -1., 1., coarse=False)
            if T.bool():
                self.Qrz = T.array((nr, nz), -1., 1., coarse=False)
                T.label("mixed")

    FIELDS = ("lb", "ub", "cr", "cz", "c0", "Qr", "Qz", "Qrz")

    def arrays(self, quad):
        out = [(f, np.asarray(getattr(self, f), dtype=float))
               for f in self.FIELDS
               if quad or not f.startswith("Q")]
        for i, g in enumerate(self.groups):
            out += [(("A", i), g[0]), (("b", i), g[1])]
        return dict(out)

    def rows(self, d):
        """stacked lo, A, up of data d"""
        A, lo, up = [], [], []
        for i, g in enumerate(self.groups):
            a, b = d[("A", i)], d[("b", i)]
            A.append(a)
            inf = np.full(len(b), np.inf)
            lo.append(-inf if g[2] == GRB.LESS_EQUAL else b)
            up.append(inf if g[2] == GRB.GREATER_EQUAL else b)
        return np.vstack(A), np.concatenate(lo), np.concatenate(up)

    def milp(self, d, fix=None, integ=True):
        """(status, optimal cost, x)"""
        s = 1. if self.sense == GRB.MINIMIZE else -1.
        A, lo, up = self.rows(d)
        zl, zu = (np.zeros(self.nz), np.ones(self.nz)) if fix is None else \
            (fix, fix)
        st, o, x = mipo.solve(
            s * np.concatenate((d["cr"], d["cz"])), A, lo, up,
            np.concatenate((d["lb"], zl)), np.concatenate((d["ub"], zu)),
            np.concatenate((np.zeros(self.nr),
                            np.ones(self.nz) if integ and fix is None else
                            np.zeros(self.nz))))
        return st, None if o is None else s * o + float(d["c0"]), x

    def tensors(self, quad):
        t = {k: torch.tensor(v, dtype=gen.DT, requires_grad=True)
             for k, v in self.arrays(quad).items()}
        return t

    def build(self, T, cls, t, binary=GRB.BINARY):
        p = cls(gen.DT)
        r = p.addVars(self.nr, lb=t["lb"], ub=t["ub"], vtype=GRB.CONTINUOUS)
        z = p.addVars(self.nz, lb=0., ub=1., vtype=binary) if self.nz else []
        nr = self.nr
        for i, g in enumerate(self.groups):
            A, b = t[("A", i)], t[("b", i)]
            style = T.int(0, 2)
            first, second = ([A[:, :nr], A[:, nr:]], [r, z])
            if T.bool():
                first, second = first[::-1], second[::-1]
            if style == 0:
                for k in range(A.shape[0]):
                    p.addLConstr([f[k] for f in first], second, g[2], b[k])
            elif style == 1:
                p.addMConstr(first, second, g[2], b)
            else:
                p.addMConstr([A], [r + z], g[2], b)
        return p, r, z

    def shifted(self, d, D, eps):
        return {k: v + eps * D[k] for k, v in d.items()}


def direction(T, d):
    """a random direction in all the data; or in one of the blocks"""
    r = T.rng()
    D = {k: r.normal(size=v.shape) for k, v in d.items()}
    if T.int(0, 2) == 0:
        keep = T.choice(sorted(d, key=str))
        D = {k: v if k == keep else 0. * v for k, v in D.items()}
        T.label(f"d/d{keep[0] if isinstance(keep, tuple) else keep}")
    if "lb" in d:
        # a fixed variable stays fixed
        D["ub"] = np.where(d["lb"] == d["ub"], D["lb"], D["ub"])
    return D


def autograd(cost, t, D):
    keys = list(t)
    g = torch.autograd.grad(cost, [t[k] for k in keys], allow_unused=True,
                            retain_graph=True)
    return sum(float((to_np(gk) * D[k]).sum()) for k, gk in zip(keys, g)
               if gk is not None)


def central(f, eps=1e-5, tol=1e-4):
    """derivative at 0 or None where one-sided differences disagree"""
    f0, fp, fm = f(0.), f(eps), f(-eps)
    if f0 is None or fp is None or fm is None:
        return None
    a, b = (fp - f0) / eps, (f0 - fm) / eps
    if abs(a - b) > tol * (1 + abs(a)):
        return None
    return (fp - fm) / (2 * eps)


@case(quick=250, thorough=10000, shards=4, weight=10, large=20)
def milp_cost(T):
    D = Data(T, T.span(1, 4, 9, 14), T.span(0, 3, 4, 6),
             maxrows=T.span(4, 4, 4, 24))
    d = D.arrays(False)
    t = D.tensors(False)
    p, r, z = D.build(T, gurobi_torch_mip.GurobiTorchMILP, t)
    order = [0, 1] if T.bool() else [1, 0]
    co, va = [t["cr"], t["cz"]], [r, z]
    p.setObjective([co[i] for i in order], [va[i] for i in order],
                   constant=t["c0"], sense=D.sense)
    k = T.span(1, 4, 5, 14)
    p.gurobi_model.setParam(GRB.Param.PoolSearchMode, 2)
    p.gurobi_model.setParam(GRB.Param.PoolSolutions, k)
    p.gurobi_model.optimize()
    st, opt, x = D.milp(d)
    if st == "infeasible":
        # rounding at an equality of binaries; cannot happen otherwise
        T.reject("infeasible")
    T.check(p.gurobi_model.status == GRB.Status.OPTIMAL and st == "optimal",
            "status", got=p.gurobi_model.status, expected=st)
    # the optimum
    T.close(p.gurobi_model.ObjVal, opt, "optimal cost of the model", 1e-6,
            1e-6)
    for s in range(p.gurobi_model.SolCount):
        act, zs = p.get_active_constraint_indices_and_binary_val(s)
        A_act, b_act = p.get_active_constraints(act, zs)
        p.gurobi_model.setParam(GRB.Param.SolutionNumber, s)
        rs = np.array([v.xn for v in p.r])
        T.close(to_np(A_act) @ rs, b_act, "active constraints do not hold "
                "with equality at the solution", 1e-5, solution=s)
        T.close(zs, np.round([v.xn for v in p.zeta]), "binary values", 0, 0)
        # all constraints with equality at the solution are active
        Ar, Az, rhs = [to_np(v) for v in p.get_inequality_constraints()]
        slack = rhs - Ar @ rs - Az @ to_np(zs)
        T.check(act == set(np.nonzero(np.abs(slack) < 1e-6)[0]) or
                np.any((np.abs(slack) > 1e-8) & (np.abs(slack) < 1e-5)),
                "set of active constraints", got=act, slack=slack)
        val = p.gurobi_model.PoolObjVal
        st, ref, _ = D.milp(d, fix=to_np(zs))
        T.check(st == "optimal", "reference: " + st)
        T.close(val, ref, "cost of a solution", 1e-6, 1e-6)
        penalty = T.choice((0., 1e-8, 1e-10))
        got = p.compute_objective_from_mip_data_and_solution(
            solution_number=s, penalty=penalty)
        T.check(got.shape == (), "the cost is a scalar")
        Aa = to_np(A_act)
        good = Aa.shape[0] >= D.nr and \
            np.linalg.cond(Aa.T @ Aa) < 1e6
        # the penalty moves the cost by at most sqrt(penalty) |dual| |x| / 2
        dual = np.linalg.lstsq(Aa.T, d["cr"])[0] if len(Aa) else np.zeros(1)
        T.close(got, ref, "recomputed cost", (1e-4 if good else 1e-3) +
                penalty**.5 * np.linalg.norm(dual) * np.linalg.norm(rs),
                1e-6, solution=s)
        if s == 0:
            continue
        # derivative of the cost with the binaries fixed at the solution
        dr = direction(T, d)
        num = central(lambda e: D.milp(D.shifted(d, dr, e),
                                       fix=to_np(zs))[1])
        if num is not None and good:
            T.label("suboptimal derivative")
            T.close(autograd(got, t, dr), num, "derivative of the cost of a "
                    "suboptimal solution", 1e-3, 1e-3, solution=s)
    # optimum derivative
    got = p.compute_objective_from_mip_data_and_solution()
    act, zs = p.get_active_constraint_indices_and_binary_val()
    Aa = to_np(p.get_active_constraints(act, zs)[0])
    if Aa.shape[0] < D.nr or np.linalg.cond(Aa.T @ Aa) > 1e6:
        return
    for _ in range(2):
        dr = direction(T, d)
        num = central(lambda e: D.milp(D.shifted(d, dr, e))[1])
        if num is None:
            T.label("degenerate")
            continue
        T.nontrivial()
        T.close(autograd(p.compute_objective_from_mip_data_and_solution(),
                         t, dr), num, "derivative of the recomputed cost",
                1e-3, 1e-3)
    p.gurobi_model.setParam(GRB.Param.SolutionNumber, 0)
    T.close(p.compute_objective_from_mip_data(act, zs), opt,
            "cost of the given active set", 1e-4, 1e-4)


def qp_enum(D, d, z):
    """min of the convex QP at fixed binaries, by enumeration of active sets:
    (cost, r, smallest multiplier of an active row, smallest slack of an
    inactive row), cost in the program's own sense; None: infeasible."""
    s = 1. if D.sense == GRB.MINIMIZE else -1.
    nr = D.nr
    H = s * (d["Qr"] + d["Qr"].T)
    g = s * (d["cr"] + d["Qrz"] @ z)
    A, lo, up = D.rows(d)
    rz = A[:, nr:] @ z
    ineq, eq = [], []
    for a, l, u, k in zip(A[:, :nr], lo, up, rz):
        if l == u:
            eq.append((a, u - k))
        elif np.isfinite(u):
            ineq.append((a, u - k))
        else:
            ineq.append((-a, k - l))
    for i in range(nr):
        e = np.eye(nr)[i]
        ineq += [(e, d["ub"][i]), (-e, -d["lb"][i])]
    best = None
    for k in range(0, nr - len(eq) + 1):
        for S in itertools.combinations(range(len(ineq)), k):
            rows = eq + [ineq[i] for i in S]
            m = len(rows)
            K = np.zeros((nr + m, nr + m))
            K[:nr, :nr] = H
            for j, (a, _) in enumerate(rows):
                K[nr + j, :nr] = K[:nr, nr + j] = a
            rhs = np.concatenate((-g, [b for _, b in rows]))
            try:
                sol = np.linalg.solve(K, rhs)
            except np.linalg.LinAlgError:
                continue
            if np.abs(K @ sol - rhs).max() > 1e-7:
                continue
            r, lam = sol[:nr], sol[nr + len(eq):]
            sl = [b - a @ r for i, (a, b) in enumerate(ineq) if i not in S]
            if min(sl, default=1.) < -1e-9 or lam.min(initial=1.) < -1e-9:
                continue
            cost = r @ d["Qr"] @ r + z @ d["Qz"] @ z + r @ d["Qrz"] @ z + \
                d["cr"] @ r + d["cz"] @ z + float(d["c0"])
            mg = (lam.min(initial=1.), min(sl, default=1.))
            if best is None or min(mg) > min(best[2:]):
                best = (cost, r) + mg
    return best


@case(quick=120, thorough=4000, shards=4, weight=20)
def miqp_cost(T):
    D = Data(T, T.int(1, 3), T.int(0, 2), quad=True, maxrows=4)
    d = D.arrays(True)
    t = D.tensors(True)
    p, r, z = D.build(T, gurobi_torch_mip.GurobiTorchMIQP, t)
    pairs = [(t["Qr"], (r, r))]
    if D.nz:
        pairs.append((t["Qz"], (z, z)))
        pairs.append(T.choice(((t["Qrz"], (r, z)), (t["Qrz"].T, (z, r)))))
    p.setObjective([c[0] for c in pairs], [c[1] for c in pairs],
                   [t["cr"], t["cz"]], [r, z], t["c0"], D.sense)
    p.gurobi_model.optimize()
    s = 1. if D.sense == GRB.MINIMIZE else -1.

    def value(dd):
        out = []
        for zz in itertools.product((0., 1.), repeat=D.nz):
            q = qp_enum(D, dd, np.array(zz))
            if q is not None:
                out.append((s * q[0], q, np.array(zz)))
        out.sort(key=lambda a: a[0])
        return out
    ref = value(d)
    if not ref:
        T.reject("infeasible")
    T.check(p.gurobi_model.status == GRB.Status.OPTIMAL, "status")
    opt = s * ref[0][0]
    T.close(p.gurobi_model.ObjVal, opt, "optimal cost of the model", 1e-5,
            1e-5)
    smooth = (len(ref) < 2 or ref[1][0] - ref[0][0] > 1e-3) and \
        min(ref[0][1][2:]) > 1e-2
    if not smooth:
        T.reject("degenerate optimum")
    T.nontrivial()
    pen = T.choice((1e-8, 1e-7, 1e-9))
    got = p.compute_objective_from_mip_data_and_solution(
        penalty=pen, active_constraint_tolerance=T.choice((1e-5, 1e-4)))
    T.close(got, opt, "recomputed cost", 1e-4, 1e-4)
    dr = direction(T, d)

    def f(e):
        v = qp_enum(D, D.shifted(d, dr, e), ref[0][2])
        return None if v is None else v[0]
    num = central(f, 1e-5, 1e-2)
    if num is None:
        T.reject("degenerate optimum")
    T.close(autograd(got, t, dr), num, "derivative of the recomputed cost",
            2e-3, 2e-3)


@case(quick=150, thorough=5000, shards=2, weight=5, large=15)
def lp_cost(T):
    D = Data(T, T.span(1, 4, 9, 14), 0, maxrows=T.span(4, 4, 4, 24))
    D.sense = GRB.MAXIMIZE
    d = D.arrays(False)
    kind = T.choice(("feasible", "feasible", "feasible", "infeasible",
                     "unbounded"))
    T.label(kind)
    nr = D.nr

    def pieces(dd):
        A, lo, up = D.rows(dd)
        eq = lo == up
        Ai = np.vstack([A[np.isfinite(up) & ~eq], -A[np.isfinite(lo) & ~eq],
                        np.eye(nr), -np.eye(nr)])
        bi = np.concatenate((up[np.isfinite(up) & ~eq],
                             -lo[np.isfinite(lo) & ~eq], dd["ub"],
                             -dd["lb"]))
        return dict(c=dd["cr"], d=np.asarray(dd["c0"]), A_in=Ai, b_in=bi,
                    A_eq=A[eq], b_eq=up[eq])
    q = pieces(d)
    if kind == "infeasible":
        k = T.int(0, nr - 1)
        q["A_in"] = np.vstack((q["A_in"], np.eye(nr)[k]))
        q["b_in"] = np.append(q["b_in"], D.lb[k] - T.float(.01, 1.))
    elif kind == "unbounded":
        # a new direction nothing bounds
        e = np.zeros((len(q["b_in"]), 1))
        q["A_in"] = np.hstack((q["A_in"], e))
        q["A_eq"] = np.hstack((q["A_eq"], np.zeros((len(q["b_eq"]), 1))))
        q["c"] = np.append(q["c"], T.choice((-1., .5)))
    t = {k: torch.tensor(v, dtype=gen.DT, requires_grad=True)
         for k, v in q.items()}
    if kind != "feasible":
        got = utils.linear_program_cost(**t)
        T.nontrivial()
        T.check(got is None, "an infeasible or unbounded program has a cost",
                got=got)
        return

    def f(q, full=False):
        s, o, x = mipo.lp(-q["c"], np.vstack((q["A_in"], q["A_eq"])),
                          np.concatenate((np.full(len(q["b_in"]), -np.inf),
                                          q["b_eq"])),
                          np.concatenate((q["b_in"], q["b_eq"])))
        if s != "optimal":
            return (None, None) if full else None
        v = -o + float(q["d"])
        return (v, x) if full else v
    ref, x = f(q, True)
    if x is not None and T.int(0, 2) == 0:
        # a row that is close to the optimum but not active
        a = T.array((nr, ), -1, 1)
        q["A_in"] = np.vstack((q["A_in"], a))
        q["b_in"] = np.append(q["b_in"], a @ x + T.float(1e-3, 8e-3))
        t = {k: torch.tensor(v, dtype=gen.DT, requires_grad=True)
             for k, v in q.items()}
        T.label("nearly_active_row")
    if np.sum(q["b_in"] - q["A_in"] @ x < 1e-4) + len(q["b_eq"]) != nr:
        T.reject("degenerate vertex")
    got = utils.linear_program_cost(**t)
    T.check(got is not None, "a bounded feasible program "
            "has a cost")
    T.close(got, ref, "optimal cost", 1e-5, 1e-6)
    dr = direction(T, q)
    num = central(lambda e: f({k: v + e * dr[k] for k, v in q.items()}))
    if num is None:
        T.label("degenerate")
        return
    T.nontrivial()
    T.close(autograd(got, t, dr), num, "derivative of the optimal cost",
            1e-3, 1e-3)


@case(quick=120, thorough=4000, shards=2, weight=6, large=12)
def relaxation(T):
    """first the relaxation, then the mixed-integer program"""
    D = Data(T, T.span(1, 3, 9, 14), T.span(1, 4, 6, 9),
             maxrows=T.span(4, 4, 4, 24))
    d = D.arrays(False)
    t = D.tensors(False)
    p, r, z = D.build(T, gurobi_torch_mip.GurobiTorchMILP, t, binary=BR)
    p.setObjective([t["cr"], t["cz"]], [r, z], t["c0"], D.sense)
    if T.bool():
        p.gurobi_model.optimize()
        st, o, _ = D.milp(d, integ=False)
        T.check(st == "optimal" and p.gurobi_model.status ==
                GRB.Status.OPTIMAL, "relaxation: status", ref=st)
        T.close(p.gurobi_model.ObjVal, o, "optimum of the relaxation", 1e-6,
                1e-6)
    else:
        o = D.milp(d, integ=False)[1]
    st, opt, _ = D.milp(d)
    if st != "optimal":
        T.reject("infeasible")
    T.nontrivial(abs(opt - o) > 1e-4)
    p.remove_binary_relaxation()
    T.check(all(v.vtype == GRB.BINARY for v in p.zeta), "types")
    p.gurobi_model.optimize()
    T.check(p.gurobi_model.status == GRB.Status.OPTIMAL, "status")
    T.close(p.gurobi_model.ObjVal, opt, "optimum after the relaxation was "
            "removed", 1e-6, 1e-6)
    T.close(p.compute_objective_from_mip_data_and_solution(), opt,
            "recomputed cost", 1e-3, 1e-6)
