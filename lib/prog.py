"""A GurobiTorchMIP program (its solver model) as an oracle object: optimum of
any linear objective with chosen variables fixed."""
import numpy as np

import gurobipy
import mipo
from pbt import to_np


def undecided(T, s1, s2):
    """the same rows judged differently with two objectives: on the border of
    the solver's tolerance"""
    if "numeric" in (s1, s2) or {s1, s2} == {"optimal", "infeasible"}:
        T.reject("reference solver undecided")


class Prog:
    def __init__(self, mip, relax=False):
        self.mip = mip
        m = self.model = mip.gurobi_model
        m.update()
        self.n, lb, ub, integ, st, ix, va, rl, ru = m._arrays()
        self.lb, self.ub = np.array(lb, float), np.array(ub, float)
        self.integ = np.zeros(self.n, bool) if relax else \
            np.asarray(integ, bool)
        self.rows = (st, ix, va, rl, ru)

    def objective(self):
        """(c, c0) of the linear objective of the model"""
        e = self.model.getObjective()
        c = np.zeros(self.n)
        for k in range(e.size()):
            c[e.getVar(k).index] += e.getCoeff(k)
        return c, e.getConstant()

    def vec(self, pairs):
        c = np.zeros(self.n)
        for vs, w in pairs:
            for v, a in zip(vs, np.ravel(w)):
                c[v.index] += a
        return c

    def opt(self, c, fix=()):
        """min c.x ; fix: list of (vars, values) -> (status, value, x)"""
        lb, ub = self.lb.copy(), self.ub.copy()
        for vs, val in fix:
            for v, a in zip(vs, np.ravel(to_np(val))):
                if a < lb[v.index] - 1e-9 or a > ub[v.index] + 1e-9:
                    return "infeasible", None, None
                lb[v.index] = ub[v.index] = a
        st, ix, va, rl, ru = self.rows
        arr = (self.n, lb, ub, self.integ, st, ix, va, rl, ru)
        s, o, x = gurobipy._solve(arr, lb, ub, np.array(c, float), None,
                                  bool(np.any(self.integ)))
        S = gurobipy.GRB.Status
        if s == S.OPTIMAL:
            return "optimal", o, x
        if s in (S.INFEASIBLE, ):
            return "infeasible", None, None
        if s == S.UNBOUNDED:
            return "unbounded", None, None
        if s == S.INF_OR_UNBD:
            s2 = gurobipy._solve(arr, lb, ub, np.zeros(self.n), None,
                                 bool(np.any(self.integ)))[0]
            return ("unbounded" if s2 == S.OPTIMAL else "infeasible"), \
                None, None
        return "numeric", None, None

    def range(self, T, vs, fix, what, **info):
        """min and max of a generic direction of vs; returns (w, lo, up,
        point at the minimum, point at the maximum)"""
        w = np.resize(mipo.W, len(vs))
        c = self.vec([(vs, w)])
        s1, lo, x1 = self.opt(c, fix)
        if s1 == "infeasible":
            T.fail(what + ": nothing is admitted", **info)
        s2, up, x2 = self.opt(-c, fix)
        undecided(T, s1, s2)
        T.check(s1 == "optimal" and s2 == "optimal", what + ": status",
                got=(s1, s2), **info)
        return w, lo, -up, x1, x2

    def values(self, x, vs):
        return np.array([x[v.index] for v in vs])

    def exact(self, T, vs, fix, ref, what, tol=1e-5, **info):
        """with fix, vs can only be ref"""
        ref = np.ravel(to_np(ref))
        w, lo, up, x1, x2 = self.range(T, vs, fix, what, **info)
        v = w @ ref
        sc = tol * (1 + np.abs(ref).max(initial=0.))
        for o, x in ((lo, x1), (up, x2)):
            if abs(o - v) > sc:
                T.fail(what + ": a value other than the right one is "
                       "admitted", expected=ref, admitted=self.values(x, vs),
                       fixed=[list(np.ravel(to_np(f[1]))) for f in fix],
                       **info)
        return x1

    def covers(self, T, vs, fix, ref, what, tol=1e-5, **info):
        """(a relaxation) the value ref is not cut off"""
        ref = np.ravel(to_np(ref))
        s, _, _ = self.opt(np.zeros(self.n), list(fix))
        w, lo, up, _, _ = self.range(T, vs, fix, what, **info)
        v = w @ ref
        sc = tol * (1 + np.abs(ref).max(initial=0.))
        T.check(lo - sc <= v <= up + sc, what + ": the right value is cut "
                "off", expected=ref, range=(lo, up), **info)
