"""Oracle side of mixed-integer encodings: the set described by a
MixedIntegerConstraintsReturn is examined directly from its tensors (never
through GurobiTorchMIP), by solving small MILPs."""
import numpy as np
import gurobipy
from pbt import to_np

_S = gurobipy.GRB.Status
INF = np.inf


def solve(c, A, lo, up, lb, ub, integ):
    """min c x, lo <= A x <= up, lb <= x <= ub. -> (status, obj, x)"""
    A = np.asarray(A, dtype=float)
    n = len(c)
    m = A.shape[0]
    lb = np.array(lb, dtype=float)
    ub = np.array(ub, dtype=float)
    if np.any(lb > ub + 1e-9):
        return "infeasible", None, None
    start = [0]
    idx = []
    val = []
    for r in range(m):
        nz = np.nonzero(A[r])[0]
        idx.append(nz)
        val.append(A[r, nz])
        start.append(start[-1] + len(nz))
    arr = (n, lb, ub, np.asarray(integ, dtype=bool),
           np.array(start, dtype=np.int32),
           np.concatenate(idx).astype(np.int32) if m else
           np.zeros(0, dtype=np.int32),
           np.concatenate(val) if m else np.zeros(0), np.array(
               lo, dtype=float), np.array(up, dtype=float))
    s, o, x = gurobipy._solve(arr, lb, ub, np.array(c, dtype=float), None,
                              bool(np.any(integ)))
    if s == _S.OPTIMAL:
        return "optimal", o, x
    if s == _S.INFEASIBLE:
        return "infeasible", None, None
    if s == _S.UNBOUNDED:
        return "unbounded", None, None
    if s == _S.INF_OR_UNBD:
        s2, _, _ = gurobipy._solve(arr, lb, ub, np.zeros(n), None,
                                   bool(np.any(integ)))
        return ("unbounded" if s2 == _S.OPTIMAL else "infeasible"), None, None
    return "numeric", None, None


def lp(c, A, lo, up, lb=None, ub=None):
    n = len(c)
    return solve(c, A, lo, up, np.full(n, -INF) if lb is None else lb,
                 np.full(n, INF) if ub is None else ub, np.zeros(n))


_NAMES = ("Aout_input", "Aout_slack", "Aout_binary", "Cout", "Ain_input",
          "Ain_slack", "Ain_binary", "rhs_in", "Aeq_input", "Aeq_slack",
          "Aeq_binary", "rhs_eq", "input_lo", "input_up", "slack_lo",
          "slack_up", "binary_lo", "binary_up")


def snapshot(c):
    """Numpy copy of all terms (None kept)."""
    return {k: None if getattr(c, k, None) is None else
            to_np(getattr(c, k)).copy() for k in _NAMES}


def same(T, a, b, what):
    for k in _NAMES:
        if (a[k] is None) != (b[k] is None):
            T.fail(f"{what}: {k} present/absent changed")
        if a[k] is not None:
            T.check(a[k].shape == b[k].shape and np.array_equal(a[k], b[k]),
                    f"{what}: {k} changed", before=a[k], after=b[k])


class Set:
    """{(input, slack, binary)}: the rows and bounds; outputs are affine."""
    def __init__(self, c, n_in=None, bounds=True):
        s = c if isinstance(c, dict) else snapshot(c)

        def width(*names):
            for k in names:
                if s[k] is not None:
                    return s[k].shape[-1]
            return 0
        self.ni = n_in if n_in is not None else width(
            "Ain_input", "Aeq_input", "Aout_input", "input_lo", "input_up")
        self.ns = width("Ain_slack", "Aeq_slack", "Aout_slack", "slack_lo",
                        "slack_up")
        self.nb = width("Ain_binary", "Aeq_binary", "Aout_binary",
                        "binary_lo", "binary_up")
        self.n = self.ni + self.ns + self.nb

        def rows(kind, m):
            out = []
            for part, w in (("input", self.ni), ("slack", self.ns),
                            ("binary", self.nb)):
                a = s[f"{kind}_{part}"]
                out.append(np.zeros((m, w)) if a is None else
                           a.reshape((m, w)))
            return np.hstack(out)
        rin = np.zeros(0) if s["rhs_in"] is None else \
            s["rhs_in"].reshape((-1, ))
        req = np.zeros(0) if s["rhs_eq"] is None else \
            s["rhs_eq"].reshape((-1, ))
        self.A = np.vstack((rows("Ain", len(rin)), rows("Aeq", len(req))))
        self.up = np.concatenate((rin, req))
        self.lo = np.concatenate((np.full(len(rin), -INF), req))
        no = 0
        for k in ("Aout_input", "Aout_slack", "Aout_binary", "Cout"):
            if s[k] is not None:
                no = s[k].shape[0] if s[k].ndim else 1
                break
        self.no = no
        self.C = rows("Aout", no)
        self.c0 = np.zeros(no) if s["Cout"] is None else \
            s["Cout"].reshape((-1, ))
        self.lb = np.concatenate((np.full(self.ni, -INF),
                                  np.full(self.ns, -INF), np.zeros(self.nb)))
        self.ub = np.concatenate((np.full(self.ni, INF),
                                  np.full(self.ns, INF), np.ones(self.nb)))
        if bounds:
            o = 0
            for part, w in (("input", self.ni), ("slack", self.ns),
                            ("binary", self.nb)):
                if s[part + "_lo"] is not None:
                    self.lb[o:o + w] = np.maximum(self.lb[o:o + w],
                                                  s[part + "_lo"])
                if s[part + "_up"] is not None:
                    self.ub[o:o + w] = np.minimum(self.ub[o:o + w],
                                                  s[part + "_up"])
                o += w
        self.integ = np.zeros(self.n, dtype=bool)
        self.integ[self.ni + self.ns:] = True

    def add_rows(self, A, lo, up):
        self.A = np.vstack((self.A, A))
        self.lo = np.concatenate((self.lo, lo))
        self.up = np.concatenate((self.up, up))

    def opt(self, c, x=None, fix=None, relax=False):
        """min c.(x, s, b) with input x and the entries fix fixed."""
        lb, ub = self.lb.copy(), self.ub.copy()
        if x is not None:
            x = np.asarray(x, dtype=float)
            if np.any(x < lb[:self.ni] - 1e-9) or \
                    np.any(x > ub[:self.ni] + 1e-9):
                return "infeasible", None, None
            lb[:self.ni] = ub[:self.ni] = x
        for i, v in (fix or {}).items():
            lb[i] = max(lb[i], v)
            ub[i] = min(ub[i], v)
        return solve(c, self.A, self.lo, self.up, lb, ub,
                     np.zeros(self.n) if relax else self.integ)

    def feasible(self, x=None, fix=None):
        return self.opt(np.zeros(self.n), x, fix)[0] != "infeasible"

    def admits(self, x, s, b, tol=1e-7):
        z = np.concatenate((np.ravel(x), np.ravel(s), np.ravel(b)))
        r = self.A @ z
        return np.all(r <= self.up + tol) and np.all(r >= self.lo - tol) and \
            np.all(z >= self.lb - tol) and np.all(z <= self.ub + tol)

    def out(self, z):
        return self.C @ z + self.c0


W = np.array([1., -.731, .617, -1.123, .459, .877, -.557, 1.31, -.683, .941,
              .823, -.769, 1.07, -.911, .593, .701])


def exact(T, st, x, y, what, tol=1e-5, **info):
    """Exactly the output y is admitted at the input x."""
    y = np.ravel(to_np(y))
    T.check(st.no == len(y), f"{what}: number of outputs",
            got=st.no, expected=len(y))
    w = np.resize(W, st.no)
    c = w @ st.C
    k = w @ st.c0
    s1, o1, z1 = st.opt(c, x)
    if s1 == "infeasible":
        T.fail(f"{what}: no output is admitted at an input of the domain",
               x=x, y=y, **info)
    T.check(s1 == "optimal", f"{what}: solver says {s1}", x=x, **info)
    s2, o2, z2 = st.opt(-c, x)
    T.check(s2 == "optimal", f"{what}: solver says {s2}", x=x, **info)
    ref = w @ y
    sc = tol * (1 + np.abs(y).max(initial=0.))
    for o, z in ((o1 + k, z1), (-o2 + k, z2)):
        if abs(o - ref) > sc:
            T.fail(f"{what}: an output other than the value is admitted",
                   x=x, expected=y, admitted=st.out(z), **info)
    return z1


def rejects(T, st, x, what, **info):
    if st.feasible(x):
        T.fail(f"{what}: admits an input outside the domain", x=x, **info)
