"""cvxpy here has no GUROBI back end; route solver="GUROBI" to an installed
solver of the same class (HiGHS for MILP/LP, Clarabel otherwise)."""
import cvxpy as cp

_orig = cp.Problem.solve


def _solve(self, *args, **kwargs):
    s = kwargs.get("solver", None)
    if isinstance(s, str) and s.upper() == "GUROBI":
        kwargs = {k: v for k, v in kwargs.items()
                  if k in ("verbose", "warm_start")}
        kwargs.pop("warm_start", None)
        if self.is_mixed_integer() or self.is_lp():
            kwargs["solver"] = cp.HIGHS
        else:
            kwargs["solver"] = cp.CLARABEL
            for k in ("tol_gap_abs", "tol_gap_rel", "tol_feas"):
                kwargs[k] = 1e-10
    return _orig(self, *args, **kwargs)


def install():
    if cp.Problem.solve is not _solve:
        cp.Problem.solve = _solve
