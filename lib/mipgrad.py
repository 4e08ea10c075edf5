"""Records the programs whose optimum is differentiated, and decides whether
the first-order formula is unambiguous there: with the integers fixed, the
multipliers of the active constraints solve A'l = c; the gradient in a
direction of the data is unique iff every null vector of A' is orthogonal to
the change of the active residuals."""
import contextlib

import numpy as np
import torch

import neural_network_lyapunov.gurobi_torch_mip as gtm


class Call:
    """rows A r = b with the integers fixed at z; equations first"""

    def __init__(self, mip, base=None):
        self.r = np.array([v.xn for v in mip.r], dtype=float)
        self.z = np.array([round(v.xn) for v in mip.zeta], dtype=float)
        z = torch.tensor(self.z if base is None else base.z,
                         dtype=torch.float64)
        with torch.no_grad():
            e = mip.get_active_constraints(set(), z)
            i = mip.get_active_constraints(set(range(len(mip.rhs_in))), z)
        self.neq = e[0].shape[0]
        self.A = i[0].numpy().astype(float).copy()
        self.b = i[1].numpy().astype(float).reshape(-1).copy()


@contextlib.contextmanager
def recording(out, base=None):
    cls = gtm.GurobiTorchMIP
    name = "compute_objective_from_mip_data_and_solution"
    f = getattr(cls, name, None)
    if f is None:
        yield
        return

    def wrapped(self, *a, **k):
        v = f(self, *a, **k)
        try:
            out.append(Call(self, base[len(out)] if base else None))
        except (AttributeError, IndexError, RuntimeError):
            out.append(None)
        return v
    setattr(cls, name, wrapped)
    try:
        yield
    finally:
        setattr(cls, name, f)


def ambiguous(base, plus, minus, h):
    """whether any recorded program has no unique derivative formula"""
    if not len(base) == len(plus) == len(minus):
        return True
    for b, p, m in zip(base, plus, minus):
        if b is None or p is None or m is None:
            continue
        if b.A.shape != p.A.shape or b.A.shape != m.A.shape:
            return True
        act = np.abs(b.A @ b.r - b.b) < 1e-5
        act[:b.neq] = True
        A = b.A[act]
        d = ((p.A @ b.r - p.b) - (m.A @ b.r - m.b))[act] / (2 * h)
        if not len(A):
            continue
        u, s, vt = np.linalg.svd(A.T, full_matrices=True)
        N = vt[np.sum(s > 1e-8 * max(1., s.max(initial=0.))):]
        if len(N) and np.max(np.abs(N @ d)) > 1e-5 * (1 + np.abs(d).max()):
            return True
    return False
