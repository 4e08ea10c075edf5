"""Sets described by a GurobiTorchMIP program: the torch data and the solver
model, as one-sided rows, compared by LP."""
import numpy as np
import torch

import mipo
from pbt import to_np


def poly(A, lo, up, lb, ub):
    """one-sided normalized rows a.v <= b of a polyhedron"""
    out = []
    for a, l, u in zip(A, lo, up):
        if np.isfinite(u):
            out.append((a, u))
        if np.isfinite(l):
            out.append((-a, -l))
    for i in range(len(lb)):
        e = np.zeros(len(lb))
        e[i] = 1
        if ub[i] < 1e99:
            out.append((e, ub[i]))
        if lb[i] > -1e99:
            out.append((-e, -lb[i]))
    return out


def contained(T, P, Q, n, what):
    """P is a subset of Q (lists of one-sided rows)."""
    keys = set()
    for a, b in P:
        keys.add(tuple(np.round(np.append(a, b), 9) + 0.))
    A = np.array([a for a, _ in P]).reshape((len(P), n))
    b = np.array([b for _, b in P])
    lo = np.full(len(b), -np.inf)
    if mipo.lp(np.zeros(n), A, lo, b)[0] == "infeasible":
        return
    for a, c in Q:
        if tuple(np.round(np.append(a, c), 9) + 0.) in keys:
            continue
        s, o, x = mipo.lp(-a, A, lo, b)
        if s == "unbounded" or (s == "optimal" and
                                -o > c + 1e-6 * (1 + abs(c))):
            T.fail(what, row=a, rhs=c, point=x)


def same_set(T, P, Q, n, what):
    contained(T, P, Q, n, what + " (first set is larger)")
    contained(T, Q, P, n, what + " (first set is smaller)")


def torch_rows(T, prog, order):
    """one-sided rows of the torch data, in the creation order `order`"""
    n = len(order)
    Ar, Az, rhs = [to_np(v) for v in prog.get_inequality_constraints()]
    pos = {v: i for i, v in enumerate(order)}
    cr = [pos[v] for v in prog.r]
    cz = [pos[v] for v in prog.zeta]
    T.check(len(cr) + len(cz) == n and sorted(cr + cz) == list(range(n)),
            "every variable is in r or in zeta", r=cr, zeta=cz)
    for v in prog.r:
        T.check(prog.r[prog.r_indices[v]] is v, "r_indices")
    for v in prog.zeta:
        T.check(prog.zeta[prog.zeta_indices[v]] is v, "zeta_indices")
    T.check(Ar.shape == (len(rhs), len(cr)) and
            Az.shape == (len(rhs), len(cz)), "sizes of the inequality data",
            got=(Ar.shape, Az.shape, rhs.shape))
    A = np.zeros((len(rhs), n))
    A[:, cr] = Ar
    A[:, cz] = Az
    P = [(a, b) for a, b in zip(A, rhs)]
    # equalities: A_act r = b - Aeq_zeta zeta; probed with unit zeta
    z0 = torch.zeros(len(cz), dtype=prog.dtype)
    A0, b0 = [to_np(v) for v in prog.get_active_constraints(set(), z0)]
    E = np.zeros((len(b0), n))
    E[:, cr] = A0
    for j in range(len(cz)):
        z = z0.clone()
        z[j] = 1.
        A1, b1 = [to_np(v) for v in prog.get_active_constraints(set(), z)]
        T.check(np.array_equal(A0, A1), "equality rows depend on zeta")
        E[:, cz[j]] = b0 - b1
    for a, b in zip(E, b0):
        P.append((a, b))
        P.append((-a, -b))
    return P


def solver_rows(T, prog, order):
    """one-sided rows and bounds of the solver model"""
    n = len(order)
    m = prog.gurobi_model
    m.update()
    nn, lb, ub, integ, st, ix, va, rl, ru = m._arrays()
    T.check(nn == n, "number of solver variables", got=nn, expected=n)
    M = np.zeros((len(st) - 1, n))
    pos = [v.index for v in order]
    inv = {p: i for i, p in enumerate(pos)}
    for r in range(len(st) - 1):
        for k in range(st[r], st[r + 1]):
            M[r, inv[ix[k]]] += va[k]
    return poly(M, rl, ru, [lb[p] for p in pos], [ub[p] for p in pos])


def unit_rows(n, idx):
    """0 <= v_i <= 1"""
    out = []
    for i in idx:
        e = np.zeros(n)
        e[i] = 1
        out += [(e, 1.), (-e, 0.)]
    return out
