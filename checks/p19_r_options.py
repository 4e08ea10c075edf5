# TECHNIQUE: stateful property-based testing (Hypothesis): random histories of setting a matrix, setting raw variables, optimizer steps, mutations of the caller's arrays and reads against a numpy model of each parameterization; autograd against finite differences; singular value bounds
"""P19 Transformation matrix parameterizations."""
import numpy as np
import torch

import gen
from pbt import case, to_np
import neural_network_lyapunov.r_options as ro

PROPERTY = "P19"
SCALE = 4
RULE = "the history sets the matrix or the variables and takes a step or sets again"
ASSUMPTIONS = ["matrices with entries up to 3, singular values above the "
               "floor (the functions assert this)"]


def spd_R(v, m, n, eps):
    """documented: L L' + eps I on top, free below"""
    L = np.zeros((n, n))
    k = 0
    for j in range(n):
        L[j:, j] = v[k:k + n - j]
        k += n - j
    return np.vstack((L @ L.T + eps * np.eye(n), v[k:].reshape(m - n, n)))


def low_triangle(n):
    return n * (n + 1) // 2


def orth(T, n):
    r = np.random.default_rng(T.int(0, 2**16))
    q, _ = np.linalg.qr(r.normal(size=(n, n)))
    return q if T.int(0, 3) else np.eye(n)


def floor_ok(T, kind, R, n, eps, a, what):
    s = np.linalg.svd(R, compute_uv=False)
    if kind == "spd":
        top = R[:n]
        T.close(top, top.T, what + ": the top block is not symmetric", 1e-9,
                1e-9)
        T.check(np.linalg.eigvalsh(top).min() >= eps - 1e-9 *
                (1 + np.abs(R).max()), what + ": eigenvalue below the "
                "promised one", R=R, epsilon=eps)
        T.check(s.min() >= eps - 1e-9 * (1 + np.abs(R).max()), what +
                ": not of full column rank", R=R)
    if kind == "svd":
        T.check(s.min() >= a.min() - 1e-9 * (1 + np.abs(R).max()), what +
                ": singular value below the promised one", R=R, a=a)


@case(quick=900, thorough=40000, shards=4, weight=2, large=40)
def history(T):
    kind = T.choice(("spd", "svd", "free"))
    n = T.span(1, 4, 1, 9)
    m = n + T.int(0, 2)
    if kind != "spd" and T.int(0, 3) == 0:
        m, n = n, m
    k = min(m, n)
    eps, a = None, None
    size = torch.Size((m, n)) if T.bool() else (m, n)
    if kind == "spd":
        eps = T.choice((.01, .1, 1e-3, 1.))
        d = ro.SearchRwithSPDOptions(size, eps)
        nv = (low_triangle(n) + (m - n) * n, )
    elif kind == "svd":
        a = T.array((k, ), .1, .6)
        a = np.maximum(a, .1)
        d = ro.SearchRwithSVDOptions(tuple(size), a.copy())
        nv = (k, )
    else:
        d = ro.SearchRfreeOptions((m, n))
        nv = (m, n)
    T.label(kind, "tall" if m > n else "wide" if m < n else "square")
    T.check(d.fixed_R is False, "fixed_R")
    T.check(len(d.variables()) == 1 and d.variables()[0].shape == nv and
            d.variables()[0].requires_grad, "variables")
    U, V = np.eye(m), np.eye(n)

    def model(v):
        if kind == "spd":
            return spd_R(v, m, n, eps)
        if kind == "free":
            return v.copy()
        S = np.zeros((m, n))
        S[:k, :k] = np.diag(a + v**2)
        return U @ S @ V

    v = None
    held = []  # (array given by the caller, its value)
    sets = steps = 0
    ops = []
    for _ in range(T.span(2, 6, 8, 40)):
        op = T.choice(("set", "direct", "step", "scribble")) if v is not None \
            else T.choice(("set", "direct"))
        ops.append(op)
        T.note(ops=ops)
        if op == "set":
            sets += 1
            if kind == "spd":
                r = T.array((n, n), -1.5, 1.5)
                Rv = np.vstack((np.tril(r) @ np.tril(r).T +
                                (eps + T.choice((.01, .1, 1.))) * np.eye(n),
                                T.array((m - n, n), -2., 2.)))
            elif kind == "svd":
                S = np.zeros((m, n))
                sv = np.sort(a.max() + np.abs(T.array((k, ), 0., 2.)))[::-1]
                S[:k, :k] = np.diag(sv + 1e-9)
                Rv = orth(T, m) @ S @ orth(T, n)
            else:
                Rv = T.array((m, n), -2., 2.)
            given = Rv.copy()
            if kind == "spd" and T.int(0, 3) == 0:
                # the top block is symmetrized
                K = T.array((n, n), -.5, .5)
                given[:n] += K - K.T
                T.label("asymmetric")
            held.append((given, given.copy()))
            d.set_variable_value(given)
            R = to_np(d.R())
            T.close(R, Rv, "the matrix is not the one that was set", 1e-7,
                    1e-7, kind=kind)
            v = to_np(d.variables()[0]).copy()
            if kind == "svd":
                U, V = np.array(d.U), np.array(d.V)
                T.close(U @ U.T, np.eye(m), "U is not orthonormal", 1e-9, 0)
                T.close(V @ V.T, np.eye(n), "V is not orthonormal", 1e-9, 0)
        elif op == "direct":
            sets += 1
            w = T.array(nv, -1.5, 1.5)
            if T.int(0, 5) == 0:
                w = w * 0.
            given = w.copy()
            d.set_variable_value_directly(given)
            held.append((given, w))
            v = w.copy()
        elif op == "step":
            steps += 1
            old = v.copy()
            o = torch.optim.SGD(d.variables(), lr=.1)
            c = T.array((m, n), -1., 1.)
            o.zero_grad()
            (d.R() * gen.t(c)).sum().backward()
            g = to_np(d.variables()[0].grad)
            h = 1e-6
            num = np.zeros(nv)
            for i in np.ndindex(*nv):
                e = np.zeros(nv)
                e[i] = h
                num[i] = np.sum(c * (model(old + e) - model(old - e))) / \
                    (2 * h)
            T.close(g, num, "gradient of the matrix in its variables", 1e-5,
                    1e-5, kind=kind, variables=old)
            o.step()
            v = old - .1 * g
        else:
            # the caller reuses an array it gave earlier
            given, _ = held.pop(T.int(0, len(held) - 1)) if held else \
                (np.zeros(1), 0)
            given += 7.
        for given, val in held:
            T.close(given, val, "the caller's array was changed", 0, 0,
                    kind=kind, ops=ops)
        T.close(d.variables()[0], v, "the variables", 1e-12, 1e-12, ops=ops)
        R = to_np(d.R())
        T.check(R.shape == (m, n), "shape", got=R.shape)
        T.close(R, model(v), "the matrix", 1e-8, 1e-8, kind=kind, ops=ops,
                variables=v)
        T.check(d.variables()[0].requires_grad and d.variables()[0].is_leaf,
                "the variables cannot be optimized")
        floor_ok(T, kind, R, n, eps, a, kind)
    # reading and setting back
    R = to_np(d.R()).copy()
    if kind != "svd" or np.linalg.svd(R, compute_uv=False).min() >= \
            a.max() + 1e-9:
        if kind != "spd" or np.linalg.eigvalsh(R[:n] - eps *
                                               np.eye(n)).min() > 1e-7:
            d.set_variable_value(R.copy())
            T.close(d.R(), R, "setting the matrix to itself", 1e-6, 1e-6)
            T.label("set_back")
    p = d.extract_params()
    T.check(isinstance(p, dict) and tuple(p["R_size"]) == (m, n),
            "extracted parameters", got=list(p))
    if kind == "svd":
        S = np.asarray(p["R_U"]).T @ to_np(d.R()) @ np.asarray(p["R_V"]).T
        T.close(S[:k, :k] - np.diag(np.diag(S[:k, :k])), np.zeros((k, k)),
                "extracted U, V do not diagonalize the matrix", 1e-7, 0)
        T.check(np.all(np.diag(S) >= np.asarray(p["R_a"]) - 1e-7),
                "extracted a is not a bound of the singular values")
    if kind == "spd":
        e = ro.SearchRwithSPDOptions(p["R_size"], p["R_epsilon"])
        w = p["R_variables"]
        w = w[0] if isinstance(w, (list, tuple)) else w
        e.set_variable_value_directly(to_np(w).copy())
        T.close(e.R(), d.R(), "extracted parameters give another matrix",
                1e-12, 1e-12)
    T.check(str((m, n)) in str(d) or str(torch.Size((m, n))) in str(d) or
            len(str(d)) > 0, "str")
    T.nontrivial(sets + steps >= 2)


@case(quick=60, thorough=2000, shards=1, weight=1)
def fixed(T):
    m, n = T.int(1, 4), T.int(1, 4)
    R = T.array((m, n), -2., 2.)
    Rt = gen.t(R)
    d = ro.FixedROptions(Rt)
    T.check(d.fixed_R is True and d.variables() == [], "fixed options")
    for _ in range(2):
        T.close(d.R(), R, "the fixed matrix", 0, 0)
        T.check(not d.R().requires_grad, "the fixed matrix has a gradient")
        str(d)
        T.check(d.extract_params() == {}, "parameters of a fixed matrix")
    T.nontrivial(m * n > 1)
