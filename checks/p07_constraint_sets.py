# TECHNIQUE: property-based testing (Hypothesis, stateful/model-based): random histories of clone, affine substitution and concatenation on random constraint sets against a dense reference model, all objects re-compared after every step; sets added to a program compared with the reference by LP
# NOTE: gurobipy is replaced by the stand-in in /verif/shim.
"""P07 Constraint-set transformations preserve the described set."""
import gurobipy
import numpy as np
import torch

import gen
import mipo
from pbt import case, to_np
from progset import poly, same_set, solver_rows, torch_rows, unit_rows
import neural_network_lyapunov.gurobi_torch_mip as gurobi_torch_mip

PROPERTY = "P07"
SCALE = 6
RULE = ("histories with at least one substitution or concatenation of sets "
        "with different subsets of present terms; added sets with at least "
        "two kinds of variables")
ASSUMPTIONS = ["gurobipy stand-in",
               "bounds on variables are repeated as rows of the set "
               "(documented)",
               "affine substitution only on sets without input bounds "
               "(documented)"]

GRB = gurobipy.GRB
BR = gurobi_torch_mip.BINARYRELAX
PARTS = ("input", "slack", "binary")


class Model:
    """dense reference of a constraint set"""
    def __init__(self, ni, ns, nb):
        self.w = dict(input=ni, slack=ns, binary=nb)
        self.A = {}         # (kind, part) -> matrix or None
        self.v = {}         # kind -> vector or None
        self.bnd = {}       # part_lo / part_up

    @property
    def n(self):
        return sum(self.w.values())

    def rows(self, kind):
        v = self.v[kind]
        for p in PARTS:
            if v is None and self.A[kind, p] is not None:
                v = np.zeros(self.A[kind, p].shape[0])
        m = 0 if v is None else len(v)
        M = np.hstack([np.zeros((m, self.w[p])) if self.A[kind, p] is None
                       else self.A[kind, p] for p in PARTS])
        return M, np.zeros(0) if v is None else v

    def bounds(self):
        lb = {p: np.full(self.w[p], -np.inf) for p in PARTS}
        ub = {p: np.full(self.w[p], np.inf) for p in PARTS}
        for p in PARTS:
            if self.bnd.get(p + "_lo") is not None:
                lb[p] = self.bnd[p + "_lo"]
            if self.bnd.get(p + "_up") is not None:
                ub[p] = self.bnd[p + "_up"]
        return (np.concatenate([lb[p] for p in PARTS]),
                np.concatenate([ub[p] for p in PARTS]))


NAME = {("in", p): "Ain_" + p for p in PARTS}
NAME.update({("eq", p): "Aeq_" + p for p in PARTS})
NAME.update({("out", p): "Aout_" + p for p in PARTS})
RHS = {"in": "rhs_in", "eq": "rhs_eq", "out": "Cout"}


def random_set(T, ni, ns, nb, bounds, need=()):
    """(code object, Model).  need: parts with at least one matrix in the
    rows."""
    m = Model(ni, ns, nb)
    c = gurobi_torch_mip.MixedIntegerConstraintsReturn()
    size = {"in": T.span(0, 3, 0, 14), "eq": T.span(0, 2, 0, 12),
            "out": T.span(0, 2, 0, 12)}
    coarse = T.int(0, 2) == 0
    for kind in ("in", "eq", "out"):
        k = size[kind]
        for p in PARTS:
            m.A[kind, p] = None
            if k and m.w[p] and T.int(0, 3):
                m.A[kind, p] = T.array((k, m.w[p]), -2., 2., coarse)
        some = [p for p in PARTS if m.A[kind, p] is not None]
        m.v[kind] = None
        if k and (kind != "out" or T.int(0, 3)) and \
                (some or kind == "out"):
            m.v[kind] = T.array((k, ), -2., 2., coarse)
    # every kind of variable occurs in some matrix, so that its number is
    # determined by the object
    for p in PARTS:
        if m.w[p] and all(m.A[k, p] is None for k in RHS):
            kinds = [k for k in ("in", "eq", "out")
                     if m.v[k] is not None or any(
                         m.A[k, q] is not None for q in PARTS)]
            kind = T.choice(kinds or ["in"])
            r = 1 if not kinds else \
                [len(x) for x in (m.v[kind], ) if x is not None] or \
                [m.A[kind, q].shape[0] for q in PARTS
                 if m.A[kind, q] is not None]
            r = r if isinstance(r, int) else r[0]
            m.A[kind, p] = T.array((r, m.w[p]), -2., 2., coarse)
            if kind != "out" and m.v[kind] is None:
                m.v[kind] = T.array((r, ), -2., 2., coarse)
    for kind in RHS:
        for p in PARTS:
            if m.A[kind, p] is not None:
                setattr(c, NAME[kind, p], gen.t(m.A[kind, p]))
        if m.v[kind] is not None:
            setattr(c, RHS[kind], gen.t(m.v[kind]))
    if bounds:
        for p in PARTS:
            if p == "input" and bounds == "no input":
                continue
            n = m.w[p]
            if not n:
                continue
            lo = np.zeros(n) if p == "binary" else T.array((n, ), -2., 0.)
            up = np.ones(n) if p == "binary" else T.array((n, ), .5, 2.)
            if p == "binary":
                for i in range(n):
                    k = T.int(0, 5)
                    if k == 0:
                        lo[i] = 1.
                    elif k == 1:
                        up[i] = 0.
            if T.bool():
                m.bnd[p + "_lo"] = lo
                setattr(c, p + "_lo", gen.t(lo))
            if T.bool():
                m.bnd[p + "_up"] = up
                setattr(c, p + "_up", gen.t(up))
    return c, m


def agree(T, c, m, what):
    """the object describes the set, the outputs and the bounds of m"""
    for kind in RHS:
        M, v = m.rows(kind)
        got = []
        rhs = getattr(c, RHS[kind])
        k = len(v)
        for p in PARTS:
            a = getattr(c, NAME[kind, p])
            if a is None:
                got.append(np.zeros((k, m.w[p])))
            else:
                got.append(to_np(a))
                T.check(got[-1].shape == (k, m.w[p]),
                        f"{what}: shape of {NAME[kind, p]}",
                        got=got[-1].shape, expected=(k, m.w[p]))
        T.close(np.hstack(got), M, f"{what}: {kind} matrices", 1e-9, 1e-9)
        T.close(np.zeros(k) if rhs is None else to_np(rhs), v,
                f"{what}: {RHS[kind]}", 1e-9, 1e-9)
    for p in PARTS:
        for s, d in (("_lo", -np.inf), ("_up", np.inf)):
            e = m.bnd.get(p + s)
            e = np.full(m.w[p], d) if e is None else e
            g = getattr(c, p + s)
            T.close(np.full(m.w[p], d) if g is None else to_np(g), e,
                    f"{what}: bound {p}{s}", 1e-12, 0)
    T.check(c.num_input() == m.w["input"] or not any(
        m.A[k, "input"] is not None for k in RHS),
        f"{what}: num_input", got=c.num_input())
    for p, f in (("slack", c.num_slack), ("binary", c.num_binary)):
        T.check(f() == m.w[p] or not any(m.A[k, p] is not None
                                         for k in RHS),
                f"{what}: number of {p} variables", got=f(),
                expected=m.w[p])
    T.check(c.num_ineq() == len(m.rows("in")[1]) and
            c.num_eq() == len(m.rows("eq")[1]) and
            c.num_out() == len(m.rows("out")[1]), f"{what}: numbers of rows",
            got=(c.num_ineq(), c.num_eq(), c.num_out()))


def copy_model(m):
    o = Model(*[m.w[p] for p in PARTS])
    o.A = {k: None if a is None else a.copy() for k, a in m.A.items()}
    o.v = {k: None if a is None else a.copy() for k, a in m.v.items()}
    o.bnd = {k: a.copy() for k, a in m.bnd.items()}
    return o


def substitute(m, A, b):
    for kind in RHS:
        a = m.A[kind, "input"]
        if a is None:
            continue
        d = a @ b
        if kind == "out":
            m.v[kind] = d if m.v[kind] is None else m.v[kind] + d
        else:
            m.v[kind] = m.v[kind] - d
        m.A[kind, "input"] = a @ A
    m.w["input"] = A.shape[1]


def concat(m1, m2, ss, sb, out):
    ns = m1.w["slack"] if ss else m1.w["slack"] + m2.w["slack"]
    nb = m1.w["binary"] if sb else m1.w["binary"] + m2.w["binary"]
    o = Model(m1.w["input"], ns, nb)
    for kind in RHS:
        M1, v1 = m1.rows(kind)
        M2, v2 = m2.rows(kind)
        if kind == "out" and not out:
            for p in PARTS:
                o.A[kind, p] = None
            o.v[kind] = None
            continue
        parts = {}
        off1 = off2 = 0
        for p in PARTS:
            a1 = M1[:, off1:off1 + m1.w[p]]
            a2 = M2[:, off2:off2 + m2.w[p]]
            off1 += m1.w[p]
            off2 += m2.w[p]
            share = p == "input" or (p == "slack" and ss) or \
                (p == "binary" and sb)
            if share:
                parts[p] = np.vstack((a1, a2))
            else:
                z = np.zeros((len(v1) + len(v2), a1.shape[1] + a2.shape[1]))
                z[:len(v1), :a1.shape[1]] = a1
                z[len(v1):, a1.shape[1]:] = a2
                parts[p] = z
            o.A[kind, p] = parts[p]
            if m1.A[kind, p] is None and m2.A[kind, p] is None:
                o.A[kind, p] = None
        o.v[kind] = np.concatenate((v1, v2))
        if m1.v[kind] is None and m2.v[kind] is None and all(
                o.A[kind, p] is None for p in PARTS):
            o.v[kind] = None
    lb1, ub1 = m1.bounds()
    lb2, ub2 = m2.bounds()
    off1 = off2 = 0
    for p in PARTS:
        share = p == "input" or (p == "slack" and ss) or \
            (p == "binary" and sb)
        s1 = slice(off1, off1 + m1.w[p])
        s2 = slice(off2, off2 + m2.w[p])
        off1 += m1.w[p]
        off2 += m2.w[p]
        if share:
            o.bnd[p + "_lo"] = np.maximum(lb1[s1], lb2[s2])
            o.bnd[p + "_up"] = np.minimum(ub1[s1], ub2[s2])
        else:
            o.bnd[p + "_lo"] = np.concatenate((lb1[s1], lb2[s2]))
            o.bnd[p + "_up"] = np.concatenate((ub1[s1], ub2[s2]))
    return o


@case(quick=300, thorough=15000, shards=4, weight=5, large=24)
def history(T):
    ni = T.span(1, 3, 1, 12)
    objs = []
    ops = set()
    for _ in range(2):
        objs.append(random_set(T, ni, T.span(0, 2, 0, 12),
                               T.span(0, 2, 0, 12), T.choice((None, "no input", "all"))))
    for step in range(T.span(1, 6, 5, 12)):
        op = T.choice(("new", "clone", "share", "transform", "transform", "concat",
                       "concat", "concat"))
        if op == "new":
            objs.append(random_set(T, ni, T.span(0, 2, 0, 12),
                                   T.span(0, 2, 0, 12), T.choice((None, "no input", "all"))))
        elif op == "clone":
            c, m = T.choice(objs)
            k = c.clone()
            agree(T, k, m, "clone")
            objs.append((k, copy_model(m)))
            # a clone shares no storage with its original
            for a in vars(k).values():
                if isinstance(a, torch.Tensor):
                    a.mul_(2.).add_(1.)
            agree(T, c, m, "the original after its clone was changed")
            for a in vars(k).values():
                if isinstance(a, torch.Tensor):
                    a.sub_(1.).div_(2.)
        elif op == "share":
            # a second object made of the same tensors (as the encoders do
            # with the weights of a network)
            c, m = T.choice(objs)
            k = gurobi_torch_mip.MixedIntegerConstraintsReturn()
            for a, v in vars(c).items():
                setattr(k, a, v)
            objs.append((k, copy_model(m)))
        elif op == "transform":
            c, m = T.choice(objs)
            if any(k.startswith("input") and np.any(np.isfinite(v))
                   for k, v in m.bnd.items()) or \
                    c.input_lo is not None or c.input_up is not None:
                continue
            if not any(m.A[k, "input"] is not None for k in RHS):
                continue
            n2 = T.choice((ni, ni, m.w["input"], T.span(1, 3, 1, 12)))
            A = T.array((m.w["input"], n2))
            b = T.array((m.w["input"], ))
            tA, tb = gen.t(A), gen.t(b)
            c.transform_input(tA, tb)
            substitute(m, A, b)
            m.bnd.pop("input_lo", None)
            m.bnd.pop("input_up", None)
            T.check(np.array_equal(to_np(tA), A) and
                    np.array_equal(to_np(tb), b), "transform_input changed "
                    "its arguments")
            ops.add(op)
        else:
            c1, m1 = T.choice(objs)
            c2, m2 = T.choice(objs)
            if m1.w["input"] != m2.w["input"] or \
                    c1.num_input() != c2.num_input():
                continue
            ss = T.bool() and m1.w["slack"] == m2.w["slack"] and \
                c1.num_slack() == c2.num_slack()
            sb = T.bool() and m1.w["binary"] == m2.w["binary"] and \
                c1.num_binary() == c2.num_binary()
            if c1.num_slack() != m1.w["slack"] or \
                    c2.num_slack() != m2.w["slack"] or \
                    c1.num_binary() != m1.w["binary"] or \
                    c2.num_binary() != m2.w["binary"]:
                continue        # only bounds left: number not determined
            out = T.bool()
            c = gurobi_torch_mip.concatenate_mixed_integer_constraints(
                c1, c2, same_slack=ss, same_binary=sb, stack_output=out)
            objs.append((c, concat(m1, m2, ss, sb, out)))
            ops.add((ss, sb, out))
            T.label(f"concat slack={'same' if ss else 'own'} "
                    f"binary={'same' if sb else 'own'}")
        for i, (c, m) in enumerate(objs):
            agree(T, c, m, f"object {i} after step {step} ({op})")
    T.nontrivial(len(ops) > 0)
    T.label(f"objects={len(objs)}")


@case(quick=300, thorough=15000, shards=4, weight=2, large=24)
def pair(T):
    """two sets over the same numbers of variables, both with bounds, once
    for every way of sharing"""
    ni, ns, nb = T.span(1, 2, 1, 12), T.span(0, 2, 0, 14), \
        T.span(0, 2, 0, 14)
    sets = [random_set(T, ni, ns, nb, T.choice(("no input", "all", "all")))
            for _ in range(2)]
    for c, m in sets:
        if (c.num_slack(), c.num_binary(), c.num_input()) != (ns, nb, ni):
            T.reject("number of variables not determined")
    (c1, m1), (c2, m2) = sets
    differ = False
    for ss in (False, True):
        for sb in (False, True):
            out = T.bool()
            c = gurobi_torch_mip.concatenate_mixed_integer_constraints(
                c1, c2, ss, sb, out)
            agree(T, c, concat(m1, m2, ss, sb, out),
                  f"same_slack={ss} same_binary={sb} stack_output={out}")
    for c, m in sets:
        agree(T, c, m, "an argument after it was concatenated")
    for k in set(m1.bnd) & set(m2.bnd):
        differ = differ or np.any(m1.bnd[k] != m2.bnd[k])
    T.nontrivial(bool(differ))
    T.label(f"slack={ns} binary={nb}")


@case(quick=200, thorough=8000, shards=4, weight=12, large=24)
def added_to_program(T):
    """one or two sets added to a program with input and output variables"""
    prog = T.choice((gurobi_torch_mip.GurobiTorchMILP,
                     gurobi_torch_mip.GurobiTorchMIQP))(gen.DT)
    ni = T.span(1, 3, 1, 12)
    c, m = random_set(T, ni, T.span(0, 2, 0, 12), T.span(0, 3, 0, 12),
                      T.choice((None, "all")))
    # the rows repeat the bounds
    lb, ub = m.bounds()
    if np.any(np.isfinite(lb)) or np.any(np.isfinite(ub)):
        A, v = m.rows("in")
        n = m.n
        R = [(np.eye(n)[i], ub[i]) for i in range(n) if np.isfinite(ub[i])]
        R += [(-np.eye(n)[i], -lb[i]) for i in range(n)
              if np.isfinite(lb[i])]
        A = np.vstack([A] + [r[0] for r in R])
        v = np.concatenate((v, [r[1] for r in R]))
        off = 0
        for p in PARTS:
            m.A["in", p] = A[:, off:off + m.w[p]] if m.w[p] else None
            off += m.w[p]
            if m.w[p]:
                setattr(c, NAME["in", p], gen.t(m.A["in", p]))
        m.v["in"] = v
        c.rhs_in = gen.t(v)
        T.label("bounds")
    ilb = T.array((ni, ), -3., -.5)
    iub = T.array((ni, ), .25, 3.)
    free = T.bool()
    if free:
        ilb, iub = np.full(ni, -np.inf), np.full(ni, np.inf)
        x = prog.addVars(ni, lb=-GRB.INFINITY)
    else:
        x = prog.addVars(ni, lb=gen.t(ilb), ub=gen.t(iub))
    order = list(x)
    no = len(m.rows("out")[1])
    y = None
    if no and T.bool():
        y = prog.addVars(no, lb=-GRB.INFINITY)
        order += y
        T.label("outputs")
    given = None
    bt = T.choice((GRB.BINARY, BR, GRB.CONTINUOUS))
    nb = m.w["binary"]
    if nb and T.int(0, 2) == 0 and bt == GRB.BINARY:
        given = prog.addVars(nb, lb=0., ub=1., vtype=bt)
        order += given
        T.label("given binaries")
    before = mipo.snapshot(c)
    s, b = prog.add_mixed_integer_linear_constraints(
        c, x, y, "s", given if given is not None else "b", "i", "e", "o",
        binary_var_type=bt)
    mipo.same(T, before, mipo.snapshot(c), "adding to a program")
    T.check(len(s) == m.w["slack"] and len(b) == nb,
            "numbers of returned variables", got=(len(s), len(b)))
    order += s
    if given is None:
        order += b
    else:
        T.check(all(u is v for u, v in zip(b, given)),
                "the given binaries are used")
    T.nontrivial(m.w["slack"] + nb > 0)
    n = len(order)
    pos = {v: i for i, v in enumerate(order)}
    idx = [pos[v] for v in list(x) + s + b]

    def wide(M):
        W = np.zeros((M.shape[0], n))
        W[:, idx] = M
        return W
    A1, v1 = m.rows("in")
    A2, v2 = m.rows("eq")
    R = poly(wide(A1), np.full(len(v1), -np.inf), v1, [], [])
    R += poly(wide(A2), v2, v2, [], [])
    if y is not None:
        A3, v3 = m.rows("out")
        W = wide(A3)
        W[range(no), [pos[v] for v in y]] -= 1.
        R += poly(W, -v3, -v3, [], [])
    xb = []
    for i in range(ni):
        e = np.zeros(n)
        e[pos[x[i]]] = 1.
        if not free:
            xb += [(e, iub[i]), (-e, -ilb[i])]
    R += xb + unit_rows(n, [pos[v] for v in b])
    same_set(T, solver_rows(T, prog, order), R, n,
             "solver model and the constraint set differ")
    same_set(T, torch_rows(T, prog, order) +
             unit_rows(n, [pos[v] for v in prog.zeta]), R, n,
             "torch data and the constraint set differ")
    for v in b:
        T.check(v.vtype == (GRB.BINARY if bt == GRB.BINARY else
                            GRB.CONTINUOUS), "type of the binaries",
                got=v.vtype)
        T.check((v in prog.zeta_indices) == (bt != GRB.CONTINUOUS),
                "relaxed binaries are kept with the binaries")
    for v in s:
        T.check(v.vtype == GRB.CONTINUOUS, "type of the slack")
    # the tight bounds reach the solver
    for v, l, u in zip(list(x) + s + (b if given is None else []),
                       lb, ub):
        T.check(v.lb >= l - 1e-12 and v.ub <= u + 1e-12,
                "bound on a variable of the solver", lb=v.lb, ub=v.ub,
                expected=(l, u))


@case(quick=60, thorough=1500, large=10)
def bounds_only(T):
    """variables that only their bounds mention are added all the same"""
    ni, ns, nb = T.span(1, 2, 1, 12), T.span(0, 3, 0, 14), \
        T.span(0, 3, 0, 14)
    c = gurobi_torch_mip.MixedIntegerConstraintsReturn()
    k = T.int(1, 2)
    A, v = T.array((k, ni), -2., 2.), T.array((k, ), -2., 2.)
    c.Ain_input, c.rhs_in = gen.t(A), gen.t(v)
    exp = {}
    for p, n in (("slack", ns), ("binary", nb)):
        lo, up = np.full(n, -np.inf), np.full(n, np.inf)
        if p == "binary":
            lo, up = np.zeros(n), np.ones(n)
        which = T.choice(("lo", "up", "both"))
        if n and which != "up":
            lo = T.array((n, ), -2., 0.) if p == "slack" else np.array(
                [float(T.bool()) for _ in range(n)])
            setattr(c, p + "_lo", gen.t(lo))
        if n and which != "lo":
            up = T.array((n, ), .5, 2.) if p == "slack" else np.array(
                [float(l or T.bool()) for l in lo])
            setattr(c, p + "_up", gen.t(up))
        exp[p] = (lo, up)
    prog = gurobi_torch_mip.GurobiTorchMILP(torch.float64)
    x = prog.addVars(ni, lb=-GRB.INFINITY)
    s, b = prog.add_mixed_integer_linear_constraints(
        c, x, None, "s", "b", "i", "e", "o",
        binary_var_type=T.choice((GRB.BINARY, BR)))
    prog.gurobi_model.update()
    T.check(len(s) == ns and len(b) == nb, "numbers of returned variables",
            got=(len(s), len(b)), expected=(ns, nb))
    for vs, p in ((s, "slack"), (b, "binary")):
        T.close(np.array([w.lb for w in vs]), exp[p][0],
                f"lower bounds of the {p} variables", 0, 0)
        T.close(np.array([w.ub for w in vs]), exp[p][1],
                f"upper bounds of the {p} variables", 0, 0)
    T.nontrivial(ns + nb > 0)
