"""A stand-in for the part of the gurobipy 10 API that neural_network_lyapunov
uses, backed by HiGHS (LP/MILP) and Clarabel (convex QP; MIQP by branch and
bound on top of it).

The real gurobipy cannot be installed here (no build for this interpreter, no
licence, no network).  The code under test only talks to the documented API
below, so the stand-in lets the real, unmodified modules of /repo run.

Fidelity notes
 * Tolerances are tighter than Gurobi's (1e-9 instead of 1e-6), the MIP gap is
   0 and every MILP solution is polished (binaries rounded, LP re-solved).
 * PoolSearchMode 0 keeps only the best solution; with mode 1/2 the
   PoolSolutions best solutions (distinct binary assignments) are enumerated.
 * A callback is called with where=MIP then where=MIPNODE, first for the
   warm-start solution (if there is one) and then for the optimum, so
   Model.terminate() is honoured.
"""
import math
import numbers
import numpy as np
import highspy
import scipy.sparse as sp

__version__ = "10.0.0-standin"


class GurobiError(Exception):
    def __init__(self, *args):
        super().__init__(*args)
        self.errno = 10003
        self.message = args[0] if args else ""


class _NS:
    pass


class _Status:
    LOADED = 1
    OPTIMAL = 2
    INFEASIBLE = 3
    INF_OR_UNBD = 4
    UNBOUNDED = 5
    CUTOFF = 6
    ITERATION_LIMIT = 7
    NODE_LIMIT = 8
    TIME_LIMIT = 9
    SOLUTION_LIMIT = 10
    INTERRUPTED = 11
    NUMERIC = 12
    SUBOPTIMAL = 13


_PARAM_DEFAULTS = {
    "OutputFlag": 1, "LogToConsole": 1, "DualReductions": 1,
    "SolutionNumber": 0, "PoolSolutions": 10, "PoolSearchMode": 0,
    "SolutionLimit": 2000000000, "TimeLimit": math.inf, "Threads": 0,
    "Presolve": -1, "MIPFocus": 0, "NumericFocus": 0, "MIPGap": 1e-4,
    "MIPGapAbs": 1e-10, "FeasibilityTol": 1e-6, "IntFeasTol": 1e-5,
    "OptimalityTol": 1e-6, "NonConvex": -1, "Method": -1, "Cuts": -1,
    "Heuristics": 0.05, "PoolGap": math.inf, "BarConvTol": 1e-8,
    "Crossover": -1, "BestObjStop": -math.inf, "BestBdStop": math.inf,
    "InfUnbdInfo": 0, "Seed": 0, "IntegralityFocus": 0, "LogFile": "",
    "NodeLimit": math.inf, "Cutoff": math.inf, "ScaleFlag": -1,
}


class _ParamNames:
    pass


for _p in _PARAM_DEFAULTS:
    setattr(_ParamNames, _p, _p)


class _AttrNames:
    pass


for _a in ["NumVars", "NumConstrs", "NumBinVars", "NumIntVars", "MIPGap",
           "PoolObjVal", "ObjVal", "ObjBound", "Status", "SolCount", "X", "Xn",
           "LB", "UB", "VType", "VarName", "Start", "Obj", "RHS", "Sense",
           "ModelSense", "IsMIP", "Runtime", "ConstrName"]:
    setattr(_AttrNames, _a, _a)


class _Callback:
    POLLING = 0
    PRESOLVE = 1
    SIMPLEX = 2
    MIP = 3
    MIPSOL = 4
    MIPNODE = 5
    MESSAGE = 6
    BARRIER = 7
    MIP_OBJBST = 3000
    MIP_OBJBND = 3001
    MIP_NODCNT = 3002
    MIP_SOLCNT = 3003
    MIPSOL_SOL = 4001
    MIPSOL_OBJ = 4002
    MIPSOL_OBJBST = 4003
    MIPNODE_STATUS = 5001
    MIPNODE_OBJBST = 5003
    MIPNODE_OBJBND = 5004
    MIPNODE_NODCNT = 5005
    MIPNODE_SOLCNT = 5006


class GRB:
    INFINITY = 1e100
    UNDEFINED = 1e101
    MAXINT = 2000000000
    BINARY = 'B'
    CONTINUOUS = 'C'
    INTEGER = 'I'
    LESS_EQUAL = '<'
    GREATER_EQUAL = '>'
    EQUAL = '='
    MINIMIZE = 1
    MAXIMIZE = -1
    Status = _Status
    Param = _ParamNames
    param = _ParamNames
    Attr = _AttrNames
    attr = _AttrNames
    Callback = _Callback
    callback = _Callback


for _s in dir(_Status):
    if not _s.startswith("_"):
        setattr(GRB, _s, getattr(_Status, _s))


def _is_scalar(x):
    if isinstance(x, (Var, LinExpr, list, tuple)):
        return False
    if isinstance(x, numbers.Number):
        return True
    if isinstance(x, np.generic):
        return True
    shape = getattr(x, "shape", None)
    if shape is not None and hasattr(x, "__float__"):
        n = 1
        for s in shape:
            n *= s
        return n == 1
    return False


def _f(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    v = float(x)
    if math.isnan(v):
        raise GurobiError("NaN coefficient")
    return v


class TempConstr:
    def __init__(self, lhs, sense, rhs):
        # lhs - rhs (sense) 0
        e = _as_lin(lhs) - _as_lin(rhs)
        self.expr = e
        self.sense = sense

    def __bool__(self):
        raise GurobiError("Constraint has no bool value")


class Var:
    __slots__ = ("_m", "_i", "_lb", "_ub", "_vtype", "_name", "_start",
                 "_hint")

    def __init__(self, m, i, lb, ub, vtype, name):
        self._m = m
        self._i = i
        self._vtype = vtype
        if vtype == GRB.BINARY:
            lb = max(0., lb)
            ub = min(1., ub)
        if lb <= -1e100:
            lb = -math.inf
        if ub >= 1e100:
            ub = math.inf
        self._lb = lb
        self._ub = ub
        self._name = name
        self._start = None

    def __hash__(self):
        return hash((id(self._m), self._i))

    def __eq__(self, other):
        # same convention as gurobipy: comparing two Var objects builds a
        # TempConstr, but dict lookup needs identity.  gurobipy solves this in
        # C; here identical objects short-circuit in dict lookup and distinct
        # ones give a TempConstr whose truth value would raise, so return a
        # plain False for distinct Var of the same model with different hash.
        if isinstance(other, Var):
            return _VarEq(self, other)
        if _is_scalar(other) or isinstance(other, LinExpr):
            return TempConstr(self, GRB.EQUAL, other)
        return NotImplemented

    def __le__(self, other):
        return TempConstr(self, GRB.LESS_EQUAL, other)

    def __ge__(self, other):
        return TempConstr(self, GRB.GREATER_EQUAL, other)

    def __add__(self, o):
        return _as_lin(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return _as_lin(self) - o

    def __rsub__(self, o):
        return -1. * _as_lin(self) + o

    def __neg__(self):
        return -1. * _as_lin(self)

    def __mul__(self, o):
        if isinstance(o, Var):
            q = QuadExpr()
            q._q.append((self, o, 1.))
            return q
        if isinstance(o, LinExpr):
            return o * self
        if _is_scalar(o):
            return LinExpr(_f(o), self)
        return NotImplemented

    __rmul__ = __mul__

    @property
    def index(self):
        return self._i

    @property
    def lb(self):
        return self._lb

    @lb.setter
    def lb(self, v):
        self._lb = _f(v)

    @property
    def ub(self):
        return self._ub

    @ub.setter
    def ub(self, v):
        self._ub = _f(v)

    LB, UB = lb, ub

    @property
    def vtype(self):
        return self._vtype

    @vtype.setter
    def vtype(self, v):
        self._vtype = v
        if v == GRB.BINARY:
            self._lb = max(0., self._lb)
            self._ub = min(1., self._ub)

    VType = vtype

    @property
    def VarName(self):
        return self._name

    @VarName.setter
    def VarName(self, v):
        self._name = v

    varName = varname = VarName

    @property
    def start(self):
        return GRB.UNDEFINED if self._start is None else self._start

    @start.setter
    def start(self, v):
        v = _f(v)
        self._start = None if v == GRB.UNDEFINED else v

    Start = start

    @property
    def x(self):
        return self._m._value(self._i, 0)

    X = x

    @property
    def xn(self):
        return self._m._value(self._i, int(self._m._params["SolutionNumber"]))

    Xn = xn

    def getAttr(self, a):
        return getattr(self, {"X": "x", "Xn": "xn", "LB": "lb", "UB": "ub",
                              "VType": "vtype", "Start": "start"}.get(a, a))

    def setAttr(self, a, v):
        setattr(self, {"LB": "lb", "UB": "ub", "VType": "vtype",
                       "Start": "start"}.get(a, a), v)

    def __repr__(self):
        return f"<gurobi.Var {self._name}>"


class _VarEq(TempConstr):
    """Var == Var: an equality constraint whose truth value is identity (this
    is what gurobipy does so that Vars work as dict keys)."""
    def __init__(self, a, b):
        self._a, self._b = a, b
        self.sense = GRB.EQUAL

    @property
    def expr(self):
        return _as_lin(self._a) - _as_lin(self._b)

    def __bool__(self):
        return self._a is self._b


class LinExpr:
    __slots__ = ("_v", "_c", "_k")

    def __init__(self, arg1=0., arg2=None):
        self._v = []
        self._c = []
        self._k = 0.
        if arg2 is None:
            if isinstance(arg1, Var):
                self._v = [arg1]
                self._c = [1.]
            elif isinstance(arg1, LinExpr):
                self._v = list(arg1._v)
                self._c = list(arg1._c)
                self._k = arg1._k
            elif _is_scalar(arg1):
                self._k = _f(arg1)
            elif isinstance(arg1, (list, tuple)):
                for c, v in arg1:
                    self._c.append(_f(c))
                    self._v.append(v)
            else:
                raise GurobiError("LinExpr: unsupported argument")
        elif isinstance(arg2, Var):
            self._v = [arg2]
            self._c = [_f(arg1)]
        else:
            vs = list(arg2)
            cs = [_f(c) for c in arg1]
            if len(vs) != len(cs):
                raise GurobiError("LinExpr: coefficient/variable lists have "
                                  "different lengths")
            for v in vs:
                if not isinstance(v, Var):
                    raise TypeError("LinExpr expects Var")
            self._v = vs
            self._c = cs

    def size(self):
        return len(self._v)

    def getConstant(self):
        return self._k

    def getVar(self, i):
        return self._v[i]

    def getCoeff(self, i):
        return self._c[i]

    def getValue(self):
        return self._k + sum(c * v.x for c, v in zip(self._c, self._v))

    def copy(self):
        return LinExpr(self)

    def add(self, e, mult=1.):
        e = _as_lin(e)
        self._v += e._v
        self._c += [mult * c for c in e._c]
        self._k += mult * e._k

    def __add__(self, o):
        if isinstance(o, QuadExpr):
            return o + self
        if isinstance(o, (Var, LinExpr)) or _is_scalar(o):
            r = LinExpr(self)
            r.add(o)
            return r
        return NotImplemented

    __radd__ = __add__

    def __iadd__(self, o):
        if isinstance(o, QuadExpr):
            return o + self
        self.add(o)
        return self

    def __sub__(self, o):
        r = LinExpr(self)
        r.add(o, -1.)
        return r

    def __rsub__(self, o):
        r = self * -1.
        r.add(o)
        return r

    def __mul__(self, o):
        if _is_scalar(o):
            r = LinExpr(self)
            o = _f(o)
            r._c = [c * o for c in r._c]
            r._k *= o
            return r
        if isinstance(o, (Var, LinExpr)):
            o = _as_lin(o)
            q = QuadExpr()
            for c1, v1 in zip(self._c, self._v):
                for c2, v2 in zip(o._c, o._v):
                    q._q.append((v1, v2, c1 * c2))
            q._l.add(LinExpr(list(zip(self._c, self._v))), o._k)
            q._l.add(LinExpr(list(zip(o._c, o._v))), self._k)
            q._l._k += self._k * o._k
            return q
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1. / _f(o))

    def __neg__(self):
        return self * -1.

    def __le__(self, o):
        return TempConstr(self, GRB.LESS_EQUAL, o)

    def __ge__(self, o):
        return TempConstr(self, GRB.GREATER_EQUAL, o)

    def __eq__(self, o):
        return TempConstr(self, GRB.EQUAL, o)

    __hash__ = None


class QuadExpr:
    def __init__(self, expr=None):
        self._q = []
        self._l = LinExpr()
        if expr is not None:
            self.add(expr)

    def add(self, e, mult=1.):
        mult = _f(mult)
        if isinstance(e, QuadExpr):
            self._q += [(a, b, c * mult) for (a, b, c) in e._q]
            self._l.add(e._l, mult)
        else:
            self._l.add(e, mult)

    def size(self):
        return len(self._q)

    def getLinExpr(self):
        return self._l

    def __add__(self, o):
        r = QuadExpr(self)
        r.add(o)
        return r

    __radd__ = __add__

    def __iadd__(self, o):
        self.add(o)
        return self

    def __sub__(self, o):
        r = QuadExpr(self)
        r.add(o, -1.)
        return r

    def __mul__(self, o):
        r = QuadExpr()
        r.add(self, _f(o))
        return r

    __rmul__ = __mul__


def _as_lin(e):
    if isinstance(e, LinExpr):
        return e
    return LinExpr(e)


def quicksum(it):
    r = LinExpr()
    for e in it:
        if isinstance(e, QuadExpr) or isinstance(r, QuadExpr):
            r = QuadExpr(r) + e
        else:
            r.add(e)
    return r


class tupledict(dict):
    def values(self):
        return list(super().values())

    def select(self, *a):
        return list(super().values())


class MVar:
    def __init__(self, vs):
        self._vs = list(vs)

    @property
    def shape(self):
        return (len(self._vs), )

    def __len__(self):
        return len(self._vs)

    def tolist(self):
        return list(self._vs)

    def __iter__(self):
        return iter(self._vs)

    def __getitem__(self, i):
        r = self._vs[i]
        return MVar(r) if isinstance(r, list) else r

    @property
    def x(self):
        return np.array([v.x for v in self._vs])

    X = x


class Constr:
    __slots__ = ("_m", "_idx", "_coef", "_sense", "_rhs", "_name",
                 "_removed")

    def __init__(self, m, idx, coef, sense, rhs, name):
        self._m = m
        self._idx = idx
        self._coef = coef
        self._sense = sense
        self._rhs = rhs
        self._name = name
        self._removed = False

    @property
    def RHS(self):
        return self._rhs

    rhs = RHS

    @property
    def Sense(self):
        return self._sense

    @property
    def ConstrName(self):
        return self._name


class MConstr(list):
    def tolist(self):
        return list(self)


_SENSE = {'<': '<', '<=': '<', '>': '>', '>=': '>', '=': '=', '==': '='}


class Env:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def setParam(self, *a):
        pass

    def start(self):
        pass


class _ParamsProxy:
    def __init__(self, m):
        object.__setattr__(self, "_m", m)

    def __getattr__(self, k):
        return self._m._params[k]

    def __setattr__(self, k, v):
        self._m.setParam(k, v)


def _bnd(lb, n, default):
    if lb is None:
        return [default] * n
    if _is_scalar(lb):
        return [_f(lb)] * n
    r = [_f(v) for v in lb]
    if len(r) != n:
        raise GurobiError("bound list has the wrong length")
    return r


# Every solve made by any Model goes through these counters, which the
# harness reads for its evidence.
STATS = {"lp": 0, "milp": 0, "qp": 0, "models": 0}


class Model:
    def __init__(self, name="", env=None):
        STATS["models"] += 1
        self._name = name
        self._vars = []
        self._cons = []
        self._obj = LinExpr()
        self._sense = GRB.MINIMIZE
        self._params = dict(_PARAM_DEFAULTS)
        self.Params = self.params = _ParamsProxy(self)
        self._status = _Status.LOADED
        self._sols = []
        self._terminated = False
        self._cbdata = {}

    # -- building ---------------------------------------------------------
    def addVar(self, lb=0., ub=GRB.INFINITY, obj=0., vtype=GRB.CONTINUOUS,
               name="", column=None):
        i = len(self._vars)
        v = Var(self, i, _f(lb), _f(ub), vtype, name or f"C{i}")
        self._vars.append(v)
        if obj:
            self._obj = self._obj + LinExpr(obj, v)
        return v

    def addVars(self, *indices, lb=0., ub=GRB.INFINITY, obj=0.,
                vtype=GRB.CONTINUOUS, name=""):
        if len(indices) != 1:
            raise NotImplementedError("addVars: one index only")
        ind = indices[0]
        keys = list(range(int(ind))) if _is_scalar(ind) else list(ind)
        n = len(keys)
        lbs = _bnd(lb, n, 0.)
        ubs = _bnd(ub, n, GRB.INFINITY)
        r = tupledict()
        for k, l, u in zip(keys, lbs, ubs):
            r[k] = self.addVar(lb=l, ub=u, vtype=vtype,
                               name=f"{name or 'C'}[{k}]")
        return r

    def addMVar(self, shape, lb=0., ub=GRB.INFINITY, obj=0.,
                vtype=GRB.CONTINUOUS, name=""):
        n = shape if isinstance(shape, (int, np.integer)) else shape[0]
        n = int(n)
        lbs = _bnd(lb, n, 0.)
        ubs = _bnd(ub, n, GRB.INFINITY)
        return MVar([
            self.addVar(lb=l, ub=u, vtype=vtype, name=f"{name}[{i}]")
            for i, (l, u) in enumerate(zip(lbs, ubs))
        ])

    def _new_constr(self, expr, sense, rhs, name):
        acc = {}
        for c, v in zip(expr._c, expr._v):
            if v._m is not self:
                raise GurobiError("Variable not in model")
            acc[v._i] = acc.get(v._i, 0.) + c
        con = Constr(self, list(acc.keys()), list(acc.values()),
                     _SENSE[sense], rhs - expr._k, name)
        self._cons.append(con)
        return con

    def addConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, TempConstr):
            if isinstance(sense, str):
                name = sense
            return self._new_constr(lhs.expr, lhs.sense, 0., name)
        if isinstance(lhs, (bool, np.bool_)):
            raise GurobiError("addConstr got a bool")
        rhs_e = _as_lin(rhs)
        e = _as_lin(lhs) - rhs_e
        return self._new_constr(e, sense, 0., name)

    addLConstr = addConstr

    def addConstrs(self, gen, name=""):
        return [self.addConstr(c) for c in gen]

    def addMConstr(self, A, x, sense, b, name=""):
        if sp.issparse(A):
            A = A.toarray()
        A = np.asarray(A, dtype=float)
        if A.ndim != 2:
            raise GurobiError("addMConstr: A must be a matrix")
        xs = self._vars if x is None else list(x)
        if len(xs) != A.shape[1]:
            raise GurobiError("addMConstr: A has the wrong number of columns")
        if _is_scalar(b):
            bs = [_f(b)] * A.shape[0]
        else:
            bs = [_f(v) for v in b]
        if len(bs) != A.shape[0]:
            raise GurobiError("addMConstr: b has the wrong length")
        if np.any(np.isnan(A)):
            raise GurobiError("NaN coefficient")
        ret = MConstr()
        idx = [v._i for v in xs]
        for v in xs:
            if v._m is not self:
                raise GurobiError("Variable not in model")
        for i in range(A.shape[0]):
            acc = {}
            for j, k in enumerate(idx):
                if A[i, j] != 0:
                    acc[k] = acc.get(k, 0.) + A[i, j]
            c = Constr(self, list(acc.keys()), list(acc.values()),
                       _SENSE[sense], bs[i], name)
            self._cons.append(c)
            ret.append(c)
        return ret

    def remove(self, item):
        if isinstance(item, (list, tuple)):
            for c in item:
                self.remove(c)
            return
        if isinstance(item, Constr):
            for i, c in enumerate(self._cons):
                if c is item:
                    del self._cons[i]
                    item._removed = True
                    return
            raise GurobiError("Constr not in model")
        raise NotImplementedError("remove")

    def setObjective(self, expr, sense=None):
        if _is_scalar(expr):
            expr = LinExpr(_f(expr))
        if isinstance(expr, Var):
            expr = LinExpr(expr)
        self._obj = expr
        if sense is not None:
            self._sense = sense

    def setMObjective(self, Q, c, constant, xQ_L=None, xQ_R=None, xc=None,
                      sense=None):
        e = LinExpr()
        if c is not None:
            xs = self._vars if xc is None else list(xc)
            e = LinExpr([_f(v) for v in c], xs)
        e._k += _f(constant)
        if Q is not None:
            Q = np.asarray(Q, dtype=float)
            q = QuadExpr(e)
            xl = self._vars if xQ_L is None else list(xQ_L)
            xr = self._vars if xQ_R is None else list(xQ_R)
            for i in range(Q.shape[0]):
                for j in range(Q.shape[1]):
                    if Q[i, j] != 0:
                        q._q.append((xl[i], xr[j], Q[i, j]))
            e = q
        self._obj = e
        if sense is not None:
            self._sense = sense

    def getObjective(self, index=None):
        return self._obj

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return list(self._cons)

    def getVarByName(self, n):
        for v in self._vars:
            if v._name == n:
                return v
        return None

    def update(self):
        pass

    def reset(self, *a):
        self._sols = []
        self._status = _Status.LOADED

    def computeIIS(self):
        pass

    def write(self, f):
        pass

    def dispose(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    # -- params / attrs ----------------------------------------------------
    def __getattr__(self, a):
        # gurobipy attribute names are case-insensitive
        if a.startswith("_"):
            raise AttributeError(a)
        k = _MODEL_ATTRS.get(a.lower())
        if k is None or k == a:
            raise AttributeError(f"gurobipy.Model has no attribute '{a}'")
        return getattr(self, k)

    def setParam(self, p, v):
        if p not in self._params:
            raise GurobiError(f"Unknown parameter {p}")
        if p == "SolutionNumber":
            v = int(v)
        self._params[p] = v

    def getParamInfo(self, p):
        d = _PARAM_DEFAULTS[p]
        return (p, type(d), self._params[p], -math.inf, math.inf, d)

    def getAttr(self, a, objs=None):
        return getattr(self, a)

    def setAttr(self, a, v):
        if a == "ModelSense":
            self._sense = v
        else:
            raise NotImplementedError(a)

    @property
    def NumVars(self):
        return len(self._vars)

    numVars = NumVars

    @property
    def NumConstrs(self):
        return len(self._cons)

    numConstrs = NumConstrs

    @property
    def NumBinVars(self):
        return sum(v._vtype == GRB.BINARY for v in self._vars)

    @property
    def NumIntVars(self):
        return sum(v._vtype != GRB.CONTINUOUS for v in self._vars)

    @property
    def IsMIP(self):
        return int(self.NumIntVars > 0)

    @property
    def ModelSense(self):
        return self._sense

    modelSense = ModelSense

    @property
    def status(self):
        return self._status

    Status = status

    @property
    def SolCount(self):
        return len(self._sols)

    solCount = solcount = SolCount

    @property
    def ObjVal(self):
        if not self._sols:
            raise AttributeError("Unable to retrieve attribute 'ObjVal'")
        return self._sols[0][0]

    objVal = objval = ObjVal

    @property
    def ObjBound(self):
        return self.ObjVal

    @property
    def PoolObjVal(self):
        k = int(self._params["SolutionNumber"])
        if not 0 <= k < len(self._sols):
            raise AttributeError("Unable to retrieve attribute 'PoolObjVal'")
        return self._sols[k][0]

    @property
    def MIPGap(self):
        return 0.

    @property
    def Runtime(self):
        return 0.

    def _value(self, i, k):
        if not 0 <= k < len(self._sols):
            raise AttributeError("Unable to retrieve attribute 'x'")
        x = self._sols[k][1]
        if i >= len(x):
            raise AttributeError("Unable to retrieve attribute 'x'")
        return float(x[i])

    # -- solving -----------------------------------------------------------
    def terminate(self):
        self._terminated = True

    def cbGet(self, what):
        return self._cbdata[what]

    def _arrays(self):
        n = len(self._vars)
        lb = np.array([v._lb for v in self._vars], dtype=float)
        ub = np.array([v._ub for v in self._vars], dtype=float)
        lb[lb <= -1e20] = -np.inf
        ub[ub >= 1e20] = np.inf
        integ = np.array([v._vtype != GRB.CONTINUOUS for v in self._vars],
                         dtype=bool)
        m = len(self._cons)
        lo = np.full(m, -np.inf)
        up = np.full(m, np.inf)
        start = np.zeros(m + 1, dtype=np.int32)
        idx = []
        val = []
        for r, c in enumerate(self._cons):
            idx += c._idx
            val += c._coef
            start[r + 1] = len(idx)
            rhs = c._rhs
            if c._sense != '>':
                up[r] = rhs
            if c._sense != '<':
                lo[r] = rhs
        up[up >= 1e20] = np.inf
        lo[lo <= -1e20] = -np.inf
        return (n, lb, ub, integ, start, np.array(idx, dtype=np.int32),
                np.array(val, dtype=float), lo, up)

    def _objective(self, n):
        c = np.zeros(n)
        obj = self._obj
        Q = None
        if isinstance(obj, QuadExpr):
            if obj._q:
                Q = np.zeros((n, n))
                for a, b, v in obj._q:
                    Q[a._i, b._i] += .5 * v
                    Q[b._i, a._i] += .5 * v
            lin = obj._l
        else:
            lin = obj
        for k, v in zip(lin._c, lin._v):
            c[v._i] += k
        return c, lin._k, Q

    def optimize(self, callback=None):
        self._sols = []
        self._terminated = False
        arr = self._arrays()
        n, lb, ub, integ = arr[:4]
        c, k, Q = self._objective(n)
        sgn = 1. if self._sense == GRB.MINIMIZE else -1.
        tol = 1e-9
        if np.any(lb > ub + tol):
            self._status = _Status.INFEASIBLE
            return
        is_mip = bool(np.any(integ))

        def fix(lb_, ub_, mode="all"):
            return _solve(arr, lb_, ub_, sgn * c, None if Q is None else
                          sgn * Q, is_mip)

        def emit(where, sols):
            inc = sgn * min(s[0] for s in sols) if sols else \
                sgn * GRB.INFINITY
            inc = (inc + k) if sols else inc
            self._cbdata = {
                _Callback.MIP_OBJBST: inc,
                _Callback.MIP_SOLCNT: len(sols),
                _Callback.MIPNODE_OBJBST: inc,
                _Callback.MIPNODE_SOLCNT: len(sols),
                _Callback.MIPNODE_STATUS: _Status.OPTIMAL,
            }
            callback(self, where)

        # warm start
        warm = []
        if callback is not None and is_mip:
            st = [(v._i, v._start) for v in self._vars
                  if v._start is not None]
            if st:
                lb2, ub2 = lb.copy(), ub.copy()
                for i, s in st:
                    if integ[i]:
                        s = round(s)
                    lb2[i] = max(lb2[i], s - 1e-7)
                    ub2[i] = min(ub2[i], s + 1e-7)
                if np.all(lb2 <= ub2):
                    s, o, x = fix(lb2, ub2)
                    if s == _Status.OPTIMAL:
                        warm = [(o, x)]
            for w in (_Callback.MIP, _Callback.MIPNODE):
                emit(w, warm)
                if self._terminated:
                    self._status = _Status.INTERRUPTED
                    self._sols = [(sgn * o + k, x) for o, x in warm]
                    return
        status, obj, x = fix(lb, ub)
        if status == _Status.INF_OR_UNBD:
            # tell the two apart: solve with a zero objective
            s2, _, _ = _solve(arr, lb, ub, 0 * c, None, is_mip)
            status = _Status.UNBOUNDED if s2 == _Status.OPTIMAL else s2
        self._status = status
        if status != _Status.OPTIMAL:
            return
        sols = [(obj, x)]
        if is_mip and int(self._params["PoolSearchMode"]) > 0 and \
                int(self._params["SolutionLimit"]) > 1:
            sols += _pool(arr, lb, ub, sgn * c,
                          None if Q is None else sgn * Q, x,
                          int(self._params["PoolSolutions"]) - 1)
        self._sols = [(sgn * o + k, xx) for o, xx in sols]
        if is_mip and int(self._params["SolutionLimit"]) == 1:
            self._status = _Status.SOLUTION_LIMIT
        if callback is not None and is_mip:
            for w in (_Callback.MIP, _Callback.MIPNODE):
                emit(w, sols)
                if self._terminated:
                    self._status = _Status.INTERRUPTED
                    return


_MODEL_ATTRS = {k.lower(): k for k in (
    "NumVars", "NumConstrs", "NumBinVars", "NumIntVars", "IsMIP",
    "ModelSense", "Status", "SolCount", "ObjVal", "ObjBound", "PoolObjVal",
    "MIPGap", "Runtime")}


def _pool(arr, lb, ub, c, Q, x0, howmany):
    """The next best solutions, with distinct integer assignments (no-good
    cuts on the binaries)."""
    n, _, _, integ, start, idx, val, lo, up = arr
    free = [i for i in range(n) if integ[i] and ub[i] - lb[i] > .5]
    if any(lb[i] < -1e-9 or ub[i] > 1 + 1e-9 for i in free):
        return []
    if not free:
        return []
    sols = []
    st = list(start)
    ix = list(idx)
    vl = list(val)
    lo_ = list(lo)
    up_ = list(up)
    cur = x0
    for _ in range(howmany):
        ones = 0
        for i in free:
            ix.append(i)
            if cur[i] > .5:
                vl.append(1.)
                ones += 1
            else:
                vl.append(-1.)
        st.append(len(ix))
        lo_.append(-np.inf)
        up_.append(ones - 1.)
        arr2 = (n, lb, ub, integ, np.array(st, dtype=np.int32),
                np.array(ix, dtype=np.int32), np.array(vl, dtype=float),
                np.array(lo_), np.array(up_))
        s, o, x = _solve(arr2, lb, ub, c, Q, True)
        if s != _Status.OPTIMAL:
            break
        sols.append((o, x))
        cur = x
    return sols


_H = None


def _highs():
    global _H
    if _H is None:
        h = highspy.Highs()
        h.setOptionValue("output_flag", False)
        h.setOptionValue("threads", 1)
        h.setOptionValue("random_seed", 0)
        h.setOptionValue("mip_rel_gap", 0.)
        h.setOptionValue("mip_abs_gap", 1e-10)
        h.setOptionValue("mip_feasibility_tolerance", 1e-9)
        h.setOptionValue("primal_feasibility_tolerance", 1e-9)
        h.setOptionValue("dual_feasibility_tolerance", 1e-9)
        # this heuristic of HiGHS 1.15.1 writes out of bounds on some
        # programs when presolve is off (segmentation fault)
        h.setOptionValue("mip_heuristic_run_feasibility_jump", False)
        _H = h
    return _H


_MS = highspy.HighsModelStatus


def _pass(arr, lb, ub, c, mip):
    n, _, _, integ, start, idx, val, lo, up = arr
    lp = highspy.HighsLp()
    lp.num_col_ = n
    lp.num_row_ = len(lo)
    lp.col_cost_ = c
    lp.col_lower_ = lb
    lp.col_upper_ = ub
    lp.row_lower_ = lo
    lp.row_upper_ = up
    lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
    lp.a_matrix_.start_ = start
    lp.a_matrix_.index_ = idx
    lp.a_matrix_.value_ = val
    lp.sense_ = highspy.ObjSense.kMinimize
    if mip:
        lp.integrality_ = [
            highspy.HighsVarType.kInteger if b else
            highspy.HighsVarType.kContinuous for b in integ
        ]
    h = _highs()
    h.clearModel()
    h.passModel(lp)
    return h


# HiGHS has been seen to return a suboptimal point as optimal (about one in
# 10^4 programs of the checks); with CAREFUL the best of several configurations
# is used.  pbt.py turns it on to confirm a violation before it is reported.
CAREFUL = False
_CONFIGS = ((("presolve", "choose"), ), (("presolve", "off"), ),
            (("presolve", "choose"), ("mip_feasibility_tolerance", 1e-7)),
            (("presolve", "off"), ("mip_feasibility_tolerance", 1e-7)),
            (("presolve", "choose"), ("mip_heuristic_effort", 0.),
             ("random_seed", 7)),
            (("presolve", "choose"), ("simplex_scale_strategy", 0),
             ("primal_feasibility_tolerance", 1e-8),
             ("dual_feasibility_tolerance", 1e-8)))


def _run(h, presolve="choose"):
    h.setOptionValue("presolve", presolve)
    h.run()
    return h.getModelStatus()


def _solve_careful(arr, lb, ub, c):
    integ = arr[3]
    best = other = None
    for conf in _CONFIGS:
        h = _pass(arr, lb, ub, c, True)
        old = [(k, h.getOptionValue(k)[1]) for k, _ in conf]
        for k, v in conf:
            h.setOptionValue(k, v)
        h.run()
        ms = h.getModelStatus()
        x = np.array(h.getSolution().col_value, dtype=float)
        for k, v in old:
            h.setOptionValue(k, v)
        if ms != _MS.kOptimal:
            if conf[0][1] == "off":
                other = ms
            continue
        lb2, ub2 = lb.copy(), ub.copy()
        lb2[integ] = ub2[integ] = np.round(x[integ])
        r = _solve_lp(arr, lb2, ub2, c)
        if r[0] != _Status.OPTIMAL:
            if _residual(arr, lb, ub, x) >= 1e-6:
                continue
            r = (_Status.OPTIMAL, float(c @ x), x)
        if best is None or r[1] < best[1] - 1e-12:
            best = r
    if best is not None:
        return best
    return {_MS.kInfeasible: _Status.INFEASIBLE,
            _MS.kUnbounded: _Status.UNBOUNDED,
            _MS.kUnboundedOrInfeasible: _Status.INF_OR_UNBD}.get(
                other, _Status.NUMERIC), None, None


def _residual(arr, lb, ub, x):
    """Largest violation of rows and bounds at x."""
    n, _, _, integ, start, idx, val, lo, up = arr
    r = 0.
    if n:
        r = max(0., np.max(lb - x), np.max(x - ub))
    if len(lo):
        ax = np.add.reduceat(np.append(val * x[idx], 0.),
                             np.minimum(start[:-1], len(val)))
        ax[start[:-1] == start[1:]] = 0.
        r = max(r, np.max(lo - ax), np.max(ax - up))
    return r


def _solve_lp(arr, lb, ub, c):
    STATS["lp"] += 1
    for ps in ("choose", "off"):
        h = _pass(arr, lb, ub, c, False)
        ms = _run(h, ps)
        if ms == _MS.kOptimal:
            x = np.array(h.getSolution().col_value, dtype=float)
            return _Status.OPTIMAL, float(c @ x), x
        if ms == _MS.kModelEmpty:
            x = np.clip(np.zeros(arr[0]), lb, ub)
            return _Status.OPTIMAL, 0., x
        if ps == "off":
            if ms == _MS.kInfeasible:
                return _Status.INFEASIBLE, None, None
            if ms == _MS.kUnbounded:
                return _Status.UNBOUNDED, None, None
            if ms == _MS.kUnboundedOrInfeasible:
                return _Status.INF_OR_UNBD, None, None
    return _Status.NUMERIC, None, None


def _solve(arr, lb, ub, c, Q, mip):
    if Q is not None:
        return _solve_qp(arr, lb, ub, c, Q, mip)
    if not mip:
        return _solve_lp(arr, lb, ub, c)
    integ = arr[3]
    STATS["milp"] += 1
    if CAREFUL:
        return _solve_careful(arr, lb, ub, c)
    ms = None
    for ps in ("choose", "off"):
        h = _pass(arr, lb, ub, c, True)
        ms = _run(h, ps)
        if ms == _MS.kOptimal:
            x = np.array(h.getSolution().col_value, dtype=float)
            lb2, ub2 = lb.copy(), ub.copy()
            lb2[integ] = ub2[integ] = np.round(x[integ])
            s, o, xp = _solve_lp(arr, lb2, ub2, c)
            if s == _Status.OPTIMAL:
                return s, o, xp
            if _residual(arr, lb, ub, x) < 1e-6:
                return _Status.OPTIMAL, float(c @ x), x
            continue
        if ps == "off":
            break
    if ms == _MS.kInfeasible:
        return _Status.INFEASIBLE, None, None
    if ms == _MS.kUnbounded:
        return _Status.UNBOUNDED, None, None
    if ms == _MS.kUnboundedOrInfeasible:
        return _Status.INF_OR_UNBD, None, None
    return _Status.NUMERIC, None, None


def _solve_qp(arr, lb, ub, c, Q, mip):
    """min x'Qx + c'x.  Convex: eigenvalues of Q >= -1e-9 on the continuous
    part once the integers are fixed (branch and bound enumerates them)."""
    integ = arr[3]
    if not mip:
        return _qp(arr, lb, ub, c, Q)
    free = [i for i in range(arr[0]) if integ[i]]
    best = (None, math.inf, None)
    if any(ub[i] - lb[i] > 1 + 1e-9 for i in free):
        raise NotImplementedError("MIQP with general integers")
    und = [False]

    def rec(lb_, ub_, k):
        nonlocal best
        if k == len(free):
            s, o, x = _qp(arr, lb_, ub_, c, Q)
            if s == _Status.OPTIMAL and o < best[1] - 1e-12:
                best = (s, o, x)
            elif s == _Status.UNBOUNDED:
                und[0] = True
            return
        i = free[k]
        for v in (0., 1.):
            if lb_[i] - 1e-9 <= v <= ub_[i] + 1e-9:
                l2, u2 = lb_.copy(), ub_.copy()
                l2[i] = u2[i] = v
                if _solve_lp(arr, l2, u2, 0 * c)[0] == _Status.OPTIMAL:
                    rec(l2, u2, k + 1)

    rec(lb, ub, 0)
    if und[0]:
        return _Status.UNBOUNDED, None, None
    if best[0] is None:
        return _Status.INFEASIBLE, None, None
    return best


def _qp(arr, lb, ub, c, Q):
    import clarabel
    STATS["qp"] += 1
    n, _, _, _, start, idx, val, lo, up = arr
    A = sp.csr_matrix((val, idx, start), shape=(len(lo), n))
    fixed = ub - lb < 1e-12
    xf = np.where(fixed, .5 * (lb + ub), 0.)
    fr = np.where(~fixed)[0]
    Qf = Q[np.ix_(fr, fr)]
    cf = c[fr] + 2. * (Q[fr] @ xf)
    const = float(xf @ Q @ xf + c @ xf)
    if len(fr) == 0:
        if _residual(arr, lb, ub, xf) > 1e-7:
            return _Status.INFEASIBLE, None, None
        return _Status.OPTIMAL, const, xf
    if np.min(np.linalg.eigvalsh(Qf)) < -1e-8:
        raise GurobiError("Objective Q not PSD")
    Af = A[:, fr]
    off = A @ xf
    rows, rhs, cones = [], [], []
    eq = np.where(lo == up)[0]
    if len(eq):
        rows.append(Af[eq])
        rhs.append(up[eq] - off[eq])
        cones.append(clarabel.ZeroConeT(len(eq)))
    G, h = [], []
    for sel, s in ((np.where((up < np.inf) & (lo != up))[0], 1.),
                   (np.where((lo > -np.inf) & (lo != up))[0], -1.)):
        if len(sel):
            G.append(s * Af[sel])
            h.append(s * ((up if s > 0 else lo)[sel] - off[sel]))
    I = sp.identity(len(fr), format="csr")
    for sel, s in ((np.where(ub[fr] < np.inf)[0], 1.),
                   (np.where(lb[fr] > -np.inf)[0], -1.)):
        if len(sel):
            G.append(s * I[sel])
            h.append(s * (ub if s > 0 else lb)[fr][sel])
    if G:
        rows.append(sp.vstack(G))
        rhs.append(np.concatenate(h))
        cones.append(clarabel.NonnegativeConeT(rhs[-1].size))
    if rows:
        AA = sp.csc_matrix(sp.vstack(rows))
        bb = np.concatenate(rhs)
    else:
        AA = sp.csc_matrix((0, len(fr)))
        bb = np.zeros(0)
    st = clarabel.DefaultSettings()
    st.verbose = False
    st.tol_gap_abs = 1e-11
    st.tol_gap_rel = 1e-11
    st.tol_feas = 1e-11
    sol = clarabel.DefaultSolver(sp.csc_matrix(np.triu(2. * Qf)), cf, AA, bb,
                                 cones, st).solve()
    name = str(sol.status)
    if "Solved" in name:
        x = xf.copy()
        x[fr] = np.array(sol.x)
        return _Status.OPTIMAL, float(x @ Q @ x + c @ x), x
    if "PrimalInfeasible" in name:
        return _Status.INFEASIBLE, None, None
    if "DualInfeasible" in name:
        return _Status.UNBOUNDED, None, None
    return _Status.NUMERIC, None, None


def setParam(*a):
    pass


def disposeDefaultEnv():
    pass


def max_(*a):
    raise NotImplementedError


def abs_(*a):
    raise NotImplementedError


def _init_scheduler():
    """HiGHS fixes its number of threads at the first solve of a process; a
    solve through cvxpy (default threads) before ours would make every later
    solve with threads=1 fail."""
    h = _highs()
    lp = highspy.HighsLp()
    lp.num_col_ = 1
    lp.num_row_ = 0
    lp.col_cost_ = np.ones(1)
    lp.col_lower_ = np.zeros(1)
    lp.col_upper_ = np.ones(1)
    h.passModel(lp)
    h.run()


_init_scheduler()
