"""Property-based-testing framework of /verif.

A check module (checks/pNN_*.py) defines PROPERTY and functions decorated with
@case.  Every random choice of a case is drawn from Hypothesis through the
context object T; the drawn values are plain JSON values and are recorded, so
that a shrunk failure is saved as the list of drawn values and replayed
without Hypothesis (run.py --replay FILE).

Outcomes of one case
   returns               the property held
   T.fail / Violation    the oracle refutes the property
   exception with a /repo frame in its traceback, on an input the code is
   documented to accept: also a refutation ("the code under test raised")
   any other exception   an error of the harness -> exit status 2
"""
import collections
import hashlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np

REPO = "/repo"
PKG = "/repo/neural_network_lyapunov/"


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class _Skip(Exception):
    pass


class Reject(Exception):
    """The drawn values do not make a valid case (counted, not a failure)."""


class Case:
    def __init__(self, fn, quick, thorough, shards, weight):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.weight = weight


def case(quick=100, thorough=None, shards=1, weight=1., large=0):
    """large: that many cases (quick tier) of a second kind, "<name>_large",
    where T.large is set: wide networks, long batches."""
    def deco(fn):
        mod = sys.modules[fn.__module__]
        # SCALE: more quick-tier cases of a check that is cheap
        scale = getattr(mod, "SCALE", 1)
        c = Case(fn, quick * scale, thorough or quick * 20, shards, weight)
        if not hasattr(mod, "CASES"):
            mod.CASES = []
        mod.CASES.append(c)
        if large:
            def big(T):
                T.large = True
                return fn(T)
            big.__name__ = fn.__name__ + "_large"
            big.__module__ = fn.__module__
            mod.CASES.append(Case(big, large * scale, 20 * large, shards,
                                  3 * weight))
        return fn
    return deco


def _jsonable(v):
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [_jsonable(a) for a in v]
    raise HarnessError(f"draw of a non JSON value {type(v)}")


class T:
    """Context of one generated case."""
    def __init__(self, data=None, replay=None, stats=None, tier="quick"):
        self._data = data
        self._replay = list(replay) if replay is not None else None
        self.draws = []
        self.stats = stats
        self.tier = tier
        self.labels = []
        self.notes = {}
        self._nontrivial = False
        self._known = None
        self.large = False

    # -- drawing ------------------------------------------------------
    def draw(self, strategy):
        if self._replay is not None:
            if not self._replay:
                raise HarnessError("replay ran out of recorded draws")
            v = self._replay.pop(0)
        else:
            v = self._data.draw(strategy)
        v = _jsonable(v)
        self.draws.append(v)
        return v

    def int(self, lo, hi):
        import hypothesis.strategies as st
        return self.draw(st.integers(lo, hi))

    def count(self, lo, hi):
        """a number of samples"""
        if self.large:
            return self.choice((17, 33, 65, 130, 257, 513))
        return self.int(lo, hi)

    def span(self, lo, hi, large_lo, large_hi):
        """an integer, from the second range in the large cases"""
        return self.int(large_lo, large_hi) if self.large else self.int(
            lo, hi)

    def bool(self):
        import hypothesis.strategies as st
        return self.draw(st.booleans())

    def choice(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def seed(self):
        """Seeds torch's, numpy's and Python's global generators (for code
        under test that draws random numbers itself)."""
        s = self.int(0, 2**20)
        seed_all(s)
        return s

    def float(self, lo, hi, special=()):
        import hypothesis.strategies as st
        mode = self.int(0, 3)
        if mode == 0 and special:
            return float(self.choice(special))
        if mode <= 1:
            # coarse grid, 16 steps
            return lo + (hi - lo) * self.int(0, 16) / 16.
        return lo + (hi - lo) * self.int(0, 2**20) / 2.**20

    def floats(self, n, lo, hi, coarse=None):
        """n floats in [lo, hi].  coarse: on a 1/8 grid of the range (ties and
        zeros are common); otherwise generic."""
        import hypothesis.strategies as st
        if n == 0:
            return []
        if coarse is None:
            coarse = self.int(0, 3) == 0
        if not coarse and self.int(0, 2):
            # generic values: Hypothesis favours small and extreme integers
            r = np.random.default_rng(self.int(0, 2**31 - 1))
            return [float(a) for a in lo + (hi - lo) * r.random(n)]
        k = 16 if coarse else 2**20
        v = self.draw(
            st.lists(st.integers(0, k), min_size=n, max_size=n))
        return [lo + (hi - lo) * a / k for a in v]

    def array(self, shape, lo=-1., hi=1., coarse=None):
        n = int(np.prod(shape)) if len(shape) else 1
        return np.array(self.floats(n, lo, hi, coarse)).reshape(shape)

    def tensor(self, shape, lo=-1., hi=1., coarse=None, dtype=None):
        import torch
        return torch.tensor(self.array(shape, lo, hi, coarse),
                            dtype=dtype or torch.float64)

    def rng(self):
        """A numpy generator seeded by a drawn integer: for bulk data (sample
        clouds) whose individual values do not matter for shrinking."""
        return np.random.default_rng(self.int(0, 2**31 - 1))

    # -- bookkeeping ----------------------------------------------------
    def label(self, *ls):
        for s in ls:
            self.labels.append(str(s))

    def nontrivial(self, flag=True):
        if flag:
            self._nontrivial = True

    def note(self, **kw):
        self.notes.update(kw)

    def reject(self, why=""):
        raise Reject(why)

    def known(self, kid):
        """This case is exactly the listed finding kid: excluded, counted."""
        self._known = kid
        raise _Skip()

    # -- oracles ----------------------------------------------------------
    def fail(self, msg, **info):
        raise Violation(msg + ("  " + "; ".join(
            f"{k}={_short(v)}" for k, v in info.items()) if info else ""))

    def check(self, cond, msg, **info):
        if not bool(cond):
            self.fail(msg, **info)

    def close(self, a, b, msg, atol=1e-7, rtol=1e-7, **info):
        a = to_np(a)
        b = to_np(b)
        if a.shape != b.shape:
            self.fail(msg + f": shape {a.shape} != {b.shape}", got=a,
                      expected=b, **info)
        if a.size == 0:
            return
        same = (a == b)
        with np.errstate(invalid="ignore"):
            err = np.abs(a - b)
            ok = same | (err <= atol + rtol * np.abs(b))
        if not np.all(ok):
            self.fail(msg, got=a, expected=b,
                      maxerr=float(np.max(np.where(same, 0., err))), **info)

    def leq(self, a, b, msg, tol=1e-7, **info):
        a = to_np(a)
        b = to_np(b)
        if not np.all(a <= b + tol):
            self.fail(msg, lhs=a, rhs=b,
                      excess=float(np.max(a - b)), **info)

    def call_raises(self, fn, exc=Exception):
        try:
            fn()
        except exc:
            return True
        return False


def to_np(a):
    if hasattr(a, "detach"):
        a = a.detach().cpu().numpy()
    return np.asarray(a, dtype=float)


def _short(v):
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    if isinstance(v, np.ndarray):
        v = np.array2string(v, precision=8, threshold=40, separator=",")
    s = str(v).replace("\n", " ")
    return s if len(s) < 600 else s[:600] + "..."


def seed_all(s):
    import torch
    random.seed(s)
    np.random.seed(s % 2**32)
    torch.manual_seed(s)


def in_repo(tb):
    """The innermost frame that is either in the code under test or in the
    harness decides; frames of third-party libraries and of the solver
    stand-in below it are charged to the code that called them."""
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        fn = os.path.abspath(f.filename)
        if fn.startswith(PKG):
            return True
        if fn.startswith("/verif/checks/") or fn.startswith("/verif/lib/"):
            return False
    return False


_NOT_REPO = (MemoryError, KeyboardInterrupt, ImportError, OSError)


def run_case(fn, ctx):
    """Runs one case. Returns (kind, message).  A violation is confirmed with
    the solver stand-in in its careful mode."""
    kind, msg = _run_case(fn, ctx)
    grb = sys.modules.get("gurobipy")
    if kind != "violation" or grb is None or grb.CAREFUL:
        return kind, msg
    n = sum(grb.STATS.values())
    again = T(replay=ctx.draws, tier=ctx.tier)
    grb.CAREFUL = True
    try:
        k2, m2 = _run_case(fn, again)
    except HarnessError:
        # another course of draws: the solver's answer made the difference
        k2, m2 = "reject", "solver"
    finally:
        grb.CAREFUL = False
    if k2 == "violation" or sum(grb.STATS.values()) == n:
        return kind, msg
    ctx.labels.append("solver_misjudged")
    if k2 == "known":
        ctx._known = again._known
    return k2, m2


def _run_case(fn, ctx):
    seed_all(12345)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
        return "ok", None
    except _Skip:
        return "known", ctx._known
    except Reject as e:
        return "reject", str(e)
    except Violation as e:
        return "violation", str(e)
    except HarnessError:
        raise
    except _NOT_REPO:
        raise
    except Exception as e:
        mod = type(e).__module__ or ""
        if mod.startswith("hypothesis"):
            raise
        if in_repo(e.__traceback__):
            fr = [f for f in traceback.extract_tb(e.__traceback__)
                  if os.path.abspath(f.filename).startswith(PKG)][-1]
            return "violation", (
                f"the code under test raised {type(e).__name__}: "
                f"{_short(e)} at {os.path.relpath(fr.filename, REPO)} in "
                f"{fr.name}")
        if isinstance(e, AttributeError) and "has no attribute '_" in str(e):
            # an internal helper was renamed: this case cannot be run
            return "reject", str(e)
        fr = [f for f in traceback.extract_tb(e.__traceback__)
              if os.path.abspath(f.filename).startswith("/verif/")][-1:]
        if not fr:
            raise
        # what the code returned does not have the documented form
        return "violation", (
            f"a result of the code under test is not usable: "
            f"{type(e).__name__}: {_short(e)} at "
            f"{os.path.basename(fr[0].filename)}:{fr[0].lineno} "
            f"({fr[0].line})")


def run_job(case_, prop, seed, shard, nex, tier, deadline, verbose=False):
    """Runs the generated cases of one (case, shard). Returns a dict."""
    import hypothesis
    from hypothesis import given, settings, strategies as st, HealthCheck
    from hypothesis import Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 120
    # Hypothesis' mutator copies drawn blocks over each other; with the few
    # thousand cases run here plain random generation is more diverse (ties
    # and zeros come from the coarse grids of floats()).
    eng.ConjectureRunner.generate_mutations_from = lambda self, data: None
    out = dict(case=case_.name, shard=shard, evals=0, rejected=0, known={},
               labels=collections.Counter(), samples=[], nontrivial=set(),
               violation=None, error=None, skipped=0)
    t0 = time.time()
    last = {}

    def body(data):
        if time.time() > deadline and not last:
            out["skipped"] += 1
            return
        ctx = T(data=data, tier=tier)
        kind, msg = run_case(case_.fn, ctx)
        if kind == "reject":
            out["rejected"] += 1
            hypothesis.assume(False)
        out["evals"] += 1
        if kind == "known":
            out["known"][msg] = out["known"].get(msg, 0) + 1
            return
        for s in set(ctx.labels):
            out["labels"][s] += 1
        if ctx._nontrivial:
            h = hashlib.sha1(
                json.dumps(ctx.draws).encode()).hexdigest()[:16]
            out["nontrivial"].add(h)
            if len(out["samples"]) < 2 and kind == "ok":
                out["samples"].append(
                    dict(case=case_.name, notes=ctx.notes,
                         labels=sorted(set(ctx.labels)),
                         draws=_trim(ctx.draws)))
        if kind == "violation":
            last.clear()
            last.update(draws=ctx.draws, msg=msg, labels=ctx.labels)
            raise Violation(msg)

    name_seed = int(hashlib.sha1(
        f"{prop}/{case_.name}/{shard}/{seed}".encode()).hexdigest()[:12], 16)
    test = hypothesis.seed(name_seed)(settings(
        max_examples=nex, deadline=None, database=None,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        print_blob=False)(given(st.data())(body)))
    try:
        import io
        import contextlib
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink), \
                contextlib.redirect_stderr(sink), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            test()
    except Violation:
        pass
    except BaseException as e:
        if not last:
            out["error"] = "".join(
                traceback.format_exception(type(e), e,
                                           e.__traceback__))[-6000:]
    if last:
        out["violation"] = dict(last)
    out["nontrivial"] = list(out["nontrivial"])
    out["labels"] = dict(out["labels"])
    out["wall"] = time.time() - t0
    return out


def _trim(d):
    s = json.dumps(d)
    return d if len(s) < 1500 else s[:1500] + "..."


def replay(case_, draws):
    ctx = T(replay=draws)
    return run_case(case_.fn, ctx) + (ctx, )
