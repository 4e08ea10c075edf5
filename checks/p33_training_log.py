# TECHNIQUE: property-based testing (Hypothesis), model-based: random histories of additions and copies on several logs, compared after every step with plain lists, with a recording writer
"""P33 Training logs."""
import numpy as np
import torch

from pbt import case
from neural_network_lyapunov.training_log import TrainingLog

PROPERTY = "P33"
SCALE = 5
RULE = "the history adds at least two losses and copies a log"
ASSUMPTIONS = ["the summary writer is a recording object, except for copies "
               "without their writer, which open a new writer in a scratch "
               "directory"]


class Writer:
    def __init__(self):
        self.calls = []

    def add_scalars(self, tag, values, step=None, *a, **k):
        self.calls.append((tag, dict(values), int(step)))


class Model:
    def __init__(self, n, prefix, first, writer):
        self.n, self.prefix, self.first = n, prefix, first
        self.train, self.validation = [], []
        self.writer = writer


def agree(T, log, m, what):
    for name in ("train", "validation"):
        got = np.asarray(getattr(log, name + "_losses"), dtype=float)
        e = np.array(getattr(m, name)).reshape((-1, m.n))
        T.check(got.shape == e.shape, f"{what}: shape of the {name} losses",
                got=got.shape, expected=e.shape)
        T.close(got, e, f"{what}: {name} losses", 0, 0)
    T.check(log.prefix == m.prefix and log.loss_dim == m.n and
            bool(log.first_value_only) == m.first, f"{what}: settings")


@case(quick=300, thorough=10000, large=20)
def history(T):
    import training_scratch
    n = T.int(1, 4)
    logs = []
    calls = {}          # id(writer) -> expected calls

    def fresh():
        w = Writer()
        calls[id(w)] = (w, [])
        p = T.choice(("", "a", "net/1"))
        first = T.bool()
        logs.append((TrainingLog(n, prefix=p, writer=w,
                                 first_value_only=first),
                     Model(n, p, first, w)))
    fresh()
    ops = []
    for step in range(T.span(1, 12, 20, 150)):
        op = T.choice(("train", "train", "validation", "copy", "new"))
        k = T.int(0, len(logs) - 1)
        log, m = logs[k]
        ops.append((op, k))
        if op == "new":
            if len(logs) < 4:
                fresh()
            continue
        if op == "copy":
            if len(logs) > 4:
                continue
            kw = {}
            if T.bool():
                kw["prefix"] = T.choice(("", "b", "c"))
            if T.bool():
                kw["first_value_only"] = T.bool()
            kw["keep_writer"] = T.int(0, 3) > 0
            with training_scratch.directory():
                c = TrainingLog.get_copy(log, **kw)
            if kw["keep_writer"]:
                T.check(c.writer is log.writer, "the writer is not kept")
            else:
                T.check(c.writer is not log.writer, "the writer is shared")
                if hasattr(c.writer, "close"):
                    c.writer.close()
                c.writer = Writer()
                calls[id(c.writer)] = (c.writer, [])
            q = Model(n, kw.get("prefix", m.prefix),
                      kw.get("first_value_only", m.first), c.writer)
            q.train = [list(r) for r in m.train]
            q.validation = [list(r) for r in m.validation]
            logs.append((c, q))
        else:
            v = T.array((n, ), -3., 3.)
            loss = torch.from_numpy(v.copy()) if T.bool() else v.copy()
            (log.add_train_loss if op == "train" else
             log.add_validation_loss)(loss)
            getattr(m, op).append(list(v))
            T.check(np.array_equal(np.asarray(loss), v),
                    "the argument was changed")
            tag = "Train" if op == "train" else "Validation"
            for i in range(1 if m.first else n):
                calls[id(m.writer)][1].append(
                    (tag if m.first else f"{tag}_{i}", {m.prefix: v[i]},
                     len(m.train)))
        for i, (a, b) in enumerate(logs):
            agree(T, a, b, f"log {i} after {op} on log {k}")
        for w, e in calls.values():
            T.check(w.calls == e, "the writer received other values",
                    got=w.calls[-3:], expected=e[-3:], step=step)
    T.note(ops=ops)
    T.nontrivial(sum(o in ("train", "validation") for o, _ in ops) > 1 and
                 any(o == "copy" for o, _ in ops))
    T.label(f"logs={len(logs)}")
