#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--case NAME] [--scale X]
   run.py --replay FILE

Runs the generated-input checks of one property against /repo's working tree.
Exit 0: held on everything explored.  1: VIOLATION line.  2: harness error.
"""
import os
import sys

_ENV = {
    "HOME": "/root", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "WANDB_MODE": "offline",
    "CUDA_VISIBLE_DEVICES": "", "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in _ENV.items()) or \
        os.path.realpath(sys.executable) != os.path.realpath(PY) or \
        not sys.prefix.startswith("/opt/venv"):
    if os.environ.get("VF_REEXEC") == "1":
        sys.exit("run.py: cannot set up the environment")
    os.environ.update(_ENV)
    os.environ["VF_REEXEC"] = "1"
    os.environ.pop("PYTHONPATH", None)
    os.execv(PY, [PY] + sys.argv)

import argparse
import glob
import importlib
import json
import multiprocessing as mp
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, "shim"), os.path.join(VERIF, "lib"),
                os.path.join(VERIF, "checks"), "/repo"]
# Hypothesis comes from the preinstalled tooling venv (same interpreter
# version); it is put last so the libraries of /opt/venv win.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def load(prop):
    files = glob.glob(os.path.join(VERIF, "checks", prop.lower() + "_*.py"))
    if len(files) != 1:
        sys.exit(f"no check module for {prop}")
    return importlib.import_module(os.path.basename(files[0])[:-3])


def _worker(conn, mod, case_, prop, seed, shard, nex, tier, deadline):
    import pbt
    try:
        r = pbt.run_job(case_, prop, seed, shard, nex, tier, deadline)
    except BaseException:
        r = dict(case=case_.name, shard=shard, evals=0, rejected=0, known={},
                 labels={}, samples=[], nontrivial=[], violation=None,
                 error=traceback.format_exc()[-6000:], skipped=0, wall=0.)
    try:
        conn.send(r)
        conn.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


def known_lines(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith(f"KNOWN-FINDING: property={prop} "):
                res.append(line.rstrip("\n"))
    return res


def do_replay(path):
    import pbt
    d = json.load(open(path))
    mod = load(d["property"])
    c = [c for c in mod.CASES if c.name == d["case"]][0]
    kind, msg, ctx = pbt.replay(c, d["draws"])
    print(f"replay of {d['property']}/{d['case']}: {kind} {msg or ''}")
    print("notes:", json.dumps(ctx.notes, default=str)[:2000])
    return 1 if kind == "violation" else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--case")
    ap.add_argument("--scale", type=float, default=1.)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(do_replay(a.replay))
    prop = a.property
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    # the code under test writes tensorboard/wandb files relative to the cwd
    # and to HOME: keep them in a scratch directory
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix="vf_")
    os.chdir(scratch)
    os.environ["WANDB_DIR"] = scratch
    try:
        code = _main(a, prop, tier, seed, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def _main(a, prop, tier, seed, t0):
    import pbt
    import torch
    torch.set_num_threads(1)
    try:
        mod = load(prop)
    except SystemExit:
        raise
    except BaseException as e:
        # the module of the check imports the code under test; if that fails
        # inside /repo the property cannot hold, but it is not a generated
        # counterexample: report it as an error
        traceback.print_exc()
        return 2
    cases = [c for c in mod.CASES if not a.case or c.name == a.case]
    budget = a.budget or getattr(
        mod, "BUDGET", {"quick": 500, "thorough": 3000})[tier]
    deadline = t0 + budget
    ncpu = a.jobs or min(8, os.cpu_count() or 1)
    jobs = []
    nex = {}
    crashes = 0
    for c in cases:
        n = c.quick if tier == "quick" else c.thorough
        n = max(1, int(n * a.scale))
        sh = c.shards if tier == "quick" else max(
            c.shards, min(8, max(1, n // 200)))
        sh = min(sh, n)
        for s in range(sh):
            jobs.append((c, s, (n + sh - 1) // sh))
            nex[c.name, s] = (n + sh - 1) // sh
    # every case gets its first shard before any case gets its second one
    jobs.sort(key=lambda j: (j[1] > 0, -j[0].weight * j[2]))
    ctx = mp.get_context("fork")
    running = []
    results = []
    violated = False
    while jobs or running:
        while jobs and len(running) < ncpu and not violated:
            c, s, n = jobs.pop(0)
            pr, pw = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(pw, mod, c, prop, seed, s,
                                                  n, tier, deadline))
            p.start()
            pw.close()
            running.append((p, pr, c, s, time.time()))
        ready = mp.connection.wait([r[1] for r in running], timeout=5) \
            if running else []
        for r in list(running):
            p, pr, c, s, ts = r
            if pr in ready:
                try:
                    res = pr.recv()
                except EOFError:
                    if s < 2000:
                        # the solver crashed (a fault inside HiGHS): draw
                        # other programs instead
                        p.join()
                        running.remove(r)
                        jobs.insert(0, (c, s + 1000, nex[c.name, s % 1000]))
                        crashes += 1
                        continue
                    res = dict(case=c.name, shard=s, evals=0, rejected=0,
                               known={}, labels={}, samples=[],
                               nontrivial=[], violation=None, skipped=0,
                               error="worker died", wall=0.)
                p.join()
                running.remove(r)
                results.append(res)
                if a.v:
                    print(f"# {res['case']}[{res['shard']}] "
                          f"evals={res['evals']} "
                          f"nontriv={len(res['nontrivial'])} "
                          f"rej={res['rejected']} skip={res['skipped']} "
                          f"{res['wall']:.1f}s labels={res['labels']} "
                          f"known={res['known']}", flush=True)
                if res["violation"]:
                    violated = True
        if violated:
            for p, pr, c, s, ts in running:
                p.kill()
                p.join()
            running = []
            jobs = []
            break
    evals = sum(r["evals"] for r in results)
    nontriv = len(set((r["case"], h) for r in results
                      for h in r["nontrivial"]))
    labels = {}
    percase = {}
    for r in results:
        for k, v in r["labels"].items():
            kk = f"{r['case']}:{k}"
            labels[kk] = labels.get(kk, 0) + v
        pc = percase.setdefault(r["case"], dict(evaluations=0, nontrivial=0,
                                                rejected=0, known=0,
                                                not_run_budget=0))
        pc["evaluations"] += r["evals"]
        pc["nontrivial"] += len(r["nontrivial"])
        pc["rejected"] += r["rejected"]
        pc["known"] += sum(r["known"].values())
        pc["not_run_budget"] += r["skipped"]
    viol = [r for r in results if r["violation"]]
    errs = [r for r in results if r["error"]]
    samples = []
    seen = set()
    for r in results:
        if r["case"] not in seen and r["samples"]:
            samples += r["samples"][:1]
            seen.add(r["case"])
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=evals, distinct_nontrivial=nontriv,
                  rule=getattr(mod, "RULE", ""), samples=samples[:12],
                  per_case=percase, classes=labels),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              solver_crashes=crashes,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not a.case:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: tier={tier} seed={seed} evaluations={evals} "
          f"nontrivial={nontriv} wall={ev['wall_s']}s")
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for r in viol:
            v = r["violation"]
            path = os.path.join(VERIF, "replays",
                                f"{prop}-{r['case']}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, case=r["case"], seed=seed,
                               message=v["msg"], draws=v["draws"]), f)
            print(f"{prop}/{r['case']}: {v['msg']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        for r in errs:
            print(f"HARNESS ERROR in {prop}/{r['case']}\n{r['error']}",
                  file=sys.stderr)
        return 2
    for line in known_lines(prop):
        print(line)
    if any(pc["evaluations"] == 0 for pc in percase.values()):
        print(f"{prop}: a case was never run", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    import multiprocessing.connection
    main()
