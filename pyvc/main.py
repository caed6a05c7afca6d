#!/usr/bin/env python3
"""Discharge every obligation of one property on the current source: main.py S03 --tier quick --out J --limit SECONDS

Every unit of contracts/ tagged with the property is executed symbolically against the source files of
the repository as they are now; its obligations are discharged one by one.  Units run in separate
processes, each with its own time limit; a unit that does not finish is reported undecided.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, os.path.join(ROOT, "contracts")]
sys.setrecursionlimit(30000)

import spec  # noqa: E402

TRUSTED = [
    "pyvc: this directory's symbolic executor for the python subset used by the package, its loop summaries, simplifier and prover",
    "pyvc/npmod.py, pyvc/npfuncs.py: assumed contracts of numpy, scipy, numba (jit = identity) and the python library functions the code calls",
    "mathematical facts about the special functions (Legendre recurrences and derivative, Wigner D, Lambert W) named in DESIGN.md",
]


def load():
    d = os.path.join(ROOT, "contracts")
    for f in sorted(os.listdir(d)):
        if f.startswith("c_") and f.endswith(".py"):
            importlib.import_module(f[:-3])


def work(job):
    i, tier, limit = job
    u = spec.UNITS[i]
    try:
        v, info = spec.run_unit(REPO, u, tier, limit)
        return i, v.obs, info
    except BaseException:
        return i, [{"unit": u.name, "name": "unit completes", "status": "unknown", "detail": traceback.format_exc()[-500:],
                    "props": list(u.props), "hints": []}], {"error": "crash", "seconds": 0.0, "inlined": [], "used": []}


def child(job, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import threading
    threading.stack_size(512 << 20)
    box = []
    th = threading.Thread(target=lambda: box.append(work(job)))
    th.start()
    th.join()
    conn.send(box[0] if box else None)
    conn.close()


def run_all(jobs, workers, hard):
    """one process per unit, at most `workers` at a time"""
    out = {}
    pending, live = list(jobs), []
    while pending or live:
        while pending and len(live) < workers:
            j = pending.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(j, b))
            p.start()
            b.close()
            live.append((p, a, j, time.time()))
        for item in list(live):
            p, a, j, t = item
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = None
                p.join(5)
                live.remove(item)
            elif not p.is_alive():
                live.remove(item)
            elif time.time() - t > j[2] * 1.5 + 20 or time.time() > hard:
                p.kill()
                live.remove(item)
            else:
                continue
            if got is None:
                u = spec.UNITS[j[0]]
                got = (j[0], [{"unit": u.name, "name": "unit completes", "status": "unknown", "detail": "engine process ended or ran out of time or memory",
                               "props": list(u.props), "hints": []}], {"error": "killed", "seconds": time.time() - t, "inlined": [], "used": []})
            out[got[0]] = got
        if time.time() > hard and pending:
            for j in pending:
                u = spec.UNITS[j[0]]
                out[j[0]] = (j[0], [{"unit": u.name, "name": "unit completes", "status": "unknown", "detail": "no time left", "props": list(u.props), "hints": []}],
                             {"error": "no time", "seconds": 0.0, "inlined": [], "used": []})
            pending = []
    return [out[k] for k in sorted(out)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--limit", type=float, default=240)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    load()
    mine = sorted((i for i, u in enumerate(spec.UNITS) if a.prop in u.props), key=lambda i: -spec.UNITS[i].cost)
    per = min(a.limit * 0.8, 150 if a.tier == "quick" else 300)
    workers = max(2, min(8, os.cpu_count() or 4))
    res = run_all([(i, a.tier, per) for i in mine], workers, t0 + a.limit)
    obs, funcs, assumptions, names, hints = [], set(), set(), [], []
    solver, errors, bounded, used, canaries = 0.0, [], [], set(), 0
    for i, o, info in res:
        u = spec.UNITS[i]
        funcs.update(u.funcs)
        funcs.update(info["inlined"])
        used.update(info["used"])
        assumptions.update(info.get("assumptions", ()))
        solver += info["seconds"]
        canaries += info.get("canary", 0)
        if u.bounded:
            bounded.append("%s: %s" % (u.name, u.bounded))
        for x in o:
            if a.prop in x["props"]:
                obs.append(x)
    for x in obs:
        if a.v:
            print(x["status"], x["unit"], "/", x["name"], "|", x["detail"][:300])
        if x["status"] == "refuted":
            for h in x["hints"]:
                if h not in hints:
                    hints.append(h)
    n = {s: sum(1 for x in obs if x["status"] == s) for s in ("proved", "refuted", "unknown")}
    rep = {
        "status": "refuted" if n["refuted"] else ("proved" if obs and not n["unknown"] else ("undecided" if obs else "none")),
        "obligations": len(obs), "discharged": n["proved"],
        "functions": sorted({f.removeprefix("starwinds_magnetogram.") for f in funcs if f}),
        "undecided": ["%s / %s: %s" % (x["unit"], x["name"], x["detail"]) for x in obs if x["status"] == "unknown"],
        "refuted": ["%s / %s: %s" % (x["unit"], x["name"], x["detail"]) for x in obs if x["status"] == "refuted"],
        "hints": hints[:40], "trusted_base": TRUSTED + ["assumed contract: " + c for c in sorted(used)],
        "bounded": bounded,
        "backends": {"pyvc prover: case analysis and quantifier instances to z3 (boolean, integer and linear facts), normal forms of real/complex algebra and indexed sums, numeric cross-check and counter-model search": n["proved"]},
        "solver_s": round(solver, 2), "canaries": canaries,
        "names": sorted({"%s / %s" % (x["unit"], x["name"]) for x in obs})[:400],
        "assumptions": sorted(assumptions), "detail": "", "wall_s": round(time.time() - t0, 2),
    }
    if a.out:
        json.dump(rep, open(a.out, "w"), indent=1, default=str)
    print("%s: %s  %s  %.1f s" % (a.prop, rep["status"], n, rep["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
