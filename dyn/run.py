"""Runner:  /opt/venv/bin/python dyn/run.py PROPERTY --seed S --budget SECONDS [--out J] | --replay FILE
Runs the run-time contract of one property on the real code; prints a JSON report."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import zlib
import logging

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
logging.disable(logging.CRITICAL)


def load():
    import common
    errs = []
    for f in sorted(os.listdir(HERE)):
        if f.startswith("o_") and f.endswith(".py"):
            try:
                importlib.import_module(f[:-3])
            except Exception:
                errs.append((f, traceback.format_exc()))
    return common, errs


def rng_for(common, prop, clause, seed, k):
    return common.np.random.default_rng([seed, k, zlib.crc32((prop + "/" + clause).encode())])


LAST_RNG = [0]


def run_case(common, prop, name, fn, seed, k, D):
    import contextlib, io
    rng = rng_for(common, prop, name, seed, k)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            fn(rng, k, D)
        LAST_RNG[0] = int(rng.integers(1 << 62))
        return None
    except common.Violation as e:
        return {"clause": name, "case": k, "seed": seed, "message": str(e),
                "data": {a: repr(b)[:800] for a, b in e.data.items()}}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "starwinds_magnetogram" in f.filename]
        text = traceback.format_exc()
        if where or isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NameError,
                                   ZeroDivisionError)):
            return {"clause": name, "case": k, "seed": seed, "message": "the code failed on a valid input: %r" % e,
                    "data": {"traceback": text[-1800:]}}
        raise


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--min-cases", type=int, default=6)
    ap.add_argument("--out")
    ap.add_argument("--clause")
    ap.add_argument("--case", type=int)
    ap.add_argument("--hints", default="")
    a = ap.parse_args()
    common, errs = load()
    if a.prop not in common.CLAUSES:
        print("no clauses for", a.prop, errs)
        rep = {"property": a.prop, "cases": 0, "failures": [], "load_errors": errs, "clauses": []}
        if errs:
            rep["failures"].append({"clause": "import", "case": 0, "seed": a.seed,
                                    "message": "the package cannot be imported", "data": {"traceback": errs[0][1][-1500:]}})
        if a.out:
            json.dump(rep, open(a.out, "w"))
        return 3
    D = common.Dictionary()
    D.hint([int(float(h)) for h in a.hints.split(",") if h])
    cl = common.CLAUSES[a.prop]
    if a.case is not None:
        for name, fn, w in cl:
            if name == a.clause:
                r = run_case(common, a.prop, name, fn, a.seed, a.case, D)
                print(json.dumps(r, indent=1))
                return 1 if r else 0
    t0 = time.time()
    tot = sum(w for _, _, w in cl)
    counts, failures = {}, []
    digests, samples = set(), []
    for name, fn, w in cl:
        if a.clause and name != a.clause:
            continue
        t1 = time.time()
        share = a.budget * w / tot
        k = 0
        while k < a.min_cases or time.time() - t1 < share:
            if time.time() - t0 > a.budget * 3 + 60 and k >= 2:
                break
            common.TRACE.clear()
            r = run_case(common, a.prop, name, fn, a.seed, k, D)
            if common.TRACE:
                common.TRACE.append(("draws", LAST_RNG[0]))
                digests.add((name, tuple(common.TRACE)))
            if k < 2:
                samples.append({"clause": name, "case": k, "seed": a.seed, "comparisons": len(common.TRACE),
                                "compared": [t[0] for t in common.TRACE[:4]]})
            k += 1
            if r:
                failures.append(r)
                break
        counts[name] = k
    rep = {"property": a.prop, "cases": sum(counts.values()), "clauses": counts, "failures": failures,
           "distinct": len(digests), "samples": samples[:12], "wall_s": time.time() - t0, "load_errors": errs}
    if a.out:
        json.dump(rep, open(a.out, "w"), indent=1)
    print(json.dumps(rep, indent=1)[:4000])
    return 1 if failures else 0


if __name__ == "__main__":
    sys.exit(main())
