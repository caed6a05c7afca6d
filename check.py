#!/usr/bin/env python3
"""Decide one property:  check.py S07 [--tier quick|thorough] [--seed N]

1. the deductive engine (pyvc) regenerates every obligation of the property from /repo's current
   source and discharges it;
2. the run-time contracts (dyn) evaluate the same property on the real code: the replay of
   counterexamples, the cross-check of the engine, and the bounded stand-in for what the engine
   cannot reach.

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line on stdout.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
PYVT = "python3-vt"
QUICK = {"dyn": 12.0, "pyvc": 240}
THOROUGH = {"dyn": 150.0, "pyvc": 500}


def env():
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
             VERIF_REPO=REPO, SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0")
    e.pop("PYTHONPATH", None)
    if "MPLCONFIGDIR" not in e:
        e["MPLCONFIGDIR"] = "/opt/vp/mplconfig" if os.path.isdir("/opt/vp/mplconfig") else "/tmp"
    return e


def run_dyn(prop, seed, budget, out, hints=None):
    cmd = [PY, os.path.join(HERE, "dyn", "run.py"), prop, "--seed", str(seed), "--budget", str(budget), "--out", out]
    if hints:
        cmd += ["--hints", ",".join(str(h) for h in hints)]
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=budget * 4 + 240)
        tail, rc = p.stdout[-3000:], p.returncode
    except subprocess.TimeoutExpired as ex:
        tail, rc = "timeout", None
    try:
        rep = json.load(open(out))
    except Exception:
        rep = None
    return rc, rep, tail


def run_pyvc(prop, seed, tier, limit, out):
    if not os.path.exists(os.path.join(HERE, "pyvc", "main.py")):
        return None
    cmd = [PYVT, os.path.join(HERE, "pyvc", "main.py"), prop, "--seed", str(seed), "--tier", tier, "--out", out,
           "--limit", str(limit)]
    e = env()
    e["PYTHONHASHSEED"] = "0"
    try:
        p = subprocess.run(cmd, cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=limit + 60)
        tail = p.stdout[-3000:]
    except subprocess.TimeoutExpired:
        tail = "timeout"
    except Exception as ex:
        tail = repr(ex)
    try:
        return json.load(open(out))
    except Exception:
        return {"status": "error", "detail": tail, "units": [], "obligations": 0, "discharged": 0}


def known_findings():
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = dict(x.split("=", 1) for x in line[len("finding:"):].split(None, 2)[:2])
                found.append((parts.get("property"), parts.get("clause"), line))
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    conf = THOROUGH if tier == "thorough" else QUICK
    for d in ("evidence", "replay"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    t0 = time.time()
    tmp = os.path.join(HERE, "replay", "." + prop)
    for suffix in (".vc.json", ".dyn.json"):
        if os.path.exists(tmp + suffix):
            os.remove(tmp + suffix)

    vc = run_pyvc(prop, seed, tier, conf["pyvc"], tmp + ".vc.json")
    hints = (vc or {}).get("hints") or []
    rc, dyn, dyn_tail = run_dyn(prop, seed, conf["dyn"], tmp + ".dyn.json", hints)
    failures = list((dyn or {}).get("failures") or [])
    if not failures and vc and vc.get("refuted"):
        # the engine refuted an obligation: search longer for a failing input before reporting
        rc2, dyn2, _ = run_dyn(prop, seed + 1000, max(40.0, 2 * conf["dyn"]), tmp + ".dyn2.json", hints)
        failures = list((dyn2 or {}).get("failures") or [])
        if os.path.exists(tmp + ".dyn2.json"):
            os.remove(tmp + ".dyn2.json")

    known = [k for k in known_findings() if k[0] == prop]
    reported = []
    for f in failures:
        hit = [k for k in known if k[1] == f["clause"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
        else:
            reported.append(f)
    vc_refuted = list((vc or {}).get("refuted") or [])

    violation, note = None, ""
    if reported:
        violation = {"property": prop, "kind": "run-time contract failed on the real code", "failures": reported,
                     "reproduce": "cd /verif && %s dyn/run.py %s --clause '%s' --case %d --seed %d" % (
                         PY, prop, reported[0]["clause"], reported[0]["case"], reported[0]["seed"]),
                     "failed_obligations": vc_refuted}
    elif vc_refuted:
        violation = {"property": prop, "kind": "obligation refuted by the verifier", "failed_obligations": vc_refuted}
        note = " no-failing-input-found"

    write_evidence(prop, tier, seed, vc, dyn, dyn_tail, t0, 1 if violation else 0)
    for suffix in (".vc.json", ".dyn.json"):
        if os.path.exists(tmp + suffix):
            os.remove(tmp + suffix)
    if dyn is None and not violation:
        print("run-time contracts gave no report:", dyn_tail)
    if vc:
        print("%s: obligations %s, discharged %s, functions under contract %s, undecided %s" % (
            prop, vc.get("obligations"), vc.get("discharged"), len(vc.get("functions") or []), len(vc.get("undecided") or [])))
        for u in (vc.get("undecided") or [])[:10]:
            print("  undecided (bounded stand-in):", str(u)[:300])
    if dyn:
        print("%s: run-time contract cases %s, failures %d, %.1f s" % (prop, dyn.get("cases"), len(failures), time.time() - t0))
    if violation:
        path = os.path.join("replay", prop + ".json")
        json.dump(violation, open(os.path.join(HERE, path), "w"), indent=1, default=str)
        for f in reported[:3]:
            print("  failed:", f["clause"], "case", f["case"], f["message"][:300])
        for f in vc_refuted[:3]:
            print("  refuted:", str(f)[:400])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, note))
        return 1
    return 0


def level_of(prop):
    try:
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "exploration"


def write_evidence(prop, tier, seed, vc, dyn, dyn_tail, t0, nviol):
    level = level_of(prop)
    cases = int((dyn or {}).get("cases") or 0)
    cov = {
        "evaluations": cases,
        "distinct_nontrivial": int((dyn or {}).get("distinct", 0)),
        "rule": "each case draws fresh random arguments for one clause of the run-time contract and runs the real "
                "code on them; a case counts as distinct and non-trivial when the digest of its random draws differs "
                "from every other case of its clause and the clause evaluated at least one comparison",
        "samples": (dyn or {}).get("samples") or [],
        "clauses": (dyn or {}).get("clauses") or {},
    }
    assumptions = ["machine arithmetic treated as mathematical (real and unbounded integer) arithmetic in the proofs"]
    if vc:
        cov.update({
            "obligations": int(vc.get("obligations") or 0),
            "discharged": int(vc.get("discharged") or 0),
            "checker_cmd": "python3-vt pyvc/main.py %s --seed %d --tier %s" % (prop, seed, tier),
            "trusted_base": vc.get("trusted_base") or [],
            "functions_under_contract": vc.get("functions") or [],
            "bounded_only": vc.get("bounded") or [],
            "undecided": vc.get("undecided") or [],
            "back_ends": vc.get("backends") or {},
            "solver_seconds": vc.get("solver_s"),
            "canaries": vc.get("canaries"),
            "obligation_names": vc.get("names") or [],
            "engine_status": vc.get("status"),
        })
        if vc.get("detail"):
            cov["engine_detail"] = str(vc["detail"])[-1500:]
        assumptions += vc.get("assumptions") or []
    else:
        cov.update({"explanation": "bounded: run-time contracts on sampled inputs only"})
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - t0, 2), "violations": nviol},
              open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
