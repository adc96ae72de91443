#!/opt/venv/bin/python
"""Decide one property on the current working tree of the repository: run.py ID [--tier quick|thorough]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse
import importlib
import json
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True


def replay_batch(prop, tier, items, timeout=240):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump({"property": prop, "tier": tier, "items": items}, f)
    try:
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), "--batch", f.name], capture_output=True,
                           text=True, timeout=timeout, env=env)
        for line in p.stdout.splitlines():
            if line.startswith("REPLAY-JSON "):
                return json.loads(line[12:])
        return [{"violations": [], "error": "replay failed: " + p.stderr[-800:], "aborted": True}] * len(items)
    except subprocess.TimeoutExpired:
        return [{"violations": [], "error": "replay timed out", "aborted": True}] * len(items)
    finally:
        os.unlink(f.name)


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) case=(\S+) label=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"case": m.group(2), "label": m.group(3), "what": m.group(4)})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 also when something was left undecided")
    ap.add_argument("--all", action="store_true", help="do not stop at the first confirmed violation")
    a = ap.parse_args()
    t0 = time.time()
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    scratch = tempfile.mkdtemp(prefix="sx_run_")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        return decide(a, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, t0, scratch):
    from engine import shims, explore
    prop, tier = a.prop, a.tier
    try:
        shims.import_repo(True)
    except Exception as e:
        print("ERROR: the repository does not import: %s: %s" % (type(e).__name__, e))
        return 2
    mod = importlib.import_module("props." + prop)
    cases = mod.cases(tier)
    if a.case:
        cases = [c for c in cases if re.search(a.case, c["name"])]
    assert len({c["name"] for c in cases}) == len(cases)
    budget = a.budget or (getattr(mod, "BUDGET", {}).get(tier) or (700 if tier == "quick" else 3 * 3600))
    known = known_findings(prop)
    confirmed, unconfirmed, knownhits = [], [], {}
    tries = {}

    def on_violation(v):
        key = (v["case"], v["label"])
        for k in known:
            if k["case"] == v["case"] and k["label"] == v["label"]:
                if key not in knownhits and v["inputs"]:
                    r = replay_batch(prop, tier, [{"case": v["case"], "inputs": i, "label": v["label"],
                                                   "modes": ["float", "fraction"]} for i in v["inputs"]])
                    if any(v["label"] in x["violations"] for x in r):
                        knownhits[key] = k
                    else:
                        unconfirmed.append((v, r))
                return False
        tries[key] = tries.get(key, 0) + 1
        if any((c["case"], c["label"]) == key for c in confirmed):
            return False
        if tries[key] > 6:
            return False
        items = [{"case": v["case"], "inputs": i, "label": v["label"], "modes": ["float", "fraction"]}
                 for i in v["inputs"]]
        if not items:
            unconfirmed.append((v, "no inputs"))
            return False
        rs = replay_batch(prop, tier, items)
        for it, r in zip(items, rs):
            if v["label"] in r["violations"]:
                c = {"property": prop, "tier": tier, "case": v["case"], "label": v["label"], "inputs": it["inputs"],
                     "mode": r.get("mode", "float"), "error": r.get("error"), "formula": v.get("formula"),
                     "exc": v.get("exc")}
                confirmed.append(c)
                return not a.all
        unconfirmed.append((v, rs))
        return False

    res = explore.explore(cases, jobs=a.jobs, deadline=t0 + budget, on_violation=on_violation)
    inconclusive = []
    if res["errors"]:
        inconclusive.append("errors: " + "; ".join(sorted(set(res["errors"]))[:5]))
    if res["unknown"]:
        inconclusive.append("undecided obligations: %s" % res["unknown"][:5])
    if res["stopped"]:
        inconclusive.append("stopped by %s with %d tasks left" % (res["stopped"], res["left"]))
    if unconfirmed:
        inconclusive.append("counterexamples that did not reproduce: %s" % [
            (v["case"], v["label"], v.get("exc"), v["inputs"][:1], r if isinstance(r, str) else
             [(x["violations"], (x["error"] or "")[-300:]) for x in r][:2]) for v, r in unconfirmed[:4]])
    if not confirmed:
        for c in cases:
            miss = set(c.get("covers", ())) - res["covers"][c["name"]]
            if miss:
                inconclusive.append("vacuous: case %s never reached %s" % (c["name"], sorted(miss)))
    # witnesses: models of explored paths run concretely on the unshimmed code
    wit = res["witnesses"][:40]
    wres = replay_batch(prop, tier, [{"case": c, "inputs": i, "label": None} for c, i in wit]) if wit and not confirmed \
        else []
    wok = sum(1 for r in wres if not r["aborted"] and not r["violations"])
    wbad = [(wit[i], r) for i, r in enumerate(wres) if r["violations"] or r["aborted"]]
    ev = evidence(mod, prop, tier, a, t0, cases, res, confirmed, wit, wok, wbad, knownhits, inconclusive)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.case:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    cov = ev["coverage"]
    print("%s %s: %d cases, %d paths (%d dropped by assumptions), %d branches, %d obligations (%d by normalisation, %d "
          "by the solver), %d queries (%d cached), solver %.1fs, %d witnesses replayed, wall %.1fs" % (
              prop, tier, len(cases), res["paths"], res["aborted"], res["branches"], res["obl"], res["trivial"],
              res["solved"], cov["solver_queries"], cov["solver_cached"], cov["solver_seconds"], wok, ev["wall_s"]))
    if a.v:
        for k, n in res["per_case"].most_common(40):
            print("   %-40s %d paths" % (k, n))
        print("   flags", dict(res["flags"]))
        for w in wbad[:5]:
            print("   witness mismatch", w)
    for key, k in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for i, c in enumerate(confirmed):
        path = os.path.join(HERE, "evidence", "replay_%s%s.json" % (prop, "" if i == 0 else "_%d" % i))
        with open(path, "w") as f:
            json.dump(c, f, indent=1)
        print("counterexample: case=%s label=%s inputs=%s%s" % (c["case"], c["label"], json.dumps(c["inputs"])[:1500],
                                                               " error=%s" % c["error"] if c["error"] else ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if confirmed:
        return 1
    for m in inconclusive:
        print("INCONCLUSIVE: " + m)
    if inconclusive and (a.strict or any(m.startswith(("errors", "vacuous")) for m in inconclusive)):
        return 2
    return 0  # held on everything explored; anything left undecided is listed above and in the evidence


def evidence(mod, prop, tier, a, t0, cases, res, confirmed, wit, wok, wbad, knownhits, inconclusive):
    s = res["solver"]
    lines = {}
    for (fn, q), ls in res["lines"].items():
        if q == "<module>" or q.endswith(">") and "lambda" not in q and "locals" not in q:
            continue
        lines["%s:%s" % (fn, q)] = len(ls)
    return {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": res["paths"], "transitions": res["decisions"],
            "traces_validated_against_impl": wok,
            "witness_mismatches": [str(w)[:300] for w in wbad[:5]],
            "samples": [{"case": c, "inputs": {k: str(v)[:60] for k, v in list(i.items())[:24]}} for c, i in wit[:4]] or [
                {"case": c["case"], "inputs": c["inputs"]} for c in confirmed[:2]],
            "exhaustive": not inconclusive and not confirmed and "concretised" not in res["flags"],
            "explanation": "states = symbolic paths of the real code, transitions = branch decisions on them; every "
                           "obligation on every path was submitted under its full path condition",
            "cases": len(cases), "bounds": getattr(mod, "BOUNDS", ""),
            "paths_dropped_by_assumptions": res["aborted"], "branch_points_both_sides": res["branches"],
            "obligations": res["obl"], "discharged_by_normalisation": res["trivial"],
            "discharged_by_solver": res["solved"] - res["bounds_only"],
            "discharged_by_interval_and_sign_reasoning_only": res["bounds_only"],
            "solver_queries": s.get("queries", 0), "solver_cached": s.get("cached", 0),
            "solver_unsat": s.get("unsat", 0), "solver_sat": s.get("sat", 0), "solver_unknown": s.get("unknown", 0),
            "solver_nonlinear": s.get("nonlinear", 0), "solver_seconds": round(s.get("time", 0.0), 2),
            "solver_max_query_seconds": round(s.get("max", 0.0), 2),
            "branches_undecided_explored_both_ways": res["unknown_branches"],
            "approximations_hit": {k: v for k, v in res["flags"].items()},
            "functions_encoded": dict(sorted(lines.items())[:120]),
            "inconclusive": inconclusive[:5],
            "known_findings": [k["what"] for k in knownhits.values()],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }


COMMON = [
    "numbers are exact rationals/reals, not IEEE doubles: equalities are claimed up to the stated tolerance and rounding "
    "effects are outside the claim",
    "trusted: the executor in /verif/engine, z3/cvc5, CPython; matplotlib and logging are stubbed",
]

if __name__ == "__main__":
    sys.exit(main())
