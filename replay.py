#!/opt/venv/bin/python
"""Replay concrete inputs against the real, unshimmed code of the repository.

  replay.py FILE.json          one counterexample: exit 1 and REPRODUCED when the violation shows, 0 otherwise
  replay.py --batch FILE.json  {"property","tier","items":[{"case","inputs","label"|null}]} -> JSON list on stdout
"""
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True


def run_one(case, inputs, mode):
    from engine.ctx import ConcCtx
    from engine.sym import Abort
    ctx = ConcCtx(inputs, mode)
    err = None
    try:
        case["fn"](ctx, **case.get("args", {}))
    except Abort:
        return {"aborted": True, "violations": [], "error": None}
    except KeyError as e:
        if "replay input" in str(e):
            return {"aborted": True, "violations": [], "error": str(e)}
        err = e
    except Exception as e:
        err = e
    finally:
        ctx.cleanup()
    v = list(dict.fromkeys(ctx.violations))
    msg = None
    if err is not None:
        v.append("exception:%s" % type(err).__name__)
        msg = "".join(traceback.format_exception(type(err), err, err.__traceback__))[-1500:]
    return {"aborted": False, "violations": v, "error": msg, "checked": ctx.checked, "covers": sorted(ctx.covers)}


def load(prop, tier):
    from engine import shims
    shims.import_repo(False)
    import importlib
    mod = importlib.import_module("props." + prop)
    return {c["name"]: c for c in mod.cases(tier)}


def main():
    args = sys.argv[1:]
    batch = args and args[0] == "--batch"
    data = json.load(open(args[-1]))
    cases = load(data["property"], data.get("tier", "quick"))
    if batch:
        out = []
        for it in data["items"]:
            best = None
            for mode in it.get("modes", ["float"]):
                r = run_one(cases[it["case"]], it["inputs"], mode)
                r["mode"] = mode
                if best is None or (it.get("label") in r["violations"] and it.get("label") not in best["violations"]):
                    best = r
                if it.get("label") is None or it["label"] in r["violations"]:
                    break
            out.append(best)
        print("REPLAY-JSON " + json.dumps(out))
        return 0
    r = run_one(cases[data["case"]], data["inputs"], data.get("mode", "float"))
    print(json.dumps(r, indent=1))
    if data["label"] in r["violations"]:
        print("REPRODUCED property=%s case=%s label=%s" % (data["property"], data["case"], data["label"]))
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main())
