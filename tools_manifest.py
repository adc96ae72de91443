"""Writes MANIFEST.json from the harnesses that exist: /opt/venv/bin/python tools_manifest.py"""
import importlib
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
from engine import shims

shims.import_repo(True)
TECH = "symbolic execution of the repository's Python code with SMT solving (z3, cvc5) of every obligation on every path; " \
       "counterexamples replayed concretely on the unmodified code"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i + ".py")):
        m = importlib.import_module("props." + i)
        checks.append({
            "property": i, "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % i,
            "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % i, "technique": TECH,
            "level": "model_checking",
            "level_note": "Bounded: %s. Assumes: %s. Exact real arithmetic (no IEEE rounding). See DESIGN.md." % (
                m.BOUNDS.rstrip("."), "; ".join(m.ASSUMPTIONS) or "nothing further")})
    else:
        na.append({"property": i, "reason": "no harness yet"})
out = {"version": 1, "setup_cmd": "mkdir -p evidence && /opt/venv/bin/python engine/selftest.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the code is executed as it is, its modules' names float/int and math functions are "
                "replaced at run time. Repairs of defects are the fix: commits listed in known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
