"""Sanity of the executor: known truths and known falsehoods must come out as such. Run once by setup_cmd."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
from engine import shims, explore

shims.import_repo(True)


def good(ctx):
    x, y = ctx.real("x", 0, 10), ctx.real("y", 0, 10, True)
    n = ctx.int("n", 0, 4)
    m = max(x, y) - min(x, y)
    ctx.eq("abs", m, abs(x - y))
    ctx.check("sq", (x - y) ** 2 >= 0)
    ctx.eq("ratio", x / y * y, x)
    s = 0
    for i in range(n):
        s += i
    ctx.check("sum", 2 * s == n * (n - 1) if n > 0 else s == 0)
    ctx.check("root", (x * x + 1) ** 0.5 >= 1)
    if x > y:
        ctx.check("pos", x > 0)
    from engine.shims import SetShim
    a, b, c = ctx.int("a", -5, 5), ctx.int("b", -5, 5), 3
    u = SetShim([a, b, c, 1, "x"])
    ctx.check("set", u == SetShim(["x", 1, c, b, a, a]) and len(u) == len(list(u)) and a in u and
              (2 not in u or ctx.Or(a == 2, b == 2)))
    k = 3 + (1 if a != 3 and a != 1 else 0) + (1 if b != 3 and b != 1 and b != a else 0)
    ctx.check("set_size", len(u) == k)
    u.discard(a)
    ctx.check("discard", len(u) == k - 1 and a not in u and SetShim([b]) <= u | {a} and {c, "x", 7} - u <= {3, 7})
    ctx.cover("end")


def bad(ctx):
    x, y = ctx.real("x", 0, 10), ctx.real("y", 0, 10)
    if x * y > 24:
        ctx.check("false", x + y >= 9.9)


if __name__ == "__main__":
    r = explore.explore([{"name": "good", "fn": good, "args": {}}], jobs=2)
    assert not r["violations"] and not r["errors"] and not r["unknown"] and "end" in r["covers"]["good"], r
    r = explore.explore([{"name": "bad", "fn": bad, "args": {}}], jobs=2)
    assert r["violations"] and r["violations"][0]["inputs"], r
    i = r["violations"][0]["inputs"][0]
    from fractions import Fraction as F
    assert F(i["x"]) * F(i["y"]) > 24 and F(i["x"]) + F(i["y"]) < 9.9, i
    print("selftest passed")
