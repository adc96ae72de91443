"""Which result is returned, and the final status check."""
from props.lib import *

BOUNDS = "up to 3 (quick) / 4 (thorough) results of internal optimisations besides the initial one, of 1..3 lines, with arbitrary " \
         "frequencies, violations (negative included), objective values and statuses -1..4"
ASSUMPTIONS = ["a status is one of the solver's codes 0..4, or -1 for the initial point, which is not a result of the solver"]


def result(ctx, k, lines, init=False, codes=(0, 1, 2, 3, 4)):
    x = [ctx.real("x%d_%d" % (k, j), -100, 1000) for j in range(lines)]
    if init:
        return x, "initialization", -1, "initialization", -1, -1
    status = ctx.choice("status%d" % k, codes)
    return x, ctx.choice("success%d" % k, [True, False]) if k == 0 else status == 1, status, "message %d" % k, \
        ctx.real("violation%d" % k, -10, 10), ctx.real("fun%d" % k, -1e6, 1e9)


def valid(ctx, r):
    x, success, status, message, viol, fun = r
    return ctx.And(status not in (0, 3, -1), viol < 0.001, viol > -0.001, *[f >= 0 for f in x])


def select(ctx, count, lines, init, order, codes=(0, 1, 2, 3, 4)):
    rs = [result(ctx, k, lines, codes=codes) for k in range(count)]
    if init:
        rs.insert(0 if order == 0 else len(rs), result(ctx, 9, lines, True))
    vals = [(list(r[0]),) + r[1:] for r in rs]
    out, exc = ctx.attempt(Optimizer.get_better_result, rs)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    ok = [valid(ctx, r) for r in vals]
    if out is None:
        ctx.check("none_only_without_feasible_result", ctx.And(*[ctx.Not(o) for o in ok]))
        end, exc = ctx.attempt(Optimizer.status_optimization, out)
        ctx.check("ends_with_an_exception", type(exc) is E.NoOptimalSolutionFoundException)
        ctx.cover("none")
        return
    mine = [n for n, r in enumerate(vals) if out[3] == r[3]]
    ctx.check("one_of_the_results", len(mine) == 1)
    if len(mine) != 1:
        return
    r = vals[mine[0]]
    ctx.check("feasible_and_converged", ok[mine[0]])
    for o, other in zip(ok, vals):
        ctx.check("no_feasible_result_is_better", ctx.Implies(o, r[5] <= other[5]))
    ctx.check("result_unchanged", len(out) == 6 and out[1] is r[1] and out[2] == r[2] and len(out[0]) == lines)
    for a, b in zip(list(out[0]) + [out[4], out[5]], r[0] + [r[4], r[5]]):
        ctx.check("result_unchanged", a == b)
    end, exc = ctx.attempt(Optimizer.status_optimization, out)
    ctx.check("feasible_result_passes_the_status_check", exc is None and end is True)
    ctx.cover("some")


def status(ctx, lines):
    r = result(ctx, 0, lines)
    x, _, st, _, viol, fun = r
    out, exc = ctx.attempt(Optimizer.status_optimization, r)
    neg = ctx.Or(*[f < -0.1 for f in x])
    viols = ctx.Or(viol > 0.1, viol < -0.1)
    conv = st in (0, 3)
    if exc is None:
        ctx.check("accepts_only_usable_solutions", out is True)
        ctx.check("accepts_only_usable_solutions", ctx.Not(ctx.Or(neg, viols, conv)))
        ctx.cover("accepted")
    else:
        ctx.check("exception_names_the_reason", ctx.Or(
            ctx.And(type(exc) is E.NegativeFrequencyException, neg),
            ctx.And(type(exc) is E.ConstraintViolationException, viols),
            ctx.And(type(exc) is E.NoOptimalSolutionFoundException, conv)))
        ctx.cover("rejected")


def cases(tier):
    deep = tier != "quick"
    out = []
    for count, lines in [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1)]:
        for init, order in [(False, 0), (True, 0)] + ([(True, 1)] if count == 2 else []):
            out.append({"name": "select_%d_%d%s" % (count, lines, "_init%d" % order if init else ""), "fn": select,
                        "args": {"count": count, "lines": lines, "init": init, "order": order}, "covers": ["none", "some"]})
    for count, lines in [(3, 2), (4, 1)] if deep else []:
        out.append({"name": "select_%d_%d" % (count, lines), "fn": select, "covers": ["none", "some"],
                    "args": {"count": count, "lines": lines, "init": True, "order": 0, "codes": (3, 1)}})
    out.append({"name": "select_only_init", "fn": select, "args": {"count": 0, "lines": 2, "init": True, "order": 0}, "covers": ["none"]})
    for lines in (1, 2, 3):
        out.append({"name": "status_%d" % lines, "fn": status, "args": {"lines": lines}, "covers": ["accepted", "rejected"]})
    return out
