"""Printed and written results."""
import os
import re
from props.O04 import *
import props.O04 as O04

BOUNDS = "the networks of O04 (predefined and custom lines, rings, two modes, 1..6 lines), up to three arbitrary frequencies (zero included), arbitrary " \
         "trips; the summaries with up to 3 routes and arbitrary frequencies, violations and objective values; the overall summary of arbitrary results of 1..3 modes"
ASSUMPTIONS = O04.ASSUMPTIONS + ["the sub-tables are printed as a list of (node, node, number)"]
HALF = 0.005


def near(ctx, label, text, want):
    """the text shows the number to two decimals"""
    try:
        y = ctx.number(text)
    except ValueError:
        ctx.check(label, False)
        return
    ctx.check(label, ctx.And(y - want <= HALF + 1e-6, want - y <= HALF + 1e-6))


def sub(text):
    """[(node, node, text of a number)]"""
    out = []
    for part in re.findall(r"\(([^()]*)\)", text):
        w = [x.strip() for x in part.split(",")]
        if len(w) != 3:
            return None
        out.append((w[0].strip("'\""), w[1].strip("'\""), w[2]))
    return out


def compare(ctx, label, text, rows):
    lines = text.split("\n")
    ctx.check(label + "_one_line_per_route_after_the_header", len(lines) == len(rows) + 1 and lines[0].startswith("route_id;"))
    if len(lines) != len(rows) + 1:
        return
    heads = lines[0].split(";")
    ctx.check(label + "_one_name_per_column", len(heads) == 10)
    for line, row in zip(lines[1:], rows):
        w = line.split(";")
        ctx.check(label + "_one_field_per_column", len(w) == 10)
        if len(w) != 10:
            continue
        ctx.check(label + "_route_in_order", w[0] == row[0])
        for t, y in zip(w[1:8], row[1:8]):
            near(ctx, label + "_values_of_the_table", t, y)
        for t, y in zip(w[8:], row[8:]):
            s = sub(t)
            ctx.check(label + "_one_section_per_pair", s is not None and [(str(a), str(b)) for a, b, _ in y] == [(a, b) for a, b, _ in s])
            if s is None:
                continue
            for (a, b, l), (_, _, v) in zip(s, y):
                near(ctx, label + "_loads_of_the_table", l, v)


def table(ctx, topo, pairs, what, bya, freq, d=1):
    got = solved(ctx, topo, pairs, what, bya, freq, d)
    if got is None:
        return
    opt, W, routes, f = got
    rows, exc = ctx.attempt(opt.get_network_results)
    if exc is not None:
        return          # O04
    text, exc = ctx.attempt(opt.string_network_results)
    ctx.check("printed", exc is None)
    if exc is None:
        compare(ctx, "text", text, rows)
    path = os.path.join(ctx.tmp(), "results.csv")
    with open(path, "w") as fh:
        fh.write("old\n" * 50)
    _, exc = ctx.attempt(opt.write_file_network_results, path)
    ctx.check("written", exc is None)
    if exc is None:
        with open(path, encoding="utf-8") as fh:
            compare(ctx, "file", fh.read().rstrip("\n"), rows)
    ctx.cover("table")


KEYS = [("VRC", "VRC"), ("operators cost", "operators_cost"), ("infrastructure cost", "infrastructure_cost"), ("users cost", "users_cost"),
        ("time on board", "travel_time_on_board"), ("waiting time", "waiting_time"), ("access time", "access_time"), ("transfers", "transfers")]


def overall(ctx, topo, pairs, what, bya, freq, d=1):
    got = solved(ctx, topo, pairs, what, bya, freq, d)
    if got is None:
        return
    opt, W, routes, f = got
    out, exc = ctx.attempt(opt.get_overall_results)
    if exc is not None:
        return          # O03
    shown(ctx, opt, out)
    ctx.cover("overall")


def arbitrary(ctx, n):
    """every value of the results arbitrary"""
    ms = [mk_mode(w, d=k + 1) for k, w in enumerate(["bus", "metro", "train"][:n])]
    g, ids, routes, o, d = topology("modes" if n > 1 else "one", ms)
    opt = Optimizer(g, Demand(g), Passenger(4, 2, 4, 6, 16, 2, 4, 6, 16), network(g, routes))
    keys = [key for _, key in KEYS]
    out = {key: ctx.real(key, 0, 1e6) for key in keys}
    for key in ("vehicles_mode", "vehicle_capacity_mode"):
        out[key] = defaultdict(float, {m: ctx.real("%s_%d" % (key, k), 0, 1e5) for k, m in enumerate(ms)})
    out["lines_mode"] = defaultdict(int, {m: 7 + 5 * k for k, m in enumerate(ms)})
    asked = []
    opt.get_overall_results = lambda *a, **k: asked.append(1) or out
    opt.better_res = ([1.0] * len(routes), True, 1, "m", 0, 1)
    shown(ctx, opt, out, asked)
    ctx.cover("overall")


def shown(ctx, opt, out, asked=(1,)):
    text, exc = ctx.attempt(opt.string_overall_results)
    ctx.check("printed", exc is None)
    if exc is not None or not asked:
        return
    lines = [x.strip() for x in text.split("\n") if x.strip()]
    parts = [x.rpartition(":") for x in lines]
    general, modes = {}, []
    for a, _, b in parts:
        if a.strip().lower() == "mode name":
            modes.append((b.strip(), {}))
        elif modes:
            modes[-1][1][a.strip()] = b.strip()
        else:
            general[a.strip()] = b.strip()
    for word, key in KEYS:
        fields = [b for a, b in general.items() if word.lower() in a.lower()]
        ctx.check("every_overall_value_is_shown", len(fields) == 1)
        for b in fields:
            near(ctx, "overall_" + key, b, out[key])
    total = [b for a, b in general.items() if "total travel time" in a.lower()]
    for b in total:
        near(ctx, "total_travel_time", b, out["travel_time_on_board"] + out["waiting_time"] + out["access_time"])
    count = [b for a, b in general.items() if "transport mode information" in a.lower()]
    for b in count:
        ctx.check("number_of_modes", ctx.number(b) == len(out["vehicles_mode"]))
    ctx.check("mode_by_mode", sorted(n for n, _ in modes) == sorted(m.name for m in out["vehicles_mode"]))
    for name, fields in modes:
        m = [q for q in out["vehicles_mode"] if q.name == name]
        if len(m) != 1:
            continue
        for letter, key in (("B ", "vehicles_mode"), ("K ", "vehicle_capacity_mode"), ("L ", "lines_mode")):
            w = [b for a, b in fields.items() if a.startswith(letter)]
            ctx.check("every_value_of_a_mode_is_shown", len(w) == 1)
            for b in w:
                near(ctx, "mode_" + key, b, out[key][m[0]])


def summary(ctx, topo):
    """every route with its own frequency, and the outcome of the solver"""
    ms = [mk_mode("bus"), mk_mode("metro", d=2)]
    g, ids, routes, o, d = topology(topo, ms)
    opt = Optimizer(g, Demand(g), Passenger(4, 2, 4, 6, 16, 2, 4, 6, 16), network(g, routes))
    x = [ctx.real("x%d" % k, 0, 1000) for k in range(len(routes))]
    viol, fun = ctx.real("violation", -1, 1), ctx.real("fun", 0, 1e6)
    status = ctx.choice("status", [1, 2])
    res = (list(x), status == 1, status, "a message: with colon", viol, fun)
    text, exc = ctx.attempt(opt.string_network_optimization, res)
    ctx.check("printed", exc is None)
    if exc is not None:
        return
    head, _, tail = text.partition("Frequency information")
    lines = [w.strip() for w in tail.split("\n")[1:] if w.strip()]
    ctx.check("one_line_per_route", sorted(w.rpartition(":")[0] for w in lines) == sorted(r.id for r in routes))
    for w in lines:
        name, _, t = w.rpartition(":")
        for r, q in zip(routes, x):
            if r.id == name:
                near(ctx, "frequency_of_the_route", t.strip(), q)
    fields = dict((a.strip().lower(), b.strip()) for a, _, b in (w.partition(":") for w in head.split("\n")) if a)
    ctx.check("outcome", fields.get("success") == str(status == 1) and fields.get("status") == str(status) and
              fields.get("message") == "a message: with colon")
    for key, y in (("max constrain violation", viol), ("vrc", fun)):
        ctx.check("outcome", key in fields)
        if key in fields:
            near(ctx, "outcome", fields[key], y)
    ctx.cover("summary")


def unsolved(ctx, topo):
    """without a result there is nothing to print"""
    g, ids, routes, o, d = topology(topo, [mk_mode("bus"), mk_mode("metro")])
    dem = Demand(g)
    dem.change_vij(o, d, ctx.real("V", 1, 1000))
    opt = Optimizer(g, dem, Passenger(4, 2, 4, 6, 16, 2, 4, 6, 16), network(g, routes))
    for fn in (opt.get_network_results, opt.string_network_results, opt.get_overall_results, opt.string_overall_results):
        out, exc = ctx.attempt(fn)
        ctx.check("no_report_without_a_result", type(exc) is E.NoOptimalSolutionFoundException)
    path = os.path.join(ctx.tmp(), "results.csv")
    out, exc = ctx.attempt(opt.write_file_network_results, path)
    ctx.check("no_report_without_a_result", type(exc) is E.NoOptimalSolutionFoundException and not os.path.exists(path))
    ctx.cover("unsolved")


def cases(tier):
    out = []
    for k, (n, a) in enumerate(O04.settings(tier)):
        if tier != "quick" or k % 2 == 0 or n.startswith("ring"):
            out.append({"name": "table_" + n, "fn": table, "args": a, "covers": ["table"]})
        if tier != "quick" or k % 2 == 1 or n.startswith("modes"):
            out.append({"name": "overall_" + n, "fn": overall, "args": a, "covers": ["overall"]})
    for topo in ("one", "modes", "three", "asym", "walk"):
        out.append({"name": "summary_" + topo, "fn": summary, "args": {"topo": topo}, "covers": ["summary"]})
    for n in (1, 2, 3):
        out.append({"name": "overall_values_%d" % n, "fn": arbitrary, "args": {"n": n}, "covers": ["overall"]})
    for topo in ("one", "modes"):
        out.append({"name": "unsolved_" + topo, "fn": unsolved, "args": {"topo": topo}, "covers": ["unsolved"]})
    return out
