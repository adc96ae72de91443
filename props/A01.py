"""Shares of the passengers of an origin among its stops."""
from props.H01 import setting
from props.lib import *

BOUNDS = "one or two stops at the origin, in both orders, with 1..12 (quick) / 1..16 (thorough) parallel lines; up to three " \
         "origin-destination pairs in one table; expected times, width, walking speed and values of time arbitrary positive " \
         "numbers, ties included; also the labels of six real networks with arbitrary ride times, frequencies and values"
ASSUMPTIONS = ["walking speed and values of time are positive", "at least one stop has a single line",
               "with an odd number of three or more lines only range and sum are claimed (the statement is restricted to even numbers)"]
TOL = 1e-4      # per cent of the passengers


def shares(ctx, L1, L2, dd, a1, a2, p, vp, spa, spv, pre=""):
    """a1, a2: shares of the stop with one line and of the stop with dd lines, both in the origin's street of width p"""
    for a in (a1, a2):
        ctx.le(pre + "share_not_negative", 0, a, 1e-9)
        ctx.le(pre + "share_at_most_100", a, 100, 1e-6)
    ctx.eq(pre + "shares_add_up_to_100", a1 + a2, 100)
    N = vp * (L2 - L1) * spv        # indifference walk times spa
    full = lambda a: a >= 100 - TOL
    if dd == 1:
        ctx.check(pre + "cheaper_of_two_central_stops", ctx.And(ctx.Implies(L1 < L2, full(a1)), ctx.Implies(L2 < L1, full(a2))))
    elif dd % 2 == 0:
        pos = [p * (2 * i + 1) / (2 * dd) for i in range(dd // 2)]
        unit = p * spa
        e = unit / 10 ** 7
        # part of the width nearer to the single line: up to half way between the walk and the first line beyond it
        for i, x in enumerate(pos):
            first = ctx.And(p > 0, N < x * spa - e, *[N > y * spa + e for y in pos[:i]])
            if i == 0:
                ctx.check(pre + "nobody_walks_to_the_centre", ctx.Implies(ctx.And(p > 0, N + x * spa <= e), a1 <= TOL))
                first = ctx.And(first, N + x * spa > 0)
            want = 100 * (x * spa + N)
            ctx.check(pre + "share_is_cheapest_part_of_width",
                      ctx.Implies(first, ctx.And(a1 * unit - want <= TOL * unit, want - a1 * unit <= TOL * unit)))
        ctx.check(pre + "everybody_walks_to_the_centre", ctx.Implies(N > pos[-1] * spa + e, full(a1)))
        # a tie with line i: any split of the strip between that line and the half way to the next one
        for i, x in enumerate(pos):
            lo = (x + x)
            hi = (pos[i + 1] + x) if i + 1 < len(pos) else p
            ctx.check(pre + "tie_at_a_line", ctx.Implies(ctx.And(N <= x * spa + e, N >= x * spa - e, p > 0),
                                                         ctx.And(a1 * p >= (100 * lo - TOL * p), a1 * p <= 100 * hi + TOL * p)))


def stops(ds):
    """nodes of a city of one zone, served by one mode per element: nodes, stops by (node, mode)"""
    g = city(1)
    z = g.get_zones()[0]
    ids = [z.periphery.id, z.subcenter.id, g.get_cbd().id]
    ms = [mk_mode("m%d" % k, d=d) for k, d in enumerate(ds)]
    X = Ext(ExtendedGraph(g, [mk_route("L%d" % k, m, ids) for k, m in enumerate(ms)], 16))
    return [X.city[i] for i in ids], [[X.stop[m.name, i] for m in ms] for i in ids]


def walks(ctx, dd, swap, equal=False):
    (o, _, t), ((s1, s2), _, _) = stops([1, dd])
    L1 = ctx.real("L1", 0, 10)
    L2 = L1 if equal else ctx.real("L2", 0, 10)
    p, vp = ctx.real("p", 0, 100, lo_open=False), ctx.real("vp", 0, 20, True)
    spa, spv = ctx.real("spa", 0, 50, True), ctx.real("spv", 0, 50, True)
    order = [s2, s1] if swap else [s1, s2]
    hyper = {o: {t: {s: [[o, s, t]] for s in order}}}
    labels = {o: {t: {s1: L1, s2: L2, t: 0}}}
    out, exc = ctx.attempt(Assignment.get_assignment, hyper, labels, p, vp, spa, spv)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    a = out[o][t]
    shares(ctx, L1, L2, dd, a[s1], a[s2], p, vp, spa, spv)
    ctx.cover("end")
    if a[s1] == 0:
        ctx.cover("all_to_many")
    elif a[s2] == 0:
        ctx.cover("all_to_one")
    else:
        ctx.cover("split")


def single(ctx, d):
    (o, u, t), ((s1, s2), _, _) = stops([d, 2])
    hyper = {o: {t: {s1: [[o, s1, t]]}, u: {s2: [[o, s2, u]]}}}
    L = ctx.real("L", 0, 10)
    labels = {o: {t: {s1: L}, u: {s2: L}}}
    out, exc = ctx.attempt(Assignment.get_assignment, hyper, labels, ctx.real("p", 0, 100), ctx.real("vp", 0, 20, True),
                           ctx.real("spa", 0, 50, True), ctx.real("spv", 0, 50, True))
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    ctx.eq("single_stop_gets_everyone", out[o][t][s1], 100)
    ctx.eq("single_stop_gets_everyone", out[o][u][s2], 100)
    for s in out[o][t]:
        ctx.check("nobody_elsewhere", ctx.Or(s is s1, out[o][t][s] == 0))
    for s in out[o][u]:
        ctx.check("nobody_elsewhere", ctx.Or(s is s2, out[o][u][s] == 0))
    ctx.cover("single")


def several(ctx, d1, d2, d3):
    """three pairs in one table do not influence one another"""
    nodes, at = stops([1, d1, d2, d3])
    p, vp, spa, spv = ctx.real("p", 0, 100, True), 4, 6, 2
    hyper, labels, want = {}, {}, []
    for k, (a, b, dd) in enumerate([(0, 1, d1), (0, 2, d2), (1, 2, d3)]):
        o, t = nodes[a], nodes[b]
        s1, s2 = at[a][0], at[a][k + 1]
        L1, L2 = ctx.real("L1_%d" % k, 0, 10), ctx.real("L2_%d" % k, 0, 10)
        hyper.setdefault(o, {})[t] = {s: [[o, s, t]] for s in ([s1, s2] if k % 2 else [s2, s1])}
        labels.setdefault(o, {})[t] = {s1: L1, s2: L2}
        want.append((o, t, s1, s2, L1, L2, dd))
    out, exc = ctx.attempt(Assignment.get_assignment, hyper, labels, p, vp, spa, spv)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    for o, t, s1, s2, L1, L2, dd in want:
        a = out[o][t]
        shares(ctx, L1, L2, dd, a[s1], a[s2], p, vp, spa, spv, "table_")
    ctx.check("no_other_pair", sum(len(out[o]) for o in out) == 3)
    ctx.cover("table")


def real(ctx, topo, what, back, pairs_d=None):
    """the pipeline: labels of a network, then shares"""
    X, pax, o, d, g, routes = setting(ctx, topo, what, back)
    if o is None or d is None:
        return
    ms = {id(r.mode): r.mode for r in routes}
    od = defaultdict(lambda: defaultdict(float))
    od[o.graph_node.id][d.graph_node.id] = 10
    if pairs_d:
        ms = list(ms.values())
        # the number of lines after construction: frequencies of the boarding edges were set explicitly
        ms[-1].d = pairs_d
    out, exc = ctx.attempt(Hyperpath(X.eg, pax).get_all_hyperpaths, od)
    if exc is not None:
        return
    hyper, labels, succ, freq, V = out
    p = g.get_parameters()[3]
    a, exc = ctx.attempt(Assignment.get_assignment, hyper, labels, p, pax.va, pax.pa, pax.pv)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    stops = list(hyper[o][d])
    if len(stops) == 1:
        ctx.eq("single_stop_gets_everyone", a[o][d][stops[0]], 100)
        ctx.cover("real")
    elif len(stops) == 2:
        s1, s2 = stops if stops[0].mode.d == 1 else stops[::-1]
        L = labels[o][d]
        shares(ctx, L[s1], L[s2], s2.mode.d, a[o][d][s1], a[o][d][s2], p, pax.va, pax.pa, pax.pv, "real_")
        ctx.cover("real")


REAL = [("modes", "t_A t_B", 1), ("modes", "t_A f_B", 4), ("modes", "t_A a", 2), ("choice", "t_D", 2), ("one", "t_A", 0),
        ("walk", "t_A", 2), ("modes2", "t_A", 4)]


def cases(tier):
    deep = tier != "quick"
    out = []
    for dd in range(1, 17 if deep else 13):
        for swap in (False, True):
            out.append({"name": "walk_%d%s" % (dd, "_swap" * swap), "fn": walks, "args": {"dd": dd, "swap": swap},
                        "covers": ["all_to_many", "all_to_one"] + ["split"] * (dd > 1)})
    for dd in (1, 2, 3, 4):
        out.append({"name": "tie_%d" % dd, "fn": walks, "args": {"dd": dd, "swap": dd % 2 == 0, "equal": True},
                    "covers": ["end"]})
    for d in (1, 2, 3, 4):
        out.append({"name": "single_%d" % d, "fn": single, "args": {"d": d}, "covers": ["single"]})
    for ds in [(2, 4, 1), (1, 2, 2), (4, 2, 6)] + ([(6, 8, 2), (3, 4, 5)] if deep else []):
        out.append({"name": "table_%d_%d_%d" % ds, "fn": several, "args": dict(zip(("d1", "d2", "d3"), ds)), "covers": ["table"]})
    for topo, what, d in REAL + ([("modes", "r f a", 6), ("choice", "t_D f_B", 4), ("modes2", "t_A f_C", 2)] if deep else []):
        for back in (False, True):
            out.append({"name": "real_%s_%s_%d%s" % (topo, what.replace(" ", "+"), d, "_back" * back), "fn": real,
                        "args": {"topo": topo, "what": what, "back": back, "pairs_d": d}, "covers": ["real"]})
    return out
