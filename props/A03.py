"""Loads of lines: proportional split, values per vehicle, most loaded section."""
import props.A02 as A02
from props.lib import *

BOUNDS = A02.BOUNDS + "; most loaded sections of tables of up to three routes, two directions and three stops with arbitrary entries"
ASSUMPTIONS = A02.ASSUMPTIONS


def near(ctx, a, b):
    return ctx.And(a - b <= 1e-6, b - a <= 1e-6)


def harness(ctx, topo, what, pairs, zero=None, own=False):
    got = A02.loaded(ctx, topo, what, pairs, zero, own)
    if got is None:
        return
    X, g, pax, routes, trips, share, f, (hyper, labels, suc, V), out = got
    z, v, load = map(flat, out)
    tot = [defaultdict(float), defaultdict(float), defaultdict(float)]
    for o, d, t, stops in trips:
        for want, part in zip(tot, per_line(flows(suc[o][d], {s: t * share[o][d][s] / 100 for s in stops}, d, f))):
            for k in part:
                want[k] += part[k]
    for name, got, want in zip(("boardings", "alightings", "loads"), (z, v, load), tot):
        for k in {**got, **want}:
            ctx.eq(name + "_per_vehicle", got.get(k, 0) * f[k[0]], want.get(k, 0))
            if k[0] == zero:
                ctx.eq("nobody_uses_an_idle_line", got.get(k, 0), 0)
    most, exc = ctx.attempt(Assignment.most_loaded_section, out[2])
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    for r in routes:
        mine = [load[k] for k in load if k[0] == r.id]
        m = most[r.id]
        ctx.check("most_loaded_is_a_section", ctx.Or(ctx.And(m == 0, *[x == 0 for x in mine]), *[near(ctx, m, x) for x in mine]))
        for x in mine:
            ctx.le("no_section_is_more_loaded", x, m)
    ctx.cover("loaded")


def most(ctx, shape):
    """shape: per route the numbers of stops with an entry in each direction"""
    g, ids, routes, o, d = topology("local", [mk_mode(), mk_mode("metro")])
    X = Ext(ExtendedGraph(g, routes, 16))
    stops = [s for c in X.nodes for s in X.nodes[c]]
    table = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    vals, n = {}, 0
    for k, (a, b) in enumerate(shape):
        for dr, m in (("I", a), ("R", b)):
            for s in range(m):
                x = ctx.real("x%d" % n, 0, 1000)
                n += 1
                table["L%d" % k][dr][stops[s]] = x
                vals.setdefault("L%d" % k, []).append(x)
    out, exc = ctx.attempt(Assignment.most_loaded_section, table)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    for r in vals:
        ctx.check("most_loaded_is_a_section", ctx.Or(*[near(ctx, out[r], x) for x in vals[r]]))
        for x in vals[r]:
            ctx.le("no_section_is_more_loaded", x, out[r])
    ctx.check("no_other_route", set(out) <= set(vals))
    ctx.eq("line_without_passengers", out["other"], 0)
    ctx.cover("most")


def cases(tier):
    shapes = [[(1, 0)], [(2, 1)], [(0, 3), (1, 1)], [(1, 2), (2, 0)], [(1, 1), (1, 0), (0, 2)]] + \
             ([[(3, 3)], [(2, 2), (2, 2)], [(3, 2), (1, 1), (0, 2)]] if tier != "quick" else [])
    return [{"name": n, "fn": harness, "args": a, "covers": ["loaded"]} for n, a in A02.settings(tier)] + \
        [{"name": "most_%d" % n, "fn": most, "args": {"shape": s}, "covers": ["most"]} for n, s in enumerate(shapes)]
