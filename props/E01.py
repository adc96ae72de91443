"""The extended graph of a network."""
from props.lib import *

BOUNDS = "networks of predefined families, rings and custom routes (with any selection of intermediate stops, different nodes " \
         "and stops in both directions, parallel lines, unserved nodes) of one or two modes in cities of 1..4, 6, 10, 11 (quick) / 1..6, 10, 11 " \
         "(thorough) zones with consecutive or sparse ids; all coordinates, frequencies, numbers of parallel lines, speeds, " \
         "access times and the transfer penalty arbitrary"
ASSUMPTIONS = ["speeds and numbers of parallel lines are positive", "coordinates in [-1000, 1000]"]


def check_graph(ctx, g, routes, eg, TP, freq):
    """freq: route id -> total frequency"""
    pos = {n.id: n for n in g.get_nodes()}
    nodes = eg.get_extended_graph_nodes()
    edges = eg.get_extended_graph_edges()

    # boarding points
    want = []
    for r in routes:
        for d, seq, stops in directions(r):
            want += [(r.id, d, s) for s in (stops[1:] if r._type == RouteType.CIRCULAR else stops)]
    got = {}
    for c in nodes:
        ctx.check("city_node_of_the_city", pos.get(c.graph_node.id) is c.graph_node)
        ctx.check("one_stop_per_mode", len({id(s.mode) for s in nodes[c]}) == len(nodes[c]))
        for s in nodes[c]:
            ctx.check("stop_of_city_node", s.city_node is c)
            for r in nodes[c][s]:
                ctx.check("route_node_at_stop", r.stop_node is s and r.route.mode is s.mode)
                got.setdefault((r.route.id, r.direction, c.graph_node.id), []).append(r)
    ctx.check("city_nodes_distinct", len({c.graph_node.id for c in nodes}) == len(nodes))
    ctx.check("one_boarding_point_per_route_direction_and_stop",
              sorted(want) == sorted(k for k, v in got.items() for _ in v))
    if any(k not in got for k in want):
        return
    served = {(r.mode.name, k) for r in routes for _, _, st in directions(r) for k in st}
    ctx.check("one_stop_per_mode_and_served_node",
              sorted(served) == sorted((s.mode.name, c.graph_node.id) for c in nodes for s in nodes[c]))
    at = {k: v[0] for k, v in got.items()}

    # edges
    byid = {r.id: r for r in routes}
    exp = []  # (type, from, to, time, frequency)
    for c in nodes:
        for s in nodes[c]:
            exp.append((ACCESS, c, s, s.mode.tat / 60, INF))
            exp.append((ACCESS, s, c, s.mode.tat / 60, INF))
    for (rid, d, k), n in at.items():
        r = byid[rid]
        seq = [x for x in directions(r) if x[0] == d][0][1]
        if r._type == RouteType.CIRCULAR or k != seq[-1]:
            exp.append((BOARD, n.stop_node, n, 0, freq[rid] / r.mode.d))
        if r._type == RouteType.CIRCULAR or k != seq[0]:
            exp.append((ALIGHT, n, n.stop_node, TP / 60, INF))
    for r in routes:
        for d, a, b, path in legs(r):
            t = 0
            for p, q in zip(path, path[1:]):
                t = t + ((pos[p].x - pos[q].x) ** 2 + (pos[p].y - pos[q].y) ** 2) ** 0.5
            exp.append((RIDE, at[r.id, d, a], at[r.id, d, b], t / r.mode.v, INF))
    key = lambda t, a, b: (t.value, id(a), id(b))
    ctx.check("exactly_the_edges", sorted(key(e.type, e.nodei, e.nodej) for e in edges) ==
              sorted(key(t, a, b) for t, a, b, _, _ in exp))
    index = {key(e.type, e.nodei, e.nodej): e for e in edges}
    for t, a, b, time, f in exp:
        e = index.get(key(t, a, b))
        if e is None:
            continue
        ctx.eq("time_of_%s_edge" % t.name.lower(), e.t, time)
        ctx.eq("frequency_of_%s_edge" % t.name.lower(), e.f, f)
    # previous stops
    prev = {}
    for r in routes:
        for d, a, b, path in legs(r):
            prev[id(at[r.id, d, b])] = at[r.id, d, a]
    for n in at.values():
        ctx.check("previous_stop", n.prev_route_node is prev.get(id(n)))


def scatter(ctx, g):
    for j, n in enumerate(g.get_nodes()):
        n.x = ctx.real("x%d" % j, -1000, 1000)
        n.y = ctx.real("y%d" % j, -1000, 1000)


def build(ctx, g, routes, modes, default_f=False):
    TP = ctx.real("TP", 0, 60)
    freq = {r.id: ctx.real("F%d" % j, 0, 500) for j, r in enumerate(routes)}
    if default_f:
        freq = {r.id: r.mode.fini for r in routes}
    f = None
    if not default_f:
        f = defaultdict(float)
        f.update(freq)
    eg, exc = ctx.attempt(ExtendedGraph, g, routes, TP, f)
    ctx.check("graph_built", exc is None)
    if exc is None:
        check_graph(ctx, g, routes, eg, TP, freq)
        ctx.cover("built")


def mode(ctx, name, k):
    d = ctx.int("d%d" % k, 1, 8)
    return mk_mode(name, v=ctx.real("v%d" % k, 0, 120, True), tat=ctx.real("tat%d" % k, 0, 30), d=d,
                   fini=ctx.real("fini%d" % k, 0, 100))


def predefined(ctx, n, first, second, sparse, default_f):
    g = sparse_city(n) if sparse else city(n)
    scatter(ctx, g)
    m = [mode(ctx, "bus", 0), mode(ctx, "metro", 1)]
    routes = families(g, m[0], first) + families(g, m[1], second)
    build(ctx, g, routes, m, default_f)


def custom(ctx, shapes, sparse):
    """routes over the nodes of a three zone city with any selection of stops"""
    g = sparse_city(3) if sparse else city(3)
    scatter(ctx, g)
    z, c = g.get_zones(), g.get_cbd().id
    P = [x.periphery.id for x in z]
    S = [x.subcenter.id for x in z]
    named = {"c": c, "p0": P[0], "p1": P[1], "p2": P[2], "s0": S[0], "s1": S[1], "s2": S[2]}
    m = [mode(ctx, "bus", 0), mode(ctx, "metro", 1)]
    routes = []
    for k, (which, i, r) in enumerate(shapes):
        i, r = [[named[w] for w in s.split()] for s in (i, r)]
        si = [i[0]] + [x for x in i[1:-1] if ctx.flag("i%d_%d" % (k, x))] + i[-1:] * (len(i) > 1)
        sr = [r[0]] + [x for x in r[1:-1] if ctx.flag("r%d_%d" % (k, x))] + r[-1:] * (len(r) > 1)
        routes.append(mk_route("L%d" % k, m[which], i, r, si, sr))
    build(ctx, g, routes, m)


def cases(tier):
    deep = tier != "quick"
    out = []
    todo = [(1, ["f"], [], 0), (1, ["r"], ["r"], 0), (1, ["re"], ["rs"], 1), (2, ["f", "re"], ["c"], 0),
            (2, ["r", "de"], ["ds"], 1), (2, ["d1", "t1"], [], 0), (3, ["f", "c"], ["r"], 0), (3, ["te", "c"], ["re"], 1),
            (3, ["de", "ts"], ["f"], 0), (4, ["t2"], ["c"], 0), (4, ["te2", "rs"], ["f"], 1), (4, ["de2", "f"], ["rse"], 0)]
    todo += [(10, ["f"], [], 0), (6, ["rse"], [], 1), (11, ["c"], [], 0)]
    if deep:
        todo += [(4, ["f", "r", "re", "rs", "c"], ["d1", "d2", "de1"], 0), (5, ["te2", "c", "f"], ["de2", "ts2"], 0),
                 (5, ["tse2", "c", "f"], ["dse2", "c"], 0), (4, ["t1", "t2", "te1", "te2"], ["c", "re"], 1),
                 (5, ["d2", "r"], ["t2", "c"], 0)]
    for n, a, b, sp in todo:
        out.append({"name": "families_%d_%s_%s%s" % (n, "+".join(a), "+".join(b), "_sparse" * sp), "fn": predefined,
                    "args": {"n": n, "first": a, "second": b, "sparse": bool(sp), "default_f": False}, "covers": ["built"]})
    for n, a, b in ((1, ["f"], ["r"]), (3, ["c"], ["r"])):
        out.append({"name": "initial_frequencies_%d" % n, "fn": predefined,
                    "args": {"n": n, "first": a, "second": b, "sparse": False, "default_f": True}, "covers": ["built"]})
    shapes = [
        [(0, "p0 s0 c s1 p1", "p1 s1 c s0 p0")],
        [(0, "p0 s0 s1 s2 c", "c s1 s0 p0"), (1, "s0 c s1", "s1 c s0")],
        [(0, "s0 s1 s2", "s2 s0"), (0, "s2 c s0", "s0 s2"), (1, "p0 s0", "s0 p0")],
        [(0, "c", "c"), (1, "p2 s2 s1", "s1 s2 p2")],
    ]
    if deep:
        shapes += [[(0, "p0 s0 c s1 p1", "p1 s1 s0 p0"), (0, "p0 s0 s1 s2 p2", "p2 s2 c s0 p0")],
                   [(0, "p0 s0 s1 c s2 p2", "p2 s2 s1 s0 p0"), (1, "p1 s1 c", "c s2 s1 p1")]]
    for k, s in enumerate(shapes):
        for sp in (False, True):
            out.append({"name": "custom_%d%s" % (k, "_sparse" * sp), "fn": custom, "args": {"shapes": s, "sparse": sp},
                        "covers": ["built"]})
    return out
