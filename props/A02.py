"""Conservation of passengers; exact loads are A03's."""
from props.H01 import setting
from props.lib import *

BOUNDS = "16 networks of 1..6 lines (parallel lines, a line that passes the same way in both its directions, transfers, walking transfers between modes, express lines, rings, one-way " \
         "and asymmetric lines) in a city of three zones; every strategy that up to three arbitrary ride times or frequencies can " \
         "bring about; 1..6 origin-destination pairs at once with arbitrary non-negative trips; arbitrary positive frequencies " \
         "of all lines and an idle one; arbitrary shares of the origin's stops"
ASSUMPTIONS = ["at every stop with passengers some chosen line has a positive frequency"]


def loaded(ctx, topo, what, pairs, zero=None, own=False):
    """(X, routes, pairs with their trips, shares, frequencies, tables, result of the assignment)
    own: shares as the repository assigns them"""
    X, pax, _, _, g, routes = setting(ctx, topo, what)
    ids = {"c": g.get_cbd().id}
    for k, zone in enumerate(g.get_zones()):
        ids["p%d" % k], ids["s%d" % k] = zone.periphery.id, zone.subcenter.id
    ods = [(ids[a], ids[b]) for a, b in pairs]
    out, exc = ctx.attempt(tables, X, pax, ods)
    if exc is not None:
        return None
    hyper, labels, suc, freq, V = out
    f = defaultdict(float)
    for r in routes:
        f[r.id] = 0 if r.id == zero else ctx.real("q_%s" % r.id, 0, 500, True)
    share = Assignment.get_assignment(hyper, labels, g.get_parameters()[3], pax.va, pax.pa, pax.pv) if own \
        else defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    trips = []
    for n, (a, b) in enumerate(ods):
        o, d = X.city[a], X.city[b]
        v = ctx.real("V%d" % n, 0, 5000)
        V[o][d] = v
        stops = [s for s in hyper[o][d] if hyper[o][d][s]]
        if not own:
            first = ctx.real("share%d" % n, 0, 100) if len(stops) == 2 else 100
            for s, x in zip(stops, [first, 100 - first]):
                share[o][d][s] = x
        for s in stops:
            for m in {id(e.nodei): e.nodei for p in hyper[o][d][s] for q in p for e in suc[o][d][q] if e.type == BOARD}.values():
                if zero and all(e.nodej.route.id == zero for e in suc[o][d][m]):
                    return None         # only the idle line would serve this stop
        trips.append((o, d, v, stops))
    out, exc = ctx.attempt(Assignment.get_alighting_and_boarding, V, hyper, suc, share, f)
    ctx.check("computed", exc is None)
    if exc is not None:
        return None
    return X, g, pax, routes, trips, share, f, (hyper, labels, suc, V), out


def harness(ctx, topo, what, pairs, zero=None, own=False):
    got = loaded(ctx, topo, what, pairs, zero, own)
    if got is None:
        return
    X, g, pax, routes, trips, share, f, _, out = got
    z, v, load = map(flat, out)
    known = {(r.id, d, s) for r in routes for d, _, stops in directions(r) for s in stops}
    for t in (z, v, load):
        ctx.check("only_stops_of_the_lines", set(t) <= known)
        for k in t:
            ctx.check("never_negative", t[k] >= 0)
    board, alight = defaultdict(float), defaultdict(float)      # passengers per hour by node
    for r in routes:
        for d, _, stops in directions(r):
            k = [(r.id, d, s) for s in stops]
            ring = stops[0] == stops[-1]
            ctx.eq("boardings_equal_alightings", sum(z.get(x, 0) for x in dict.fromkeys(k)),
                   sum(v.get(x, 0) for x in dict.fromkeys(k)))
            on = load.get(k[-2], 0) if ring else 0      # passengers stay on a ring when it closes
            for x in k[:-1]:
                on = on + z.get(x, 0) - v.get(x, 0)
                ctx.eq("load_before_plus_boardings_minus_alightings", load.get(x, 0), on)
            if not ring:
                ctx.eq("nobody_boards_at_the_end", z.get(k[-1], 0), 0)
                ctx.eq("nobody_alights_at_the_start", v.get(k[0], 0), 0)
                ctx.eq("no_section_after_the_end", load.get(k[-1], 0), 0)
            if not ring:
                ctx.eq("empty_after_the_end", on, v.get(k[-1], 0))
            for x in dict.fromkeys(k):
                scale = f[r.id] if r.id != zero else 1
                board[x[2]] += z.get(x, 0) * scale
                alight[x[2]] += v.get(x, 0) * scale
    # node by node: who starts or changes there boards, who arrives or changes alights
    starts, ends = defaultdict(float), defaultdict(float)
    for o, d, t, stops in trips:
        x = sum(t * share[o][d][s] / 100 for s in stops)
        starts[o.graph_node.id] += x
        ends[d.graph_node.id] += x
    for n in g.get_nodes():
        ctx.eq("alighting_passengers_board_again", board[n.id] - starts[n.id], alight[n.id] - ends[n.id])
    if len(trips) == 1:
        o, d, t, stops = trips[0]
        ctx.eq("trips_board_at_the_origin", board[o.graph_node.id], t)
        ctx.eq("nobody_returns_to_the_origin", alight[o.graph_node.id], 0)
        ctx.eq("trips_alight_at_the_destination", alight[d.graph_node.id], t)
        ctx.eq("nobody_leaves_the_destination", board[d.graph_node.id], 0)
        for s in stops:
            here = sum(z.get((r.id, x, o.graph_node.id), 0) * (f[r.id] if r.id != zero else 1)
                       for r in routes if r.mode is s.mode for x in "IR")
            walk = not any(e.type == BOARD for e in got[7][2][o][d][s])
            if not walk and len(stops) == 2:
                ctx.eq("trips_of_the_stop_board_there", here, t * share[o][d][s] / 100)
    ctx.cover("loaded")


SINGLE = [("two", "", "p0 s0"), ("three", "", "p0 s0"), ("modes", "", "p0 s0"), ("modes2", "", "p0 s0"),
          ("transfer", "", "p0 c"), ("walk", "", "p0 c"), ("direct", "t_A t_C", "p0 c"), ("local", "t_B f_A", "p0 c"),
          ("choice", "t_D f_B", "p0 c"), ("back", "t_A", "p0 s1"), ("ring", "t_X", "p0 s1"), ("ring", "t_Y", "s1 s0"),
          ("oneway", "t_A", "p0 s1"), ("asym", "t_B", "p0 s1"), ("local", "t_A", "p0 s0"),
          ("eight", "t_B", "c s1"), ("funnel", "", "p0 c")]
SINGLE_DEEP = [("three", "r", "p0 s0"), ("modes2", "t_A t_D", "p0 s0"), ("direct", "r f_C", "p0 c"), ("local", "r", "p0 c"),
               ("choice", "t_D t_C f_B", "p0 c"), ("choice", "t_A t_B pa", "p0 c"), ("back", "t_A t_B f_C", "p0 s1"),
               ("ring", "t_X f_Y t", "s2 p0"), ("oneway", "t_A f_B", "p0 s1"), ("eight", "t_A f_B", "c s1"), ("funnel", "t_A f_D", "p0 c")]
TABLES = [("two", "", "p0 s0 s0 p0"), ("modes2", "", "p0 s0 s0 p0"), ("transfer", "", "p0 s0 p0 c s0 c c p0"),
          ("walk", "", "p0 c s0 c c p0"), ("direct", "", "p0 c s0 c p0 s0 c p0"), ("local", "t_B", "p0 c p0 s0 s0 c"),
          ("choice", "t_D", "p0 c s0 c c p0"), ("back", "", "p0 s1 c s1 s0 c"), ("ring", "", "p0 s1 s2 p0 s1 s2 s0 s2"),
          ("fork", "t_C", "p0 c p0 s1"), ("oneway", "", "p0 s1 c s0 s1 p0"), ("asym", "", "p0 s1 s1 s0 c p0 s0 c"),
          ("eight", "", "c s1 s0 s2 s2 s1"), ("funnel", "", "p0 c s0 c"), ("asym_named", "", "p0 s1 c p0 s0 c"), ("walk_named", "", "p0 c c p0"),
          ("long", "", "p0 p2 s0 s2 c p2 p2 p0 p1 s0"), ("six", "", "p0 s0 s0 p0")]
TABLES_DEEP = [("choice", "t_D", "p0 c s0 c c p0 p0 s0 s0 p0 c s0"), ("local", "t_B", "p0 c p0 s0 s0 c c p0 s0 p0 c s0"),
               ("ring", "t_X", "p0 s1 s2 p0 s1 s2 s0 s2 s1 p0 s2 s1"), ("back", "t_B", "p0 s1 c s1 s0 c s1 p0 c p0 s1 c"),
               ("asym", "t_B", "p0 s1 s1 s0 c p0 s0 c s0 s1 p0 c")]


def pairs_of(text):
    w = text.split()
    return list(zip(w[::2], w[1::2]))


def settings(tier):
    deep = tier != "quick"
    out = []
    for topo, what, p in SINGLE + (SINGLE_DEEP if deep else []):
        a, b = p.split()
        for pr in ([(a, b)], [(b, a)]):
            out.append(("%s_%s_%s%s" % (topo, what.replace(" ", "+"), pr[0][0], pr[0][1]),
                        {"topo": topo, "what": what, "pairs": pr}))
    for k, (topo, what, p) in enumerate(TABLES + (TABLES_DEEP if deep else [])):
        out.append(("table_%s_%s_%d" % (topo, what, k), {"topo": topo, "what": what, "pairs": pairs_of(p)}))
    for topo, zero, p in [("two", "B", "p0 s0"), ("three", "A", "p0 s0"), ("direct", "A", "p0 c s0 c"), ("local", "C", "p0 c s0 c"),
                          ("modes2", "C", "p0 s0")]:
        out.append(("idle_%s_%s" % (topo, zero), {"topo": topo, "what": "", "pairs": pairs_of(p), "zero": zero}))
    for topo, what, p in [("modes", "t_A", "p0 s0"), ("modes2", "t_A", "p0 s0"), ("choice", "t_D", "p0 c")]:
        out.append(("own_shares_%s" % topo, {"topo": topo, "what": what, "pairs": pairs_of(p), "own": True}))
    return out


def cases(tier):
    return [{"name": n, "fn": harness, "args": a, "covers": ["loaded"]} for n, a in settings(tier)]
