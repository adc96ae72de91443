"""The results table."""
from props.world import *

BOUNDS = "13 custom networks of 1..6 lines and two modes and 8 of predefined families (rings, express and feeder lines), with 1..4 origin-destination pairs; up to " \
         "three of the frequencies arbitrary (zero included), trips, unit costs, boarding times and speeds arbitrary, numbers of parallel lines 1..4"
ASSUMPTIONS = ["some chosen line runs at every stop with passengers", "circular lines are the predefined rings, which stop everywhere (the type is not meant for hand-made routes and is not validated)"]


def sections(W, r):
    """per direction: (node, next node, passengers per hour between them)"""
    out = {"I": [], "R": []}
    for d, nodes, stops in directions(r):
        on = 0
        for k, (a, b) in enumerate(zip(nodes, nodes[1:])):
            if a in stops:
                on = W.load.get((r.id, d, a), 0)
            out[d].append((a, b, on))
    return out


def solved(ctx, topo, pairs, what, bya, freq, d):
    """(optimiser with a result, its world) or None when nobody can travel"""
    g, ids, routes, pax, dem, od = scene(ctx, topo, pairs, bya, what, d)
    opt = Optimizer(g, dem, pax, network(g, routes))
    freq = (freq * len(routes))[:len(routes)]
    x = [ctx.real("x_" + r.id, 0, 300, w == "y") if isinstance(w, str) else w for r, w in zip(routes, lettered(routes, freq))]
    f = defaultdict(float, {r.id: q for r, q in zip(routes, x)})
    try:
        W = World(g, routes, pax, od, f, f)
    except E.TransportNetworkException:
        return None
    opt.better_res = (list(x), True, 1, "m", 0, 1)
    return opt, W, routes, f


def harness(ctx, topo, pairs, what, bya, freq, d=1):
    got = solved(ctx, topo, pairs, what, bya, freq, d)
    if got is None:
        return
    opt, W, routes, f = got
    rows, exc = ctx.attempt(opt.get_network_results)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    ctx.check("one_row_per_route_in_order", [row[0] for row in rows] == [r.id for r in routes])
    if len(rows) != len(routes):
        return
    for r, row in zip(routes, rows):
        rid, F, per, k, B, tc, co, low, ti, tr = row
        sec = sections(W, r)
        ctx.check("one_section_per_pair_of_nodes", [(a, b) for a, b, _ in ti] == [(a, b) for a, b, _ in sec["I"]] and
                  [(a, b) for a, b, _ in tr] == [(a, b) for a, b, _ in sec["R"]])
        if not W.on[r.id]:
            for y in (F, per, k, B, tc, co, low) + tuple(w for _, _, w in list(ti) + list(tr)):
                ctx.eq("inactive_route_is_all_zero", y, 0)
            ctx.cover("inactive")
            continue
        ctx.eq("frequency", F, f[rid])
        ctx.eq("frequency_per_line", per * r.mode.d, f[rid])
        ctx.eq("vehicle_capacity", k, W.k[rid])
        ctx.eq("fleet", B, f[rid] * W.tc[rid])
        ctx.eq("cycle_time_in_minutes", tc, W.tc[rid] * 60)
        boards = sum(x for key, x in W.z.items() if key[0] == rid)
        if boards == 0:
            ctx.eq("nothing_per_passenger_without_passengers", co, 0)
            ctx.cover("empty")
        else:
            ctx.eq("cost_per_boarding_passenger", co * boards, (r.mode.co + r.mode.c1 * W.k[rid]) * f[rid] * W.tc[rid])
            ctx.cover("used")
        loads = [w for _, _, w in list(ti) + list(tr)]
        for y, (a, b, on) in zip(loads, sec["I"] + sec["R"]):
            ctx.eq("section_load", y * W.k[rid] * f[rid], on)
            ctx.le("load_between_0_and_1", 0, y)
            ctx.le("load_between_0_and_1", y, 1)
            ctx.check("no_load_without_passengers", ctx.Implies(on == 0, y <= 1e-9))
            ctx.le("minimum_load", low, y)
        ctx.check("minimum_load", ctx.Or(*[ctx.And(low - y <= 1e-6, y - low <= 1e-6) for y in loads]))
    ctx.cover("table")


# network, trips, arbitrary numbers, frequencies (x: arbitrary, y: arbitrary positive)
QUICK = [("one", "p0 s0 400", "V co0 c10 t0 v0", "y"), ("one", "p0 s0 400 s0 p0 90", "V", "y"), ("two", "p0 s0 400", "", "yx"), ("three", "p0 s0 400", "", "x9 4"),
         ("modes", "p0 s0 400 s0 p0 100", "", "x9"), ("modes2", "p0 s0 400", "V", "y5 7 6"), ("transfer", "p0 c 200 s0 c 50", "V", "y8"),
         ("walk", "p0 c 200 c p0 50", "V", "8y"), ("asym_named", "p0 s1 100 c p0 30", "V", "y7"), ("ring_named", "p0 s1 200 s2 p0 90", "", "8y9"), ("ring", "p0 s1 200 s2 p0 90", "", "8x9"), ("ring", "s0 s2 30 s1 s0 70", "V", "8y9"),
         ("ring", "s0 s1 50", "", "8yx"), ("direct", "p0 c 300 s0 c 80", "", "67x"), ("local", "p0 c 300 p0 s0 80", "", "5x7"),
         ("choice", "p0 c 200 s0 c 60", "", "5 7x6"), ("back", "p0 s1 90 c s1 30", "", "y56"), ("oneway", "p0 s1 90 s1 p0 40", "", "xy"),
         ("asym", "p0 s1 100 s1 p0 70 c p0 30", "V1", "y7"), ("skip", "p0 c 90 c p0 70", "V0", "y6"), ("skip", "c s0 50 s0 c 60", "V", "5y"),
         ("1:f r", "p0 c 90 s0 p0 20", "V0", "y7"), ("2:r", "p0 c 90 c s1 20 p1 p0 10", "V", "y7"), ("2:re f", "p0 c 90 s1 c 30", "", "y789"),
         ("3:c f", "p0 s1 60 s2 p1 20 s0 s2 10", "V0", "78967"), ("3:c", "s0 s1 60 s1 s2 20 s2 s0 10", "V", "yx"), ("2:d1", "p0 p1 60 s1 c 20", "V", "y"),
         ("4:t2 f", "p0 p2 60 s1 p1 20", "", "y57896"), ("2:rs:f", "p0 c 60 s1 s0 20", "V0", "y576"), ("2:f:rs", "p0 c 60 s1 s0 20", "V0", "56y89"), ("3:f:c", "s0 s1 60 s2 s1 20", "V0", "567y8"),
         ("eight", "c s1 60 s0 s2 20 s2 c 10", "V0", "y7"), ("funnel", "p0 c 90 s0 c 20", "", "x7y8"), ("long", "p0 p2 90 s0 s2 30 p1 s0 20 p2 p0 10", "V0", "57"), ("long", "p2 s0 40", "", "5y"), ("six", "p0 s0 300", "V0", "567894")]
DEEP = [("two", "p0 s0 400 s0 p0 90", "V co0 c10 t0", "xx"), ("three", "p0 s0 400 s0 p0 40", "V", "xyy"), ("modes", "p0 s0 400 s0 p0 100", "V", "xy"),
        ("modes2", "p0 s0 400", "V", "xyx6"), ("transfer", "p0 c 200 s0 c 50 p0 s0 10 c p0 40", "V", "yy"),
        ("walk", "p0 c 200 c p0 50", "V", "yy"), ("ring", "p0 s1 200 s2 p0 90", "V", "yxx"), ("direct", "p0 c 300 s0 c 80", "V", "xxx"),
        ("choice", "p0 c 200 s0 c 60", "", "5xx6"), ("asym", "p0 s1 100 s1 p0 70 c p0 30", "V", "yy"), ("local", "p0 c 300 p0 s0 80", "V", "5xx"),
        ("oneway", "p0 s1 90 s1 p0 40 c s0 20", "V", "xy"), ("skip", "p0 c 90 c p0 70 s0 c 40", "V", "yy"),
        ("3:c", "s0 s1 60 s1 s2 20 s2 s0 10 s1 s0 40", "V t0", "xx"), ("3:r:c", "p0 c 60 s1 s0 20", "V", "yy"), ("4:ds2:f", "p0 s2 60 s1 s3 20 p1 s1 9", "V", "y7")]


def pairs3(text):
    w = text.split()
    return [(a, b, float(v)) for a, b, v in zip(w[::3], w[1::3], w[2::3])]


def freqs(text):
    return [w if w in "xy" else float(w) for w in text.replace(" ", "")]


def settings(tier):
    out = []
    for k, (topo, p, what, fr) in enumerate(QUICK + (DEEP if tier != "quick" else [])):
        for bya in ((0, 1), (1, 0)) if tier != "quick" else (((0, 1), (1, 0))[k % 2],):
            out.append(("%s_%d_bya%d%d" % (topo.replace(" ", "+"), k, *bya),
                        {"topo": topo, "pairs": pairs3(p), "what": what, "bya": bya, "freq": freqs(fr), "d": (1, 2, 4)[k % 3]}))
    return out


def cases(tier):
    return [{"name": n, "fn": harness, "args": a, "covers": ["table"]} for n, a in settings(tier)]
