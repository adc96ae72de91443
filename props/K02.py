"""Fleet, cycle times and operators' cost."""
import props.A02 as A02
from props.lib import *

BOUNDS = "1..6 lines: every predefined family in cities of 1..4 (quick) / 1..8 (thorough) zones, custom two-way, one-way and asymmetric lines, rings; " \
         "street lengths, speeds, frequencies, capacities, unit costs, times per passenger arbitrary; tables of boardings and " \
         "alightings with arbitrary entries and every pattern of stops with boardings only, alightings only, both or none (up to " \
         "three stops per direction), and those of the assignment on 13 networks"
ASSUMPTIONS = ["frequencies are not negative"]


def three():
    return defaultdict(lambda: defaultdict(lambda: defaultdict(float)))


def spread(r):
    """nodes driven from one to the next, both directions"""
    return [p for s in (r.nodes_sequence_i, r.nodes_sequence_r) for p in zip(s, s[1:])]


def travel(ctx, n, names, sparse=False, topo=None):
    ms = [mk_mode("bus"), mk_mode("metro")]
    if topo:
        g, ids, routes, o, d = topology(topo, ms)
    else:
        g = sparse_city(n) if sparse else city(n)
        routes = families(g, ms[0], names)
        if len(routes) > 1:
            routes[-1].mode = ms[1]
    for k, m in enumerate(ms):
        m.v = ctx.real("v%d" % k, 0, 200, True)
    dist = defaultdict(lambda: defaultdict(float))
    k = 0
    for e in g.get_edges():
        dist[e.node1.id][e.node2.id] = ctx.real("e%d" % k, 0, 100)
        k += 1
    before = {a: dict(dist[a]) for a in dist}
    out, exc = ctx.attempt(OperatorsCost.lines_travel_time, routes, dist)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    for r in routes:
        ctx.eq("running_time_is_length_by_speed", out[r.id] * r.mode.v, sum(before[a][b] for a, b in spread(r)))
    ctx.check("one_time_per_line", sorted(map(str, out)) == sorted(str(r.id) for r in routes))
    ctx.cover("travel")


def cycle_want(r, base, z, v):
    """z, v: [direction][stop]"""
    t = r.mode.t / 3600
    out = base
    for d in "IR":
        zd, vd = z[r.id][d], v[r.id][d]
        for s in dict.fromkeys(list(zd) + list(vd)):
            a, b = zd.get(s, 0), vd.get(s, 0)
            out = out + t * (a + b if r.mode.bya == 0 else (a if a >= b else b))
    return out


def freeze(t, routes):
    return {r.id: {d: dict(t[r.id][d]) if r.id in t and d in t[r.id] else {} for d in "IR"} for r in routes}


def cycle(ctx, topo, bya, pattern, other):
    """pattern, other: per stop of the first line's directions 'z', 'v', 'b'oth or '-'"""
    ms = [mk_mode("bus", bya=bya), mk_mode("metro", bya=1 - bya)]
    g, ids, routes, o, d = topology(topo, ms)
    X = Ext(ExtendedGraph(g, routes, 16))
    for k, m in enumerate(ms):
        m.t = ctx.real("t%d" % k, 0, 60)
    z, v = three(), three()
    base = defaultdict(float)
    for n, r in enumerate(routes):
        base[r.id] = ctx.real("base%d" % n, 0, 10)
        for dr, _, stops in directions(r):
            pat = (pattern if dr == "I" else other) if n % 2 == 0 else (other if dr == "I" else pattern)
            # alightings listed first at some stops: the order of the tables carries no meaning
            for s, w in list(zip(dict.fromkeys(stops), pat))[::-1 if n % 2 else 1]:
                st = X.stop[r.mode.name, s]
                if w in "zb":
                    z[r.id][dr][st] = ctx.real("z_%s%s%d" % (r.id, dr, s), 0, 500)
                if w in "vb":
                    v[r.id][dr][st] = ctx.real("v_%s%s%d" % (r.id, dr, s), 0, 500)
    zf, vf = freeze(z, routes), freeze(v, routes)
    out, exc = ctx.attempt(OperatorsCost.get_cycle_time, z, v, routes, base)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    for r in routes:
        ctx.eq("cycle_time", out[r.id], cycle_want(r, base[r.id], zf, vf))
        for t, tf in ((z, zf), (v, vf)):
            for d in "IR":
                for s in tf[r.id][d]:
                    ctx.eq("tables_unchanged", t[r.id][d][s], tf[r.id][d][s])
    ctx.cover("cycle")


def loads(ctx, topo, what, pairs, zero=None, own=False, bya=(0, 1)):
    got = A02.loaded(ctx, topo, what, pairs, zero, own)
    if got is None:
        return
    X, g, pax, routes, trips, share, f, _, (z, v, load) = got
    for k, m in enumerate({id(r.mode): r.mode for r in routes}.values()):
        m.bya, m.t = bya[k], ctx.real("tb%d" % k, 0, 60)
    zf, vf = freeze(z, routes), freeze(v, routes)
    base = defaultdict(float, {r.id: ctx.real("base_%s" % r.id, 0, 10) for r in routes})
    out, exc = ctx.attempt(OperatorsCost.get_cycle_time, z, v, routes, base)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    for r in routes:
        ctx.eq("cycle_time", out[r.id], cycle_want(r, base[r.id], zf, vf))
    ctx.cover("cycle")


def cost(ctx, count, modes, idle):
    ms = [mk_mode("m%d" % k, co=ctx.real("co%d" % k, 0, 100), c1=ctx.real("c1_%d" % k, 0, 10), d=ctx.int("d%d" % k, 1, 4))
          for k in range(modes)]
    g = city(1)
    z = g.get_zones()[0]
    routes = [mk_route("L%d" % n, ms[n % modes], [z.periphery.id, z.subcenter.id]) for n in range(count)]
    f, k, tc = defaultdict(float), defaultdict(float), defaultdict(float)
    for n, r in enumerate(routes):
        f[r.id] = 0 if n in idle else ctx.real("f%d" % n, 0, 1000)
        if not (n in idle and n % 2):       # an idle line may be missing in the tables
            k[r.id] = ctx.real("k%d" % n, 0, 1000)
            tc[r.id] = ctx.real("tc%d" % n, 0, 100)
    want = sum((r.mode.co + r.mode.c1 * k.get(r.id, 0)) * f[r.id] * tc.get(r.id, 0) for r in routes)
    out, exc = ctx.attempt(OperatorsCost.get_operators_cost, routes, tc, f, k)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    ctx.eq("operators_cost", out, want)
    ctx.cover("cost")


def cases(tier):
    deep = tier != "quick"
    out = []
    fams = [(1, "f"), (1, "r"), (2, "d1 f"), (2, "re"), (3, "c"), (3, "d1 te1"), (4, "ds2 rs"), (4, "t2 c"), (3, "r f")]
    if deep:
        fams += [(n, w) for n in (5, 6, 8) for w in ("r f c", "d1 d2", "ts1 te2", "de%d" % (n // 2))]
    for n, w in fams:
        for sp in ((False, True) if n < 5 else (False,)):
            out.append({"name": "travel_%d_%s%s" % (n, w.replace(" ", "+"), "_sparse" * sp), "fn": travel,
                        "args": {"n": n, "names": w.split(), "sparse": sp}, "covers": ["travel"]})
    for topo in TOPOLOGIES:
        out.append({"name": "travel_%s" % topo, "fn": travel, "args": {"n": 3, "names": [], "topo": topo}, "covers": ["travel"]})
    pats = ["zz", "vv", "zv", "vz", "bb", "-v", "b-"]
    for bya in (0, 1):
        for i, a in enumerate(pats):
            out.append({"name": "cycle_%d_%s" % (bya, a), "fn": cycle, "covers": ["cycle"],
                        "args": {"topo": "two", "bya": bya, "pattern": a, "other": pats[(2 * i + 3) % 7]}})
        for topo, a, b in [("asym", "zbv", "vb"), ("ring", "vbz", "bzv"), ("oneway", "zvb", "bvz"), ("choice", "bbv", "-vb")] + \
                ([("local", "bbb", "bvv"), ("modes2", "bv", "vb"), ("ring", "bbb", "bbb"), ("asym", "bbb", "vvv")] if deep else []):
            out.append({"name": "cycle_%s_%d_%s_%s" % (topo, bya, a, b), "fn": cycle, "covers": ["cycle"],
                        "args": {"topo": topo, "bya": bya, "pattern": a, "other": b}})
    for k, (n, a) in enumerate(A02.settings(tier)):
        if deep or "choice" not in n:
            out.append({"name": "loads_%s" % n, "fn": loads, "args": {**a, "bya": ((0, 1), (1, 0))[k % 2]}, "covers": ["cycle"]})
    for count, modes, idle in [(1, 1, []), (2, 1, [0]), (3, 2, [1]), (4, 2, []), (4, 2, [0, 3]), (2, 2, [0, 1])] + \
            ([(6, 2, [2]), (8, 3, [])] if deep else []):
        out.append({"name": "cost_%d_%d_%s" % (count, modes, "".join(map(str, idle))), "fn": cost,
                    "args": {"count": count, "modes": modes, "idle": idle}, "covers": ["cost"]})
    return out
