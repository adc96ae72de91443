"""Infrastructure: every street of a mode once."""
from props.lib import *

BOUNDS = "1..5 lines of 1..2 modes (custom two-way, one-way, asymmetric, overlapping lines, rings, predefined families) in " \
         "parametric cities of 1..4 zones, with arbitrary size, and imported cities with distinct street lengths and sparse ids; every combination of " \
         "idle and running lines, numbers of parallel lines and unit costs arbitrary"
ASSUMPTIONS = ["frequencies are not negative"]


def irregular(n):
    """an imported city whose streets all have different lengths"""
    ids = [11, 4, 27, 2, 9, 30, 1, 15, 8][:2 * n + 1]
    rows = [list(r) for r in pajek_rows(n, ids, 10, 1)]
    for k, r in enumerate(rows[1:]):
        f = 1 + (k * k + k) / 64
        r[2], r[3] = round(r[2] * f, 3), round(r[3] * f, 3)
    return Graph.build_from_content(pajek_text([tuple(r) for r in rows]))


def judge(ctx, g, routes, idle=None):
    """idle: a registered mode without lines"""
    net = TransportNetwork(g)
    if idle is not None:
        net.add_transport_mode(idle)
    for r in routes:
        net.add_route(r)
    f = defaultdict(float)
    for n, r in enumerate(routes):
        f[r.id] = ctx.real("f%d" % n, 0, 1000)
    dist = g.get_edges_distance()
    modes = []
    for r in routes:
        if not any(r.mode is m for m in modes):
            modes.append(r.mode)
    out, exc = ctx.attempt(InfrastructureCost.get_mode_network_distance, g, net, f)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    total = 0
    for m in modes:
        used = {}
        for r in routes:
            if r.mode is m and f[r.id] > 0:
                for s in (r.nodes_sequence_i, r.nodes_sequence_r):
                    for a, b in zip(s, s[1:]):
                        used[frozenset((a, b))] = dist[a][b]
        want = m.d * sum(used.values())
        ctx.eq("length_of_a_mode", out[m] if m in out else 0, want)
        total = total + m.c2 * want
    for m in out:
        ctx.check("only_modes_of_the_network", any(m is x for x in list(modes) + list(net.get_modes())))
    c, exc = ctx.attempt(InfrastructureCost.get_infrastruture_cost, g, net, f)
    ctx.check("computed", exc is None)
    if exc is None:
        ctx.eq("infrastructure_cost", c, total)
        ctx.cover("cost")


def sym_modes(ctx, k):
    return [mk_mode("m%d" % j, c2=ctx.real("c2_%d" % j, 0, 1000), d=1 if k > 1 and j else ctx.int("d%d" % j, 1, 6))
            for j in range(k)]


def shaped(ctx, topo):
    ms = sym_modes(ctx, 2)
    g, ids, routes, o, d = topology(topo, ms)
    judge(ctx, g, routes, None if any(r.mode is ms[1] for r in routes) else ms[1])


def built(ctx, n, names, kind, modes):
    ms = sym_modes(ctx, modes)
    g = irregular(n) if kind == "irregular" else city(n, l=ctx.real("l", 0, 100, True)) if kind == "sized" else city(n)
    routes = []
    for k, w in enumerate(names):
        routes += families(g, ms[k % modes], [w])
    seen = {}
    for r in routes:        # the same family for two modes has the same ids
        seen[r.id] = seen.get(r.id, 0) + 1
        if seen[r.id] > 1:
            r.id = "%s_%d" % (r.id, seen[r.id])
    judge(ctx, g, routes)


def overlap(ctx, which):
    """lines that share streets in the same or the opposite direction, within and across modes"""
    g = irregular(3)
    ids = {"c": g.get_cbd().id}
    for k, z in enumerate(g.get_zones()):
        ids["p%d" % k], ids["s%d" % k] = z.periphery.id, z.subcenter.id
    m = sym_modes(ctx, 2)
    lines = {"same": [(0, "p0 s0 c", None), (0, "s0 c s1", None), (0, "p0 s0", None)],
             "opposite": [(0, "s0 s1 s2 s0", ""), (0, "", "s2 s1 s0 s2"), (0, "s0 s1", None)],
             "oneway": [(0, "p0 s0 s1 c", "c s0 p0"), (0, "c s1 s0", "s0 c"), (1, "s1 c s2", "s2 s1")],
             "modes": [(0, "p0 s0 c", None), (1, "p0 s0 c", None), (0, "c s1", None), (1, "s1 c", None)],
             "apart": [(0, "p0 s0", None), (1, "p1 s1", None), (0, "c s2 p2", None)],
             "again": [(0, "s1 c", None), (0, "c s1", None), (0, "s1 s2 c", "c s1")]}[which]
    routes = []
    for k, (j, i, r) in enumerate(lines):
        i = [ids[x] for x in i.split()]
        r = i[::-1] if r is None else [ids[x] for x in r.split()]
        routes.append(mk_route("L%d" % k, m[j], i, r, kind=RouteType.CUSTOM if i and r else RouteType.CIRCULAR))
    judge(ctx, g, routes)


def cases(tier):
    deep = tier != "quick"
    out = [{"name": "shape_%s" % t, "fn": shaped, "args": {"topo": t}, "covers": ["cost"]} for t in TOPOLOGIES]
    for n, w, kind, k in [(1, "f", "sized", 1), (1, "r f", "irregular", 2), (2, "r", "sized", 1), (2, "re f", "irregular", 2), (3, "c", "sized", 1),
                          (3, "c f", "irregular", 2), (4, "t2 c", "irregular", 2), (4, "d2 rs", "plain", 2), (3, "r", "irregular", 1)] + \
            ([(4, "r f", "irregular", 2), (4, "c c", "irregular", 2), (5, "t1 c", "irregular", 2), (6, "d3 t3", "plain", 2)] if deep else []):
        if n > 4 and kind == "irregular":
            kind = "plain"
        out.append({"name": "built_%d_%s_%s_%d" % (n, w.replace(" ", "+"), kind, k), "fn": built,
                    "args": {"n": n, "names": w.split(), "kind": kind, "modes": k}, "covers": ["cost"]})
    for w in ("same", "opposite", "oneway", "modes", "apart", "again"):
        out.append({"name": "overlap_%s" % w, "fn": overlap, "args": {"which": w}, "covers": ["cost"]})
    return out
