"""Validation of a network against a matrix."""
import re
from props.lib import *

BOUNDS = "networks of 0..4 lines of 0..3 modes in cities of 1..3 zones (connected, unconnected, one-way, rings, sparse ids), " \
         "with matrices of up to 4 (quick) / 6 (thorough) pairs, unserved nodes included, whose entries are arbitrary non-negative " \
         "numbers; frequencies of up to two lines arbitrary, zero included; numbers of parallel lines arbitrary"
ASSUMPTIONS = ["the ends of a trip are different nodes", "modes have different names", "the subjective value of in-vehicle time is positive"]


def reachable(X, freq, o, d):
    """a journey from o to d with lines that run: boarding, riding, alighting, walking between modes"""
    o, d = X.city.get(o), X.city.get(d)
    if o is None or d is None:
        return False
    seen, todo = set(), [s for s in X.nodes[o]]
    while todo:
        n = todo.pop()
        if n is d:
            return True
        if id(n) in seen or n is o:
            continue
        seen.add(id(n))
        for e in X.edges:
            if e.nodei is n and (e.type != BOARD or freq[e.nodej.route.id] > 0):
                todo.append(e.nodej)
    return False


def snapshot(X):
    return [(id(c), [(id(s), [id(r) for r in X.nodes[c][s]]) for s in X.nodes[c]]) for c in X.nodes], \
        [(id(e), id(e.nodei), id(e.nodej), e.t, e.f, e.type) for e in X.edges]


def judge(ctx, g, routes, modes, freq, pairs, plain=False):
    """pairs: (origin id, destination id)"""
    pax = Passenger(4, 2, 4, 6, 16, 2, 4, 6, 16)
    f = defaultdict(float)
    f.update(freq)
    X = Ext(ExtendedGraph(g, routes, 16, f))
    od = {} if plain else defaultdict(lambda: defaultdict(float))
    for n, (a, b) in enumerate(pairs):
        if plain:
            od.setdefault(a, {})
        od[a][b] = ctx.real("v%d" % n, 0, 1000)
    before, vals = snapshot(X), {(a, b): od[a][b] for a in od for b in od[a]}
    out, exc = ctx.attempt(Hyperpath(X.eg, pax).network_validator, od)
    ctx.check("network_unchanged", snapshot(X) == before)
    ctx.check("matrix_unchanged", sorted((a, b) for a in od for b in od[a]) == sorted(vals))
    for (a, b), v in vals.items():
        ctx.check("matrix_entries_unchanged", od[a][b] == v)
    served = []
    for r in routes:
        if not any(r.mode is m for m in served):
            served.append(r.mode)
    rule = len(served) == 1 or (len(served) == 2 and ctx.Or(served[0].d == 1, served[1].d == 1))
    bad = [(a, b) for a, b in pairs if not reachable(X, freq, a, b)]
    ok = ctx.And(rule, *[vals[p] == 0 for p in bad])
    if exc is None:
        ctx.check("accepted_answer", out is True)
        ctx.check("accepted_only_when_every_trip_can_be_made", ok)
        ctx.cover("accepted")
    else:
        ctx.check("network_exception", type(exc) is E.TransportNetworkException)
        ctx.check("rejected_only_when_some_trip_cannot_be_made", ctx.Not(ok))
        said = set(map(int, re.findall(r"\d+", str(exc))))
        ctx.check("names_an_unconnected_pair", ctx.Or(ctx.Not(rule), *[vals[p] != 0 for p in bad if set(p) <= said]))
        ctx.cover("rejected")


def shaped(ctx, topo, pairs, sym_f, sparse=False, plain=False):
    ms = [mk_mode("bus", d=ctx.int("d0", 1, 5)), mk_mode("metro", d=ctx.int("d1", 1, 5))]
    g, ids, routes, _, _ = topology(topo, ms)
    freq = {r.id: ctx.real("f_" + r.id, 0, 100) if r.id in sym_f else 10 for r in routes}
    judge(ctx, g, routes, ms, freq, [(ids[a], ids[b]) for a, b in pairs], plain)


def many_modes(ctx, k, d):
    """0..3 modes serve the same street"""
    g = sparse_city(1)
    z = g.get_zones()[0]
    ms = [mk_mode("m%d" % j, d=ctx.int("d%d" % j, 1, 4)) for j in range(k)]
    routes = [mk_route("L%d" % j, m, [z.periphery.id, z.subcenter.id]) for j, m in enumerate(ms)]
    pairs = [(z.periphery.id, z.subcenter.id), (z.subcenter.id, g.get_cbd().id)]
    judge(ctx, g, routes, ms, {r.id: 10 for r in routes}, pairs[:d])


def families_of(ctx, n, names, sparse, count):
    g = sparse_city(n) if sparse else city(n)
    m = mk_mode("bus", d=ctx.int("d0", 1, 4))
    routes = families(g, m, names)
    nodes = [x.id for x in g.get_nodes()]
    allp = [(a, b) for a in nodes for b in nodes if a != b]
    first = ctx.choice("pair", allp)
    rest = [p for p in allp if p != first]
    second = rest[(7 * allp.index(first)) % len(rest)]
    judge(ctx, g, routes, [m], {r.id: 10 for r in routes}, [first, second][:count])


QUICK = [("two", [("p0", "s0"), ("s0", "p0"), ("p0", "c")], ["A", "B"]), ("modes", [("p0", "s0"), ("p1", "s0")], ["A"]),
         ("transfer", [("p0", "c"), ("s0", "c"), ("c", "p0")], ["A", "B"]), ("walk", [("p0", "c"), ("c", "p0"), ("p0", "s0")], ["A", "B"]),
         ("cut", [("p0", "s0"), ("p0", "s2"), ("c", "s1"), ("s1", "s2")], []), ("cut", [("s0", "s1"), ("s1", "p2")], ["A"]),
         ("oneway", [("p0", "s1"), ("c", "s0"), ("s1", "p0"), ("s0", "s1")], ["A"]),
         ("ring", [("p0", "s1"), ("s2", "p0"), ("s1", "p1"), ("s0", "c")], ["X"]),
         ("ring", [("s0", "s2"), ("s1", "s0")], ["X", "Y"]),
         ("direct", [("p0", "c"), ("s0", "p0"), ("c", "s0")], ["B", "C"]),
         ("asym", [("p0", "s1"), ("s1", "p0"), ("c", "s0")], ["A", "B"]),
         ("back", [("p0", "s1"), ("s1", "s0"), ("s0", "p0")], ["B", "C"]),
         ("asym_named", [("p0", "s1"), ("s1", "p0"), ("s0", "c")], ["A"]),
         ("ring_named", [("p0", "s1"), ("s2", "p0"), ("p1", "s0")], ["X"])]
DEEP = [("choice", [("p0", "c"), ("s0", "c"), ("c", "s0"), ("c", "p0"), ("p0", "s0"), ("s0", "p0")], ["D"]),
        ("local", [("p0", "c"), ("p0", "s0"), ("c", "s0"), ("s0", "p0"), ("p1", "c")], ["A", "C"]),
        ("oneway", [("p0", "s1"), ("c", "s0"), ("s1", "p0"), ("s0", "s1"), ("c", "s1"), ("s1", "c")], ["A", "B"]),
        ("ring", [("p0", "s1"), ("s2", "p0"), ("s1", "p1"), ("s0", "c"), ("s2", "s1")], ["X", "Y"])]


def cases(tier):
    deep = tier != "quick"
    out = []
    for k, (topo, pairs, fs) in enumerate(QUICK + (DEEP if deep else [])):
        out.append({"name": "%s_%d" % (topo, k), "fn": shaped, "args": {"topo": topo, "pairs": pairs, "sym_f": fs,
                                                                         "plain": k % 3 == 1}, "covers": ["accepted", "rejected"]})
    for k in range(4):
        for d in range(3):
            out.append({"name": "modes_%d_%d" % (k, d), "fn": many_modes, "args": {"k": k, "d": d},
                        "covers": ["rejected"] if k in (0, 3) else ["accepted"] if (k, d) == (1, 0) else ["accepted"]})
    for n, names, sp in [(1, ["r"], False), (1, ["f"], True), (2, ["re", "f"], True), (2, ["c", "rs"], False), (3, ["c"], False)] + \
            ([(3, ["r"], True), (3, ["f", "c"], True), (4, ["t2"], False), (2, ["d1"], False), (4, ["f", "rs"], False)] if deep else []):
        out.append({"name": "families_%d_%s" % (n, "+".join(names)), "fn": families_of,
                    "args": {"n": n, "names": names, "sparse": sp, "count": 2}, "covers": ["accepted"]})
    return out
