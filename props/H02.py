"""Elemental paths and the tables for a whole matrix."""
from props.H01 import setting, topology
from props.lib import *

BOUNDS = "the networks of H01 (1..6 lines, two modes, rings, unconnected parts) with 1..4 of their ride times, frequencies, " \
         "penalties or access times arbitrary, in both directions; matrices over all nodes of a city of one zone and pairs of " \
         "larger ones with arbitrary non-negative entries, zero included"
ASSUMPTIONS = ["the subjective value of in-vehicle time is positive"]


def walks(suc, stop, o, d):
    """all walks along successors from a stop (None: one of them repeats a node)"""
    done, todo = [], [[o, stop]]
    while todo:
        p = todo.pop()
        if p[-1] is d:
            done.append(p)
            continue
        for e in suc[p[-1]] if p[-1] in suc else []:
            if any(e.nodej is q for q in p):
                return None
            todo.append(p + [e.nodej])
    return done


def key(p):
    return tuple(id(n) for n in p)


def check_pair(ctx, X, o, d, paths, suc, lab):
    edges = {(id(e.nodei), id(e.nodej)) for e in X.edges}
    ctx.check("only_stops_of_the_origin", all(s.city_node is o for s in paths))
    for s in list(X.nodes[o]):
        want = walks(suc, s, o, d)
        ctx.check("acyclic", want is not None)
        if want is None:
            continue
        got = paths[s] if s in paths else []
        for p in got:
            ctx.check("starts_at_origin_and_stop", len(p) > 2 and p[0] is o and p[1] is s)
            ctx.check("ends_at_destination", p[-1] is d)
            ctx.check("no_node_twice", len(set(key(p))) == len(p))
            ctx.check("edge_by_edge", all((id(a), id(b)) in edges for a, b in zip(p, p[1:])))
            ctx.check("along_chosen_successors", all(any(e.nodej is b for e in suc[a]) for a, b in zip(p[1:], p[2:])))
        ctx.check("exactly_the_walks", sorted(map(key, got)) == sorted(map(key, want)))
        ctx.check("path_iff_label", (lab[s] != INF) == bool(want))


def pair(ctx, topo, what, back):
    X, pax, o, d, g, routes = setting(ctx, topo, what, back)
    if o is None or d is None:
        return
    hp = Hyperpath(X.eg, pax)
    out, exc = ctx.attempt(hp.get_hyperpath_OD, o, d)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    paths, lab, suc, freq = out
    check_pair(ctx, X, o, d, paths, suc, lab)
    s2, l2, f2 = Hyperpath(X.eg, pax).build_hyperpath_graph(o, d)
    for n in l2:
        ctx.eq("labels_of_the_hyperpath", lab[n], l2[n])
        ctx.check("successors_of_the_hyperpath", [id(e) for e in suc[n]] == [id(e) for e in s2[n]])
    ctx.cover("paths" if paths else "none")


def matrix(ctx, topo, what, pairs):
    """the tables for a matrix are those of its pairs with trips"""
    X, pax, _, _, g, routes = setting(ctx, topo, what)
    ids = {n.name: n.id for n in g.get_nodes()}
    g3, names, _, _, _ = topology(topo, [mk_mode(), mk_mode("metro")])
    od = defaultdict(lambda: defaultdict(float))
    allp = []
    for n, (a, b) in enumerate(pairs):
        a, b = names[a], names[b]
        od[a][b] = ctx.real("v%d" % n, 0, 1000)
        allp.append((a, b))
    before = {a: dict(od[a]) for a in od}
    out, exc = ctx.attempt(Hyperpath(X.eg, pax).get_all_hyperpaths, od)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    hyper, labels, succ, freq, V = out
    some = False
    for a, b in allp:
        o, d = X.city[a], X.city[b]
        v = before[a][b]
        if v == 0:
            for t in (hyper, V, labels, succ):
                ctx.check("no_pair_without_trips", o not in t or d not in t[o])
            continue
        some = True
        ctx.eq("trips", V[o][d], v)
        paths, lab, suc, f = Hyperpath(X.eg, pax).get_hyperpath_OD(o, d)
        nodes = [n for c in X.nodes for n in [c] + [m for s in X.nodes[c] for m in [s] + list(X.nodes[c][s])]]
        ctx.check("pair_listed", o in hyper and d in hyper[o])
        for n in nodes:
            ctx.eq("labels_of_the_pair", labels[o][d][n], lab[n])
            ctx.eq("frequencies_of_the_pair", freq[o][d][n], f[n])
            ctx.check("successors_of_the_pair", [id(e) for e in succ[o][d][n]] == [id(e) for e in suc[n]])
        got = hyper[o][d]
        ctx.check("stops_of_the_pair", {id(s) for s in got if got[s]} == {id(s) for s in paths if paths[s]})
        for s in paths:
            ctx.check("paths_of_the_pair", sorted(map(key, got[s])) == sorted(map(key, paths[s])))
        check_pair(ctx, X, o, d, got, succ[o][d], labels[o][d])
    listed = {(id(o), id(d)) for o in hyper for d in hyper[o]}
    ctx.check("no_other_pair", listed <= {(id(X.city[a]), id(X.city[b])) for a, b in allp})
    ctx.check("trips_of_no_other_pair", {(id(o), id(d)) for o in V for d in V[o]} == listed)
    ctx.check("matrix_unchanged", {a: sorted(od[a]) for a in od} == {a: sorted(before[a]) for a in before})
    for a, b in allp:
        ctx.eq("matrix_entries_unchanged", od[a][b], before[a][b])
    ctx.cover("trips" if some else "empty")


PAIRS = [("two", "r f v a t"), ("three", "r"), ("modes", "r f a t"), ("transfer", "r f t"), ("walk", "r f a"), ("cut", "r f"),
         ("modes2", "t_A f_B"), ("direct", "t_A t_C f_C"), ("local", "t_A f_B"), ("choice", "t_D"), ("choice", "t_B t_C"),
         ("back", "t_A f_B"), ("ring", "t_X f_Y"), ("ring", "t_Y t"), ("oneway", "t_A t"), ("asym", "t_B a"),
         ("eight", "t_A f_B"), ("funnel", "t_A"), ("long", "t_AI_c t_AR_c"), ("six", "t_AI_s0 t_AR_p0")]
DEEP = [("modes2", "t_A t_D f_B f_C"), ("direct", "r f"), ("local", "r f_A"), ("choice", "t_D f_B"), ("choice", "pa f_C"),
        ("back", "r f_A"), ("ring", "t_X f_X f_Y"), ("oneway", "r f"), ("asym", "r a"), ("eight", "r f"), ("funnel", "t_A f_D")]
TABLES = [("two", "t_A f_A", [("p0", "s0"), ("s0", "p0")]), ("modes", "t_A", [("p0", "s0"), ("s0", "p0")]),
          ("direct", "t_C", [("p0", "c"), ("s0", "c"), ("p0", "s0")]), ("choice", "", [("p0", "c"), ("s0", "c"), ("c", "p0")]),
          ("ring", "f_X", [("p0", "s1"), ("s2", "p0"), ("s1", "s2"), ("s0", "s2")]),
          ("back", "f_B", [("p0", "s1"), ("s1", "c")]), ("asym", "t", [("p0", "s1"), ("c", "p0"), ("s1", "p0")]),
          ("asym_named", "t", [("p0", "s1"), ("c", "p0"), ("s1", "p0")])]
TABLES_DEEP = [("choice", "t_D", [("p0", "c"), ("s0", "c"), ("c", "p0"), ("c", "s0"), ("s0", "p0"), ("p0", "s0")]),
               ("ring", "f_X t", [("p0", "s1"), ("s2", "p0"), ("s1", "s2"), ("s0", "s2"), ("s1", "p0"), ("s2", "s1")]),
               ("back", "t_A f_B", [("p0", "s1"), ("s1", "c"), ("c", "s1"), ("s1", "p0")])]


def cases(tier):
    deep = tier != "quick"
    out = []
    for topo, what in PAIRS + (DEEP if deep else []):
        for back in (False, True):
            out.append({"name": "%s%s_%s" % (topo, "_back" * back, what.replace(" ", "+")), "fn": pair,
                        "args": {"topo": topo, "what": what, "back": back}, "covers": ["none" if topo == "cut" else "paths"]})
    for k, (topo, what, pairs) in enumerate(TABLES + (TABLES_DEEP if deep else [])):
        out.append({"name": "matrix_%s_%d" % (topo, k), "fn": matrix, "args": {"topo": topo, "what": what, "pairs": pairs},
                    "covers": ["trips", "empty"]})
    return out
