"""Maps of cities, networks and strategies; the drawing library is a recorder of what is drawn where."""
import os
import sidermit.city.graph as mod_graph
import sidermit.publictransportsystem.network as mod_network
import sidermit.optimization.preoptimization.hyper_path as mod_path
from props.H01 import setting
from props.lib import *

BOUNDS = "maps of cities of 1..4 (quick) / 1..6 zones with arbitrary size, of networks of up to four lines of two modes with any " \
         "selection of lines and direction, and of the strategies of six networks with arbitrary ride times"
ASSUMPTIONS = ["networkx and matplotlib draw what they are told to; colours only have to tell kinds apart"]


class Any:
    def __getattr__(self, n):
        return lambda *a, **k: Any()


class Plt(Any):
    def __init__(self, log):
        self.log = log

    def savefig(self, path, *a, **k):
        self.log.append(("saved", path))

    def show(self, *a, **k):
        self.log.append(("shown", None))

    def get_cmap(self, *a, **k):
        return None


class Nx:
    def __init__(self, real, log):
        self.real, self.log = real, log

    def __getattr__(self, n):
        return getattr(self.real, n)

    def spring_layout(self, G, *a, **k):
        return {n: (0.0, 0.0) for n in G.nodes}

    def draw_networkx_nodes(self, G, pos, nodelist=None, node_color=None, **k):
        self.log.append(("nodes", list(G.nodes if nodelist is None else nodelist), node_color, {n: pos[n] for n in pos}))

    def draw_networkx_edges(self, G, pos, edgelist=None, edge_color=None, **k):
        self.log.append(("edges", list(G.edges if edgelist is None else edgelist), edge_color, {n: pos[n] for n in pos}))

    def draw_networkx_labels(self, G, pos, *a, **k):
        self.log.append(("labels", list(G.nodes), None, {n: pos[n] for n in pos}))


def drawing(ctx, mod, fn, *a, **k):
    """(what is drawn, exception)"""
    log, real, plt = [], mod.nx, mod.plt
    mod.nx, mod.plt = Nx(real, log), Plt(log)
    try:
        _, exc = ctx.attempt(fn, *a, **k)
    finally:
        mod.nx, mod.plt = real, plt
    return log, exc


def saved(ctx, log, path):
    ctx.check("written_once_to_the_given_file", [x[1] for x in log if x[0] in ("saved", "shown")] == [path])
    ctx.check("written_after_drawing", bool(log) and log[-1][0] == "saved")


def positions(ctx, g, log):
    where = {n.id: n for n in g.get_nodes()}
    for kind, items, _, pos in [x for x in log if x[0] in ("nodes", "edges", "labels")]:
        for i in dict.fromkeys(items if kind != "edges" else [q for e in items for q in e]):
            ctx.check("nodes_of_the_city", i in where)
            ctx.check("has_a_position", i in pos and len(pos[i]) == 2)
            if i in where and i in pos and len(pos[i]) == 2:
                ctx.eq("drawn_at_x", pos[i][0], where[i].x)
                ctx.eq("drawn_at_y", pos[i][1], where[i].y)


def kinds(ctx, g, log):
    """colours by node kind: every node drawn, kinds told apart"""
    colour = defaultdict(set)
    for x in log:
        if x[0] == "nodes":
            for i in x[1]:
                colour[i].add(x[2])
    of = {k: [n.id for n in g.get_nodes() if isinstance(n, k)] for k in (CBD, Subcenter, Periphery)}
    ctx.check("every_node_drawn", set(colour) == {n.id for n in g.get_nodes()})
    base = {k: set.intersection(*[colour[i] for i in ids]) if ids else set() for k, ids in of.items()}
    ctx.check("kinds_have_a_colour", all(base.values()))
    return colour, of, base


def shape(ctx, n, what):
    k = {"l": ctx.real("l", 0, 1000, True), "g": ctx.real("g", 0, 10, True)}
    if what == "etha":
        k.update(etha=ctx.real("etha", 0, 1), etha_zone=1)
    g, exc = ctx.attempt(Graph.build_from_parameters, n, k.pop("l"), k.pop("g"), 2, **k)
    return g


def town(ctx, n, what):
    g = shape(ctx, n, what) if what != "sparse" else sparse_city(n)
    if g is None:
        return
    path = os.path.join(ctx.tmp(), "map.png")
    log, exc = drawing(ctx, mod_graph, g.plot, path)
    ctx.check("drawn", exc is None)
    if exc is not None:
        return
    saved(ctx, log, path)
    positions(ctx, g, log)
    colour, of, base = kinds(ctx, g, log)
    ctx.check("kinds_told_apart", all(len(colour[i]) == 1 for i in colour) and len({next(iter(c)) for c in base.values() if c}) == 3)
    want = sorted((e.node1.id, e.node2.id) for e in g.get_edges())
    ctx.check("exactly_the_streets", sorted({e for x in log if x[0] == "edges" for e in x[1]}) == want)
    ctx.check("every_node_labelled", {i for x in log if x[0] == "labels" for i in x[1]} == {n.id for n in g.get_nodes()})
    ctx.cover("drawn")


def lines(ctx, topo):
    g, ids, routes, o, d = topology(topo, [mk_mode("bus"), mk_mode("metro")])
    net = network(g, routes)
    pick = ctx.choice("pick", ["all", "some", "none", "unknown"])
    direction = ctx.choice("direction", [None, "I", "R"])
    if pick == "all":
        chosen = None
    else:
        chosen = [r.id for k, r in enumerate(routes) if pick == "some" and ctx.flag("line%d" % k)]
        if pick == "unknown":
            chosen = [routes[0].id, "nowhere"]
    path = os.path.join(ctx.tmp(), "net.png")
    before = None if chosen is None else list(chosen)
    log, exc = drawing(ctx, mod_network, net.plot, path, chosen, direction) if ctx.flag("positional") else \
        drawing(ctx, mod_network, net.plot, path, list_routes=chosen, direction=direction)
    if pick == "unknown":
        ctx.check("unknown_line_refused", type(exc) is E.RouteIdNotFoundException and not [x for x in log if x[0] == "saved"])
        ctx.cover("refused")
        return
    ctx.check("drawn", exc is None)
    if exc is not None:
        return
    ctx.check("selection_untouched", chosen == before)
    saved(ctx, log, path)
    positions(ctx, g, log)
    streets = {(e.node1.id, e.node2.id) for e in g.get_edges()}
    sel = [r for r in routes if chosen is None or r.id in chosen]
    want = {dr: {(a, b) for r in sel for q, nodes, _ in directions(r) if q == dr for a, b in zip(nodes, nodes[1:])} for dr in "IR"}
    stops = {s for r in sel for q, _, ss in directions(r) for s in ss if direction in (None, q)}
    by = defaultdict(set)
    for x in log:
        if x[0] == "edges":
            by[x[2]] |= set(x[1])
    ctx.check("streets_drawn", any(v == streets for v in by.values()))
    for dr in "IR":
        if direction in (None, dr) and want[dr]:
            ctx.check("lines_drawn_" + dr, any(v == want[dr] for v in by.values()))
    shown = [want[dr] for dr in "IR" if direction in (None, dr)]
    ctx.check("nothing_else_drawn", all(v == streets or v in shown or not v for v in by.values()))
    colour, of, base = kinds(ctx, g, log)
    extra = {i for i in colour if len(colour[i]) > 1}
    ctx.check("exactly_the_stops_marked", extra == stops)
    ctx.cover("drawn")


def strategy(ctx, topo, what, back):
    X, pax, o, d, g, routes = setting(ctx, topo, what, back)
    out, exc = ctx.attempt(Hyperpath(X.eg, pax).get_hyperpath_OD, o, d)
    if exc is not None:
        return          # H02
    paths = out[0]
    log, exc = drawing(ctx, mod_path, Hyperpath.plot, paths)
    ctx.check("drawn", exc is None)
    if exc is not None:
        return

    def word(n):
        if isinstance(n, CityNode):
            return n.graph_node.name
        if isinstance(n, StopNode):
            return "%s - %s" % (n.mode.name, n.city_node.graph_node.name)
        return "%s %s - %s" % (n.route.id, n.direction, n.stop_node.city_node.graph_node.name)
    every = [p for s in paths for p in paths[s]]
    nodes = {i for x in log if x[0] == "nodes" for i in x[1]}
    edges = {e for x in log if x[0] == "edges" for e in x[1]}
    ctx.check("the_nodes_of_the_paths", nodes == {word(n) for p in every for n in p})
    ctx.check("the_steps_of_the_paths", edges == {(word(a), word(b)) for p in every for a, b in zip(p, p[1:])})
    ctx.check("shown_once", len([x for x in log if x[0] == "shown"]) == 1)
    ctx.cover("strategy")


def cases(tier):
    deep = tier != "quick"
    out = []
    for n in range(1, 7 if deep else 5):
        for what in ("plain", "etha", "sparse"):
            if what != "sparse" or n < 5:
                out.append({"name": "city_%d_%s" % (n, what), "fn": town, "args": {"n": n, "what": what}, "covers": ["drawn"]})
    for topo in ("one", "modes", "three", "ring", "oneway", "asym", "choice"):
        out.append({"name": "lines_" + topo, "fn": lines, "args": {"topo": topo}, "covers": ["drawn", "refused"]})
    for topo, what in [("two", "r"), ("modes", "t_A"), ("walk", ""), ("ring", "t_X"), ("choice", "t_D"), ("transfer", "t_A")]:
        for back in (False, True):
            out.append({"name": "strategy_%s%s" % (topo, "_back" * back), "fn": strategy,
                        "args": {"topo": topo, "what": what, "back": back}, "covers": ["strategy"]})
    return out
