"""Shared pieces of the harnesses. Imports the repository's modules (already loaded by engine.shims)."""
import cmath
import math
from collections import defaultdict

from sidermit import exceptions as E
from sidermit.city import Graph, Demand, CBD, Periphery, Subcenter
from sidermit.city.graph import Node, Zone, Edge, GraphContentFormat
from sidermit.publictransportsystem import TransportMode, TransportModeManager, Passenger, TransportNetwork, Route, \
    RouteType

INF = float("inf")


def city(n, l=10, g=0.5, p=2, **k):
    return Graph.build_from_parameters(n, l, g, p, **k)


KINDS = {"CBD": CBD, "P": Periphery, "SC": Subcenter}
HEADER = "Content format: [node_id] [node_name] [x] [y] [node_type] [zone_id] [node_width]\n" \
         "Content format: each row provides have whitespace separated values\n\n"


def pajek_text(rows, vertices=None, end="\n"):
    """rows: tuples of fields"""
    return HEADER + "*vertices %d\n" % (len(rows) if vertices is None else vertices) + \
        "\n".join(" ".join(str(f) for f in r) for r in rows) + end


def pajek_rows(n, ids=None, l=10, g=1):
    ids = list(ids or range(2 * n + 1))
    rows = [(ids[0], "CBD", 0, 0, "CBD", 0, 2)]
    for z in range(1, n + 1):
        a = 360 * (z - 1) / n + 20
        w = cmath.rect(1, a * cmath.pi / 180)
        c, s = round(w.real, 3), round(w.imag, 3)
        rows.append((ids[2 * z - 1], "P_%d" % z, l * (1 + g) * c, l * (1 + g) * s, "P", z, 2))
        rows.append((ids[2 * z], "SC_%d" % z, l * c, l * s, "SC", z, 2))
    return rows


def same_names(g):
    for x in g.get_nodes():
        x.name = "N"
    return g


def sparse_city(n):
    """an imported city whose ids are neither consecutive nor ordered and whose nodes have one name"""
    ids = [11, 4, 27, 2, 9, 30, 1, 15, 8] + [(37 * k) % 101 + 31 for k in range(2 * n)]
    return same_names(Graph.build_from_content(pajek_text(pajek_rows(n, ids[:2 * n + 1]))))


def street_pairs(zones, cbd):
    """documented streets: (nodes by zone order) as a list of id pairs"""
    n = len(zones)
    out = []
    for z in zones:
        out += [(z.periphery.id, z.subcenter.id), (z.subcenter.id, cbd.id)]
    if n == 2:
        out.append((zones[0].subcenter.id, zones[1].subcenter.id))
    if n > 2:
        out += [(zones[i].subcenter.id, zones[(i + 1) % n].subcenter.id) for i in range(n)]
    return out + [(b, a) for a, b in out]


def check_streets(ctx, g, pre="", probe=True, lengths=True):
    """the street set, edge queries and street lengths keys of a city (ids concrete)"""
    zones, cbd, nodes = g.get_zones(), g.get_cbd(), g.get_nodes()
    want = street_pairs(zones, cbd)
    edges = g.get_edges()
    got = [(e.node1.id, e.node2.id) for e in edges]
    ctx.check(pre + "street_set", sorted(got) == sorted(want))
    ctx.check(pre + "edge_ids_distinct", len({e.id for e in edges}) == len(edges))
    ctx.check(pre + "edges_join_the_city_nodes", all(any(e.node1 is x for x in nodes) and any(e.node2 is x for x in nodes)
                                                     for e in edges))
    if probe:
        ids = [x.id for x in nodes]
        for i in ids + [max(ids) + 1, -1]:
            for j in ids + [max(ids) + 1, -1]:
                ctx.check(pre + "edge_query", g.edge_exist(i, j) == ((i, j) in want))
    if not lengths:
        return
    d = g.get_edges_distance()
    ctx.check(pre + "length_of_every_street", sorted((i, j) for i in d for j in d[i]) == sorted(want))


# ---------------------------------------------------------------- networks
from sidermit.optimization.preoptimization import ExtendedGraph, CityNode, StopNode, RouteNode, ExtendedEdgesType, \
    Hyperpath, Assignment
from sidermit.optimization import UsersCost, OperatorsCost, InfrastructureCost, Constrains
from sidermit.optimization.optimizer import Optimizer

ACCESS, BOARD, ALIGHT, RIDE = ExtendedEdgesType.ACCESS, ExtendedEdgesType.BOARDING, ExtendedEdgesType.ALIGHTING, \
    ExtendedEdgesType.ROUTE


def mk_mode(name="bus", bya=1, co=8.61, c1=0.15, c2=3.5, v=20, t=2.5, fmax=150, kmax=160, theta=0.7, tat=0, d=1, fini=28):
    return TransportMode(name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini)


def mk_route(rid, mode, i, r=None, si=None, sr=None, kind=RouteType.CUSTOM):
    """sequences as lists; r defaults to i reversed, stops default to all nodes"""
    r = i[::-1] if r is None else r
    txt = [",".join(map(str, s)) for s in (i, r, i if si is None else si, r if sr is None else sr)]
    return Route(rid, mode, *txt, _type=kind)


def families(g, mode, names):
    """routes by short names: f, r, rs, re, d1.., ds, de, t1.., ts, te, c"""
    net = TransportNetwork(g)
    out = []
    for w in names:
        if w == "f":
            out += net.get_feeder_routes(mode)
        elif w == "c":
            out += net.get_circular_routes(mode)
        else:
            kind, opt, jump = w[0], w[1:].rstrip("0123456789"), w.lstrip("abcdefghijklmnopqrstuvwxyz")
            k = {"short": "s" in opt, "express": "e" in opt}
            if kind == "r":
                out += net.get_radial_routes(mode, **k)
            else:
                fn = net.get_diametral_routes if kind == "d" else net.get_tangencial_routes
                out += fn(mode, jump=int(jump or 1), **k)
    return out


def network(g, routes):
    net = TransportNetwork(g)
    for r in routes:
        net.add_route(r)
    return net


class Ext:
    """an extended graph with its parts by name"""

    def __init__(self, eg):
        self.eg = eg
        self.nodes = eg.get_extended_graph_nodes()
        self.edges = eg.get_extended_graph_edges()
        self.city = {}
        self.stop = {}
        self.rn = {}
        for c in self.nodes:
            self.city[c.graph_node.id] = c
            for s in self.nodes[c]:
                self.stop[s.mode.name, c.graph_node.id] = s
                for r in self.nodes[c][s]:
                    self.rn[r.route.id, r.direction, c.graph_node.id] = r

    def edge(self, a, b):
        e = [e for e in self.edges if e.nodei is a and e.nodej is b]
        return e[0] if e else None


def directions(route):
    """(direction, nodes, stops) of the directions that a route has"""
    return [x for x in (("I", route.nodes_sequence_i, route.stops_sequence_i),
                        ("R", route.nodes_sequence_r, route.stops_sequence_r)) if x[1]]


def legs(route):
    """consecutive stops of each direction: (direction, from, to, nodes driven from the one to the other inclusive)"""
    out = []
    for d, nodes, stops in directions(route):
        at = 0
        for a, b in zip(stops, stops[1:]):
            i = nodes.index(a, at)
            j = nodes.index(b, i + 1)
            out.append((d, a, b, nodes[i:j + 1]))
            at = j
    return out


# ---------------------------------------------------------------- networks for passengers' paths
def three_zone(imported=False):
    """a city of three zones and its node ids by short name"""
    g = sparse_city(3) if imported else city(3)
    ids = {"c": g.get_cbd().id}
    for k, z in enumerate(g.get_zones()):
        ids["p%d" % k], ids["s%d" % k] = z.periphery.id, z.subcenter.id
    return g, ids


# name -> (routes, origin, destination); a route is (id, mode index, nodes[, return nodes, stops, return stops])
TOPOLOGIES = {
    "one": ([("A", 0, "p0 s0")], "p0", "s0"),
    "two": ([("A", 0, "p0 s0"), ("B", 0, "p0 s0")], "p0", "s0"),
    "three": ([("A", 0, "p0 s0"), ("B", 0, "p0 s0"), ("C", 0, "p0 s0")], "p0", "s0"),
    "four": ([("A", 0, "p0 s0"), ("B", 0, "p0 s0"), ("C", 0, "p0 s0"), ("D", 0, "p0 s0")], "p0", "s0"),
    "modes": ([("A", 0, "p0 s0"), ("B", 1, "p0 s0")], "p0", "s0"),
    "modes2": ([("A", 0, "p0 s0"), ("B", 1, "p0 s0"), ("C", 0, "p0 s0"), ("D", 1, "p0 s0")], "p0", "s0"),
    "transfer": ([("A", 0, "p0 s0"), ("B", 0, "s0 c")], "p0", "c"),
    "walk": ([("A", 0, "p0 s0"), ("B", 1, "s0 c")], "p0", "c"),
    "direct": ([("A", 0, "p0 s0"), ("B", 0, "s0 c"), ("C", 0, "p0 s0 c", None, "p0 c", "c p0")], "p0", "c"),
    "local": ([("A", 0, "p0 s0 c"), ("B", 0, "p0 s0 c", None, "p0 c", "c p0"), ("C", 0, "s0 c")], "p0", "c"),
    "choice": ([("A", 0, "p0 s0"), ("B", 0, "s0 c"), ("C", 1, "s0 c"), ("D", 1, "p0 s0 c", None, "p0 c", "c p0")],
               "p0", "c"),
    "back": ([("A", 0, "p0 s0 c"), ("B", 0, "s0 s1"), ("C", 0, "c s1")], "p0", "s1"),
    "ring": ([("F", 0, "p0 s0"), ("X", 0, "s0 s1 s2 s0", "", None, ""), ("Y", 0, "", "s2 s1 s0 s2", "", None)], "p0", "s1"),
    "fork": ([("A", 0, "p0 s0 c s1"), ("B", 0, "p0 s0 c"), ("C", 0, "p0 s0 c s1", None, "p0 s1", "s1 p0")], "p0", "s1"),
    "cut": ([("A", 0, "p0 s0"), ("B", 0, "c s1"), ("C", 1, "s0 s2")], "p0", "s2"),
    "oneway": ([("A", 0, "p0 s0 c", "c s1 s0 p0"), ("B", 0, "c s1", None)], "p0", "s1"),
    "asym": ([("A", 0, "p0 s0 c", "c s0 p0", "p0 s0 c", "c p0"), ("B", 1, "s0 c s1", "s1 s0")], "p0", "s1"),
    "eight": ([("A", 0, "s0 c s1 s2", "s2 c s1 s0"), ("B", 0, "c s1")], "c", "s1"),
    "funnel": ([("A", 0, "p0 s0"), ("B", 0, "p0 s0"), ("C", 0, "s0 c"), ("D", 0, "s0 c")], "p0", "c"),
    "long": ([("B", 1, "p1 s1 s0 s2 p2", None, "p1 s0 p2", "p2 s2 s1 p1"), ("A", 0, "p0 s0 c s1 s2 p2")], "p0", "p2"),
    "six": ([(w, 0, "p0 s0") for w in "FBDACE"], "p0", "s0"),
    "skip": ([("A", 0, "p0 s0 s1 c", "c s0 p0", "p0 c", "c p0"), ("B", 1, "s0 s2 c s1", "s1 c s0", "s0 c s1", "s1 s0")], "p0", "c"),
}
for t in ("two", "walk", "asym", "modes2", "direct", "choice", "skip"):
    TOPOLOGIES[t][0].reverse()                      # lines and modes of the network in no alphabetical order
for t in ("transfer", "walk", "asym", "ring"):
    TOPOLOGIES[t + "_named"] = TOPOLOGIES[t]        # an imported city: all nodes have the same name, ids in no order


def topology(name, modes):
    """(city, ids, routes, origin id, destination id)"""
    spec, o, d = TOPOLOGIES[name]
    g, ids = three_zone(name.endswith("_named"))
    routes = []
    for r in spec:
        r = tuple(r) + (None,) * (6 - len(r))
        seq = lambda s: None if s is None else [ids[w] for w in s.split()]
        i = seq(r[2])
        back = i[::-1] if r[3] is None else seq(r[3])
        kind = RouteType.CIRCULAR if not i or not back else RouteType.CUSTOM
        routes.append(mk_route(r[0], modes[r[1]], i, back, i if r[4] is None else seq(r[4]),
                               back if r[5] is None else seq(r[5]), kind))
    return g, ids, routes, ids[o], ids[d]


def lettered(routes, values):
    """values given in alphabetical order of the lines -> in the order of the network"""
    at = dict(zip(sorted(r.id for r in routes), values))
    return [at[r.id] for r in routes]


def set_times(X, ride=None, freq=None):
    """ride[(route, direction, to node id)] -> hours; freq[route] -> boarding frequency"""
    for e in X.edges:
        if e.type == RIDE and ride is not None:
            k = (e.nodej.route.id, e.nodej.direction, e.nodej.stop_node.city_node.graph_node.id)
            if k in ride:
                e.t = ride[k]
        if e.type == BOARD and freq is not None and e.nodej.route.id in freq:
            e.f = freq[e.nodej.route.id]


def weight(e, pax, dest):
    """generalised hours of a non-boarding edge"""
    if e.type == ACCESS:
        return e.t * pax.pa / pax.pv
    if e.type == ALIGHT and e.nodej.city_node is dest:
        return 0
    return e.t


# ---------------------------------------------------------------- loading a network
def tables(X, pax, pairs):
    """paths for unit trips of the pairs (origin id, destination id) as get_all_hyperpaths gives them"""
    od = defaultdict(lambda: defaultdict(float))
    for a, b in pairs:
        od[a][b] = 1
    return Hyperpath(X.eg, pax).get_all_hyperpaths(od)


def flows(suc, starts, dest, f):
    """passengers on every edge followed by those who start at the given stops: [(edge, passengers)]"""
    order, seen = [], set()

    def visit(n):
        if id(n) in seen:
            return
        seen.add(id(n))
        if n is not dest and not (isinstance(n, StopNode) and n.city_node is dest):
            for e in suc[n]:
                visit(e.nodej)
        order.append(n)

    for s in starts:
        visit(s)
    at = {id(n): 0 for n in order}
    for s in starts:
        at[id(s)] += starts[s]
    out = []
    for n in order[::-1]:
        if n is dest or isinstance(n, StopNode) and n.city_node is dest:
            continue
        edges = list(suc[n])
        total = sum(f[e.nodej.route.id] for e in edges) if edges and edges[0].type == BOARD else None
        for e in edges:
            x = at[id(n)] * f[e.nodej.route.id] / total if total is not None else at[id(n)]
            out.append((e, x))
            at[id(e.nodej)] += x
    return out


def per_line(fl):
    """boardings, alightings and loads in passengers per hour by (route, direction, id of the stop)"""
    z, v, load = defaultdict(float), defaultdict(float), defaultdict(float)
    for e, x in fl:
        if e.type == BOARD:
            z[e.nodej.route.id, e.nodej.direction, e.nodei.city_node.graph_node.id] += x
        elif e.type == ALIGHT:
            v[e.nodei.route.id, e.nodei.direction, e.nodej.city_node.graph_node.id] += x
        elif e.type == RIDE:
            load[e.nodei.route.id, e.nodei.direction, e.nodei.stop_node.city_node.graph_node.id] += x
    return z, v, load


def flat(table):
    """a table of the repository [route][direction][stop] by (route, direction, id of the stop)"""
    return {(r, d, s.city_node.graph_node.id): table[r][d][s] for r in table for d in table[r] for s in table[r][d]}
