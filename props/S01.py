"""Results depend on the inputs only: nothing is kept between computations and the inputs stay as they were."""
import numbers
import os
from engine import shims
from engine.sym import SymNum
from props.lib import *

BOUNDS = "sessions of 2..4 computations on one set of loaded modules (other cities, demands, networks, frequencies, passengers and " \
         "edited parameters in between), each compared with the same computation on modules loaded anew; 7 pairs of networks of " \
         "1..4 lines, cities of 1..4 zones, lines over the same nodes one of which is edited; trips, frequencies, speeds, penalties, sizes of the city arbitrary, several at a time"
ASSUMPTIONS = ["some chosen line runs at every stop with passengers",
               "containers returned by get_matrix, get_routes, get_modes, get_nodes, ... are the objects' own and are not edited by the caller"]


class NS:
    """the repository's names, loaded anew"""

    def __init__(self, ctx):
        self.__dict__.update(shims.fresh(ctx.symbolic))


def same(ctx, label, a, b):
    """equal values, numbers to the tolerance"""
    if isinstance(a, dict) and isinstance(b, dict):
        ctx.check(label, sorted(map(str, a)) == sorted(map(str, b)))
        for k in a:
            if k in b:
                same(ctx, "%s.%s" % (label, k) if isinstance(k, str) and "." not in label else label, a[k], b[k])
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        ctx.check(label, len(a) == len(b))
        for x, y in zip(a, b):
            same(ctx, label, x, y)
    elif isinstance(a, (SymNum, numbers.Number)) and isinstance(b, (SymNum, numbers.Number)):
        ctx.eq(label, a, b)
    else:
        ctx.check(label, a == b)


# ---------------------------------------------------------------- what objects hold
def of_city(g):
    par = g.get_parameters()
    return {"nodes": [(type(x).__name__, x.id, x.name, x.x, x.y, x.radius, x.angle, x.width, x.zone_id) for x in g.get_nodes()],
            "streets": [(e.id, e.node1.id, e.node2.id) for e in g.get_edges()],
            "zones": [(z.id, z.periphery.id, z.subcenter.id) for z in g.get_zones()],
            "parameters": list(par), "n": g.get_n(), "cbd": g.get_cbd().id}


def of_demand(d):
    m = d.get_matrix()
    return {"cells": [(i, j, m[i][j]) for i in m for j in m[i]], "total": d.get_total_trips()}


ATTR = "name bya co c1 c2 v t fmax kmax theta tat d fini".split()


def of_mode(m):
    return [getattr(m, k) for k in ATTR]


def of_route(r):
    return [r.id, r.mode.name, r._type.name, list(r.nodes_sequence_i), list(r.nodes_sequence_r), list(r.stops_sequence_i),
            list(r.stops_sequence_r)]


def of_network(n):
    return {"modes": [of_mode(m) for m in n.get_modes()], "routes": [of_route(r) for r in n.get_routes()]}


def of_pax(p):
    return [getattr(p, k) for k in "va pv pw pa pt spv spw spa spt".split()]


def where(n):
    if hasattr(n, "graph_node"):
        return ("city", n.graph_node.id)
    if hasattr(n, "city_node"):
        return ("stop", n.mode.name, n.city_node.graph_node.id)
    return ("line", n.route.id, n.direction, n.stop_node.city_node.graph_node.id)


# ---------------------------------------------------------------- a set-up and what is computed from it
class Setup:
    """city, passengers, modes, network and demand; val(name, default) gives the numbers"""

    def __init__(self, M, topo, pairs, val, bya=(1, 0)):
        self.M = M
        spec, o, t = TOPOLOGIES[topo]
        self.g = M.Graph.build_from_parameters(3, val("l", 10), 0.5, val("p", 2))
        ids = self.ids = {"c": self.g.get_cbd().id}
        for k, z in enumerate(self.g.get_zones()):
            ids["p%d" % k], ids["s%d" % k] = z.periphery.id, z.subcenter.id
        self.modes = [M.TransportMode("bus", bya[0], 8.5, 0.25, 3.5, val("v0", 20), val("t0", 4), 30, 160, 0.5, val("tat0", 1), 1, 28),
                      M.TransportMode("metro", bya[1], 20, 0.5, 40, val("v1", 40), 2, 40, 800, 0.25, 2, 1, 12)]
        self.routes = [self.route(r) for r in spec]
        self.net = M.TransportNetwork(self.g)
        for r in self.routes:
            self.net.add_route(r)
        self.pax = M.Passenger(4, 2, 4, 6, val("pt", 16), 2.5, 5, 7, val("spt", 16))
        self.dem = M.Demand(self.g)
        for n, p in enumerate(pairs):
            self.dem.change_vij(ids[p[0]], ids[p[1]], val("V%d" % n, p[2]))

    def route(self, r):
        r = tuple(r) + (None,) * (6 - len(r))
        seq = lambda s: None if s is None else [self.ids[w] for w in s.split()]
        i = seq(r[2])
        back = i[::-1] if r[3] is None else seq(r[3])
        T = self.M.RouteType
        txt = [",".join(map(str, s)) for s in (i, back, i if r[4] is None else seq(r[4]), back if r[5] is None else seq(r[5]))]
        return self.M.Route(r[0], self.modes[r[1]], *txt, _type=T.CUSTOM if i and back else T.CIRCULAR)

    def holds(self):
        return {"city": of_city(self.g), "demand": of_demand(self.dem), "network": of_network(self.net), "passenger": of_pax(self.pax)}

    def optimizer(self, f=None):
        routes = self.net.get_routes()
        return self.M.Optimizer(self.g, self.dem, self.pax, self.net,
                                None if f is None else defaultdict(float, {r.id: x for r, x in zip(routes, f)}))


def paths(s, f=None):
    """graph, hyperpaths, shares on the frequencies f"""
    M, routes = s.M, s.net.get_routes()
    fr = defaultdict(float, {r.id: (r.mode.fini if f is None else x) for r, x in zip(routes, f or routes)})
    eg = M.ExtendedGraph(s.g, routes, s.pax.pt, fr)
    hyper, labels, suc, freq, V = M.Hyperpath(eg, s.pax).get_all_hyperpaths(s.dem.get_matrix())
    share = M.Assignment.get_assignment(hyper, labels, s.g.get_parameters()[3], s.pax.va, s.pax.pa, s.pax.pv)
    out = {"graph": [(e.type.name, where(e.nodei), where(e.nodej), e.t, e.f) for e in eg.get_extended_graph_edges()],
           "paths": [(where(o), where(d), where(q), [[where(n) for n in p] for p in hyper[o][d][q]])
                     for o in hyper for d in hyper[o] for q in hyper[o][d]],
           "labels": [(where(o), where(d), where(q), labels[o][d][q]) for o in hyper for d in hyper[o] for q in hyper[o][d]],
           "shares": [(where(o), where(d), where(q), share[o][d][q]) for o in hyper for d in hyper[o] for q in hyper[o][d]],
           "trips": [(where(o), where(d), V[o][d]) for o in V for d in V[o]]}
    z, v, load = M.Assignment.get_alighting_and_boarding(V, hyper, suc, share, fr)
    for name, t in (("boardings", z), ("alightings", v), ("loads", load)):
        out[name] = sorted(((r, d, where(q)), t[r][d][q]) for r in t for d in t[r] for q in t[r][d] if len(t[r][d]))
    return out


def value(opt, x):
    return {"cost": opt.VRC(list(x)), "constraints": list(opt.get_constrains(list(x)))}


def report(opt, x):
    opt.better_res = (list(x), True, 1, "m", 0, 1)
    o = opt.get_overall_results()
    return {"table": [list(r) for r in opt.get_network_results()],
            "overall": {str(getattr(k, "name", k)): ({str(getattr(m, "name", m)): w for m, w in v.items()} if isinstance(v, dict) else v)
                        for k, v in o.items()}, "text": opt.string_network_results()}


# ---------------------------------------------------------------- sessions
def numbers_of(ctx, what, tag=""):
    """val(name, default): arbitrary for the names in `what`, the same number whenever asked again"""
    lim = {"l": (1, 100), "p": (0, 100), "v0": (1, 100), "v1": (1, 100), "t0": (0, 60), "tat0": (0, 30), "pt": (0, 60), "spt": (0, 60)}
    got = {w: ctx.real(tag + w, *lim.get(w, (0, 5000)), w[0] == "V") for w in what.split()}
    return lambda name, default: got.get(name, default)


def guarded(ctx, fn, *a):
    out, exc = ctx.attempt(fn, *a)
    return out if exc is None else "%s: %s" % (type(exc).__name__, exc)


def two_worlds(ctx, a, b, what, f=None):
    """a, then b, then a again on the same objects and on new ones, against each of them alone"""
    va, vb = numbers_of(ctx, what, "a_"), numbers_of(ctx, what, "b_")
    alone = []
    for (topo, pairs), val in ((a, va), (b, vb)):
        s = Setup(NS(ctx), topo, pairs, val)
        alone.append(guarded(ctx, paths, s, f and f[:len(s.routes)]))
    M = NS(ctx)
    sa, sb = Setup(M, *a, va), Setup(M, *b, vb)
    ha, hb = sa.holds(), sb.holds()
    fa, fb = f and f[:len(sa.routes)], f and f[:len(sb.routes)]
    same(ctx, "first", guarded(ctx, paths, sa, fa), alone[0])
    same(ctx, "after_another_network", guarded(ctx, paths, sb, fb), alone[1])
    same(ctx, "again", guarded(ctx, paths, sa, fa), alone[0])
    same(ctx, "again_on_new_objects", guarded(ctx, paths, Setup(M, *a, va), fa), alone[0])
    same(ctx, "inputs_unchanged", sa.holds(), ha)
    same(ctx, "inputs_unchanged", sb.holds(), hb)
    ctx.cover("end")


def two_points(ctx, topo, pairs, what, x, y):
    """objective, constraints and reports at x, at y and at x again; 'x': arbitrary positive, '0': arbitrary or zero"""
    val = numbers_of(ctx, what)
    pts = []
    for n, p in enumerate((x, y)):
        pts.append([ctx.real("f%d_%d" % (n, k), 0, 300, w == "x") if isinstance(w, str) else w for k, w in enumerate(p)])
    alone = []
    for p in pts:
        opt = Setup(NS(ctx), topo, pairs, val).optimizer()
        one = guarded(ctx, value, opt, p)
        alone.append((one, guarded(ctx, report, Setup(NS(ctx), topo, pairs, val).optimizer(), p)))
    s = Setup(NS(ctx), topo, pairs, val)
    before = s.holds()
    opt = s.optimizer()
    same(ctx, "first", guarded(ctx, value, opt, pts[0]), alone[0][0])
    same(ctx, "at_another_point", guarded(ctx, value, opt, pts[1]), alone[1][0])
    same(ctx, "report", guarded(ctx, report, opt, pts[0]), alone[0][1])
    same(ctx, "report_of_another_point", guarded(ctx, report, opt, pts[1]), alone[1][1])
    same(ctx, "again", guarded(ctx, value, opt, pts[0]), alone[0][0])
    same(ctx, "report_again", guarded(ctx, report, opt, pts[0]), alone[0][1])
    same(ctx, "inputs_unchanged", s.holds(), before)
    ctx.cover("end")


def edited(ctx, topo, pairs, kind):
    """compute, edit an input, compute again: as if the edited input had been there from the start"""
    new = {"demand": "V0", "speed": "v0", "boarding": "t0", "access": "tat0", "passenger": "pt", "network": "", "zero": "",
           "frequency": "", "city": ""}[kind]
    val0 = numbers_of(ctx, "")
    val1 = numbers_of(ctx, new, "new_")
    f = None
    s = Setup(NS(ctx), topo, pairs, val0)
    guarded(ctx, paths, s)
    s1 = lambda: Setup(NS(ctx), topo, pairs, val1)
    ref = s1()
    x = [ctx.real("f%d" % k, 0, 300, True) for k in range(1)] + [20] * (len(s.routes) - 1)
    opt = s.optimizer()
    guarded(ctx, value, opt, x)
    guarded(ctx, report, opt, x)
    if kind == "demand":
        s.dem.change_vij(s.ids[pairs[0][0]], s.ids[pairs[0][1]], val1("V0", 0))
    if kind == "zero":
        for q in (s, ref):
            q.dem.change_vij(s.ids[pairs[0][0]], s.ids[pairs[0][1]], 0)
    if kind == "speed":
        s.modes[0].v = val1("v0", 0)
    if kind == "boarding":
        s.modes[0].t = val1("t0", 0)
    if kind == "access":
        s.modes[0].tat = val1("tat0", 0)
    if kind == "passenger":
        s.pax.pt = val1("pt", 0)
    if kind == "city":
        k = ctx.real("k", 1, 10)
        s.g.get_edges_distance()
        for q in (s, ref):
            for n in q.g.get_nodes():
                n.x, n.y, n.width = n.x * k, n.y * k, n.width * k
    if kind == "network":
        spec = TOPOLOGIES[topo][0]
        for q in (s, ref):
            q.net.remove_route(spec[-1][0])
        if q is ref:
            ref = Setup.__new__(Setup)
            ref.__dict__.update(s1().__dict__)
            ref.net = ref.M.TransportNetwork(ref.g)
            for k, m in enumerate(ref.modes):
                if any(q is s.modes[k] for q in s.net.get_modes()):
                    ref.net.add_transport_mode(m)   # modes stay registered
            for r in ref.routes[:-1]:
                ref.net.add_route(r)
        x = x[:-1]
    if kind == "frequency":
        f = [ctx.real("g%d" % k, 0, 300, True) if k == 0 else 15 for k in range(len(s.routes))]
    same(ctx, "paths_after_edit", guarded(ctx, paths, s, f), guarded(ctx, paths, ref, f))
    a, b = guarded(ctx, s.optimizer, f), guarded(ctx, ref.optimizer, f)
    ctx.check("built_after_edit", isinstance(a, str) == isinstance(b, str))
    if not isinstance(a, str) and not isinstance(b, str):
        same(ctx, "value_after_edit", guarded(ctx, value, a, x), guarded(ctx, value, b, x))
        same(ctx, "report_after_edit", guarded(ctx, report, a, x), guarded(ctx, report, b, x))
    ctx.cover("end")


def at_once(ctx, topo, kind, how):
    """one extended graph, one passenger, one Hyperpath: strategies of the same pair before and after an edit in place"""
    spec, o, t = TOPOLOGIES[topo]
    x = [ctx.real("x%d" % k, 0, 60) for k in range(2)] if kind in ("wait", "walk", "penalty", "ride") else ctx.real("f", 0, 300, True)

    def made(M):
        s = Setup(M, topo, [], lambda name, default: default)
        fr = defaultdict(float, {r.id: 10 for r in s.routes})
        s.eg = M.ExtendedGraph(s.g, s.routes, s.pax.pt, fr)
        s.c = {c.graph_node.id: c for c in s.eg.get_extended_graph_nodes()}
        s.hp = M.Hyperpath(s.eg, s.pax)
        return s

    def edit(s):
        kinds = lambda w: [e for e in s.eg.get_extended_graph_edges() if e.type.name == w]
        if kind == "wait":
            s.pax.pw = x[0]
        if kind == "walk":
            s.pax.pa, s.pax.pv = x[0] + 1, 1
        if kind == "penalty":
            for e in kinds("ALIGHTING"):
                e.t = x[0]
        if kind == "ride":
            for n, e in enumerate(kinds("ROUTE")[:2]):
                e.t = x[n]
        if kind == "frequency":
            kinds("BOARDING")[0].f = x

    def compute(s):
        a, b = s.c[s.ids[o]], s.c[s.ids[t]]
        out = {}
        for n, (u, w) in enumerate([(a, b), (b, a)] if how == "two_pairs" else [(a, b)]):
            suc, lab, freq = s.hp.build_hyperpath_graph(u, w)
            out["suc%d" % n] = [(where(q), [(where(e.nodei), where(e.nodej), e.t, e.f) for e in suc[q]]) for q in lab]
            out["lab%d" % n], out["freq%d" % n] = [(where(q), lab[q]) for q in lab], [(where(q), freq[q]) for q in lab]
            hyper, lab, suc, freq = s.hp.get_hyperpath_OD(u, w)
            out["paths%d" % n] = [(where(q), [[where(m) for m in p] for p in hyper[q]], lab[q]) for q in hyper]
        return out

    ref = made(NS(ctx))
    edit(ref)
    want = guarded(ctx, compute, ref)
    s = made(NS(ctx))
    first = guarded(ctx, compute, s)
    if how == "new_solver":
        s.hp = s.M.Hyperpath(s.eg, s.pax)
    same(ctx, "asked_twice", guarded(ctx, compute, s), first)
    edit(s)
    same(ctx, "strategies_after_edit", guarded(ctx, compute, s), want)
    if not isinstance(want, str):
        ctx.cover("end")


def shared(ctx, topo, pairs, what):
    """the same paths handed twice to the assignment, with other passengers or trips in between"""
    val = numbers_of(ctx, what)
    old, new = [ctx.real("V%d" % k, 0, 5000) for k in (0, 1)]
    va = [4, ctx.real("va", 1, 60)]

    def made(M):
        s = Setup(M, topo, pairs, val)
        s.fr = defaultdict(float, {r.id: 10 for r in s.routes})
        s.eg = M.ExtendedGraph(s.g, s.routes, s.pax.pt, s.fr)
        s.out = M.Hyperpath(s.eg, s.pax).get_all_hyperpaths(s.dem.get_matrix())
        return s

    def compute(s, v, k):
        M, (hyper, labels, suc, freq, V) = s.M, s.out
        for n, i in enumerate(V):
            for j in V[i]:
                V[i][j] = v if n == 0 else 10
        share = M.Assignment.get_assignment(hyper, labels, s.g.get_parameters()[3], k, s.pax.pa, s.pax.pv)
        z, al, load = M.Assignment.get_alighting_and_boarding(V, hyper, suc, share, s.fr)
        out = {"shares": [(where(a), where(b), where(q), share[a][b][q]) for a in hyper for b in hyper[a] for q in hyper[a][b]]}
        for name, t in (("boardings", z), ("alightings", al), ("loads", load)):
            out[name] = sorted(((r, d, where(q)), t[r][d][q]) for r in t for d in t[r] for q in t[r][d])
        out["most"] = sorted(M.Assignment.most_loaded_section(load).items())
        out["text"] = M.Assignment.str_boarding_alighting(z, al)
        return out

    want = [guarded(ctx, compute, made(NS(ctx)), v, k) for v, k in ((old, va[0]), (new, va[1]))]
    s = made(NS(ctx))
    same(ctx, "first_trips", guarded(ctx, compute, s, old, va[0]), want[0])
    same(ctx, "other_trips", guarded(ctx, compute, s, new, va[1]), want[1])
    same(ctx, "first_trips_again", guarded(ctx, compute, s, old, va[0]), want[0])
    if not any(isinstance(w, str) for w in want):
        ctx.cover("end")


PARTS = ("nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i", "stops_sequence_r")


def lines(ctx, kind, part):
    """lines over the same nodes, one of them edited"""
    M = NS(ctx)
    m = M.TransportMode.get_default_modes()[0]
    g = M.Graph.build_from_parameters(3, 10, 0.5, 2)
    net = M.TransportNetwork(g)

    def made():
        if kind == "custom":
            a, b = "1,2,4", "4,2,1"
            return [M.Route("A", m, a, b, a, b), M.Route("B", m, a, b, a, b), M.Route("C", m, b, a, b, a)]
        if kind == "circular":
            return net.get_circular_routes(m) + net.get_circular_routes(m)
        if kind == "radial":
            return net.get_radial_routes(m) + net.get_radial_routes(m)
        return net.get_tangencial_routes(m, 1) + net.get_diametral_routes(m, 1)

    hold = lambda r: [list(getattr(r, q)) for q in PARTS]
    old = made()
    want = [hold(r) for r in old]
    first = old[0]
    getattr(first, part).append(ctx.int("id", -100, 100))
    if ctx.flag("shorter"):
        del getattr(first, part)[0]
    for q, w in zip(PARTS, want[0]):
        if q != part:
            same(ctx, "other_sequences_of_the_line", list(getattr(first, q)), w)
    for r, w in zip(old[1:], want[1:]):
        same(ctx, "other_lines", hold(r), w)
    for r, w in zip(made(), want):
        same(ctx, "later_lines", hold(r), w)
    same(ctx, "city", of_city(g), of_city(M.Graph.build_from_parameters(3, 10, 0.5, 2)))
    ctx.cover("end")


def cities(ctx, specs):
    """cities and demands built one after the other: (zones, options)"""
    par = []
    for k, (n, opts) in enumerate(specs):
        kw = {}
        if "a" in opts:
            kw["angles"] = [10 * (z + 1) for z in range(n)]
        if "G" in opts:
            kw["Gi"] = [ctx.real("G%d%d" % (k, z), 0.1, 1) for z in range(n)]
        if "H" in opts:
            kw["Hi"] = [ctx.real("H%d%d" % (k, z), 1, 10) for z in range(n)]
        if "e" in opts:
            kw["etha"], kw["etha_zone"] = ctx.real("e%d" % k, 0, 1), n
        par.append((n, ctx.real("l%d" % k, 0.1, 100), ctx.real("g%d" % k, 0, 10), ctx.real("p%d" % k, 0, 10), kw))
    trips = [ctx.real("V%d" % k, 0, 5000) for k in range(len(specs))]

    def build(M, k):
        n, l, g, p, kw = par[k]
        c = M.Graph.build_from_parameters(n, l, g, p, **{a: list(b) if isinstance(b, list) else b for a, b in kw.items()})
        return c, M.Demand.build_from_parameters(c, trips[k], 0.75, 0.25, 0.25)

    def hold(c, d):
        m = c.get_edges_distance()
        return {"city": of_city(c), "demand": of_demand(d), "lengths": [(i, j, m[i][j]) for i in m for j in m[i]],
                "text": c.export_graph()}
    alone = [hold(*build(NS(ctx), k)) for k in range(len(specs))]
    M = NS(ctx)
    objs = []
    for k in range(len(specs)):
        objs.append(build(M, k))
        for j, o in enumerate(objs):
            same(ctx, "city_and_demand", hold(*o), alone[j])
    same(ctx, "built_again", hold(*build(M, 0)), alone[0])
    lists = [kw.get("Gi") for _, _, _, _, kw in par]
    # a second demand of the first city, and edits of it
    c, d = objs[0]
    e = M.Demand(c)
    ids = [x.id for x in c.get_nodes()]
    same(ctx, "new_demand_is_empty", of_demand(e), {"cells": [(i, j, 0) for i in ids for j in ids], "total": 0})
    e.change_vij(ids[-1], ids[0], ctx.real("W", 0, 5000))
    h = M.Demand.build_from_content(c, [[1 for _ in ids] for _ in ids])
    copy = M.Graph.build_from_content(c.export_graph())
    M.Demand(copy).change_vij(ids[-1], ids[0], 77)
    path = os.path.join(ctx.tmp(), "d.csv")
    d.matrix_to_file(path)
    M.Demand.build_from_file(c, path).change_vij(ids[-1], ids[0], 78)
    c.graph_to_pajek_file(os.path.join(ctx.tmp(), "c.txt"))
    for j, o in enumerate(objs):
        same(ctx, "untouched_by_others", hold(*o), alone[j])
    same(ctx, "ones", of_demand(h)["total"], len(ids) ** 2)
    # the first city edited in place, and one edited alike before anything was asked of it
    w, dx = ctx.real("width", 0, 50), ctx.choice("scale", [1, 2.5])
    (k, kd), (r, rd) = objs[0], build(NS(ctx), 0)
    for city, dem in ((k, kd), (r, rd)):
        nodes = city.get_nodes()
        nodes[0].width, nodes[-1].width = w, w + 1
        for x in nodes:
            x.x, x.y = x.x * dx, x.y * dx
        dem.change_vij(nodes[0].id, nodes[-1].id, w + 3)
    same(ctx, "edited_city", hold(k, kd), hold(r, rd))
    files = []
    for city, dem, name in ((k, kd, "k"), (r, rd, "r")):
        f, q = os.path.join(ctx.tmp(), name + ".pajek"), os.path.join(ctx.tmp(), name + ".csv")
        city.graph_to_pajek_file(f)
        dem.matrix_to_file(q)
        files.append((of_city(type(city).build_from_file(f)), of_demand(type(dem).build_from_file(city, q))))
    same(ctx, "edited_city_files", files[0], files[1])
    for j, o in list(enumerate(objs))[1:]:
        same(ctx, "untouched_by_others", hold(*o), alone[j])
    ctx.cover("end")


def networks(ctx, n, m, fams):
    """two networks side by side: generating, adding and removing in one changes only that one"""
    d = ctx.int("d", 1, 3)

    def start(M, zones, name):
        g = M.Graph.build_from_parameters(zones, 10, 0.5, 2)
        return M.TransportNetwork(g), M.TransportMode(name, 1, 8, 0.25, 3, 20, 4, 100, 160, 0.5, 1, d, 28)

    def gen(net, mode):
        out = []
        for w in fams.split():
            out += {"f": net.get_feeder_routes, "c": net.get_circular_routes, "r": net.get_radial_routes, "d": net.get_diametral_routes,
                    "t": net.get_tangencial_routes}[w](mode)
        return out

    M1, M2 = NS(ctx), NS(ctx)
    r1, k1 = start(M1, n, "bus")
    r2, k2 = start(M2, m, "bus")
    want1 = [of_route(r) for r in gen(r1, k1)]
    want2 = [of_route(r) for r in gen(r2, k2)]
    M = NS(ctx)
    a, ma = start(M, n, "bus")
    b, mb = start(M, m, "bus")
    ra = gen(a, ma)
    same(ctx, "generated", [of_route(r) for r in ra], want1)
    same(ctx, "generating_adds_nothing", [of_network(a), of_network(b)], [{"modes": [], "routes": []}] * 2)
    rb = gen(b, mb)
    same(ctx, "generated_for_another_city", [of_route(r) for r in rb], want2)
    same(ctx, "generated_again", [of_route(r) for r in gen(a, ma)], want1)
    for r in ra:
        a.add_route(r)
    same(ctx, "other_network_untouched", of_network(b), {"modes": [], "routes": []})
    for r in rb:
        b.add_route(r)
    full = {"modes": [of_mode(ma)], "routes": want1}
    same(ctx, "own_routes", of_network(a), full)
    same(ctx, "own_routes", of_network(b), {"modes": [of_mode(mb)], "routes": want2})
    b.remove_route(rb[0].id)
    same(ctx, "other_network_untouched", of_network(a), full)
    b.remove_transport_mode(mb)
    same(ctx, "other_network_untouched", of_network(a), full)
    c = M.TransportNetwork(M.Graph.build_from_parameters(n, 10, 0.5, 2))
    same(ctx, "new_network_is_empty", of_network(c), {"modes": [], "routes": []})
    a.routes_to_file(os.path.join(ctx.tmp(), "n.csv"))
    same(ctx, "own_routes", of_network(a), full)
    # managers and modes
    p, q, w = M.TransportModeManager(False), M.TransportModeManager(False), M.TransportModeManager()
    p.add_mode(ma)
    ctx.check("other_manager_untouched", q.get_modes() == [] and q.get_modes_names() == [] and len(w.get_modes()) == 2)
    w.get_mode("bus").v = 55
    w.remove_mode("metro")
    same(ctx, "defaults_are_fresh", [of_mode(x) for x in M.TransportModeManager().get_modes()],
         [of_mode(x) for x in M1.TransportModeManager().get_modes()])
    ctx.check("own_modes", p.get_modes_names() == ["bus"] and w.get_modes_names() == ["bus"])
    one = ma.v
    mb.v = ctx.real("v", 1, 100)
    same(ctx, "other_mode_untouched", ma.v, one)
    ctx.cover("end")


def cases(tier):
    out = []
    add = lambda name, fn, **a: out.append({"name": name, "fn": fn, "args": a, "covers": ["end"]})
    one = ("one", [("p0", "s0", 100)])
    two = ("two", [("p0", "s0", 100), ("s0", "p0", 30)])
    mod = ("modes", [("p0", "s0", 100)])
    tr = ("transfer", [("p0", "c", 80), ("s0", "c", 20), ("c", "p0", 10)])
    loc = ("local", [("p0", "c", 80), ("c", "s0", 20)])
    walk = ("walk", [("p0", "c", 60)])
    ring = ("ring", [("p0", "s1", 50), ("s1", "s2", 20)])
    asym = ("asym", [("p0", "s1", 40), ("s1", "p0", 10)])
    pairs = [("one_two", one, two, "V0"), ("two_transfer", two, tr, "V0"), ("modes_walk", mod, walk, "V0"), ("walk_asym", walk, asym, "V0"),
             ("transfer_local", tr, loc, "v0"), ("ring_local", ring, loc, "V0"), ("one_one", one, one, "V0 l pt")]
    if tier != "quick":
        pairs += [("local_choice", loc, ("choice", [("p0", "c", 70)]), "v0"), ("asym_ring", asym, ring, "V0 v0"),
                  ("direct_back", ("direct", [("p0", "c", 70)]), ("back", [("p0", "s1", 20)]), "V0 v0"), ("two_two", two, two, "V0 v0 tat0")]
    for name, a, b, what in pairs:
        add("worlds_" + name, two_worlds, a=a, b=b, what=what)
    add("worlds_frequencies", two_worlds, a=two, b=tr, what="V0", f=[12, 5])
    for name, (t, p), what, x, y in [("one", one, "V0", ["x"], ["0"]), ("two", two, "V0", ["x", 10], ["x", "0"]),
                                     ("transfer", tr, "V0", ["x", 20], [15, "x"]), ("modes", mod, "V0", ["x", 12], [9, "x"]),
                                     ("ring", ring, "V0", ["x", 9, 9], [20, "x", 7]), ("asym", asym, "V0", ["x", 10], [12, 8])]:
        add("points_" + name, two_points, topo=t, pairs=p, what=what, x=x, y=y)
    kinds = "demand speed boarding access passenger network zero frequency city".split()
    for k in kinds:
        for name, (t, p) in ([("transfer", tr), ("modes", mod)] if tier == "quick" else [("transfer", tr), ("modes", mod), ("local", loc), ("asym", asym), ("two", two)]):
            add("edit_%s_%s" % (k, name), edited, topo=t, pairs=p, kind=k)
    for t, kind, how in [("two", "wait", "same"), ("walk", "walk", "same"), ("transfer", "penalty", "new_solver"), ("choice", "ride", "same"),
                         ("direct", "frequency", "two_pairs"), ("modes", "wait", "two_pairs"), ("local", "penalty", "two_pairs")] + \
                        ([(t, k, "same") for t in ("asym", "ring", "choice", "direct") for k in ("wait", "walk", "penalty", "ride")]
                         if tier != "quick" else []):
        add("strategies_%s_%s_%s" % (t, kind, how), at_once, topo=t, kind=kind, how=how)
    for name, (t, p) in [("two", two), ("transfer", tr), ("modes", mod), ("ring", ring)] + ([("local", loc), ("asym", asym)] if tier != "quick" else []):
        add("assignments_%s" % name, shared, topo=t, pairs=p, what="pt")
    for kind in ("custom", "radial", "circular", "jumps"):
        for part in PARTS:
            add("lines_%s_%s" % (kind, part), lines, kind=kind, part=part)
    specs = [[(1, ""), (2, "G")], [(2, "e"), (3, "aH")], [(3, "GHe"), (1, "e")], [(3, ""), (4, "a"), (2, "e")]]
    for k, sp in enumerate(specs):
        add("cities_%d" % k, cities, specs=sp)
    for n, m, f in [(3, 2, "r f"), (4, 3, "d t c"), (2, 4, "f c"), (5, 4, "r f d t c")][:3 if tier == "quick" else 4]:
        add("networks_%d_%d" % (n, m), networks, n=n, m=m, fams=f)
    return out
