"""Descriptions of the extended graph, the strategies, the loads and the solver's outcome."""
import re
from scipy.optimize import OptimizeResult
import props.A02 as A02
from props.H01 import setting
from props.O05 import near
from sidermit.optimization import Optimizer
from props.lib import *

BOUNDS = "the extended graphs, strategies and loads of eight networks (1..6 lines, two modes, rings, walking transfers) with up to " \
         "three arbitrary ride times, frequencies, access times or penalties and arbitrary trips; arbitrary outcomes of the solver"
ASSUMPTIONS = ["descriptions show numbers with two (labels of paths: four) decimals; a label without a path is shown as inf"]


def name(n):
    """a node of the extended graph in words"""
    if isinstance(n, CityNode):
        return "city", n.graph_node.name
    if isinstance(n, StopNode):
        return "stop", n.mode.name, n.city_node.graph_node.name
    return "route", n.route.id, n.direction, n.stop_node.city_node.graph_node.name


def shows(ctx, label, text, want, places=2):
    if type(want) is float and want == INF:
        ctx.check(label, text.strip() == "inf")
        return
    try:
        y = ctx.number(text.strip())
    except ValueError:
        ctx.check(label, False)
        return
    if type(y) is float and y == INF:
        ctx.check(label, False)
        return
    h = 0.5 / 10 ** places + 1e-6
    ctx.check(label, ctx.And(y - want <= h, want - y <= h))


def field(block, key):
    """the values of `key` in a block of `key: value` lines"""
    return [x.partition(":")[2].strip() for x in block if x.partition(":")[0].strip(" \t-").lower() == key.lower()]


def one(ctx, label, block, key):
    got = field(block, key)
    ctx.check(label, len(got) == 1)
    return got[0] if len(got) == 1 else None


def graph(ctx, topo, what):
    """ExtendedGraph.__str__"""
    X, pax, o, d, g, routes = setting(ctx, topo, what)
    text, exc = ctx.attempt(X.eg.__str__)
    ctx.check("described", exc is None)
    if exc is not None:
        return
    blocks = []     # (title, fields)
    for line in text.split("\n"):
        w = line.strip()
        if not w:
            continue
        if not w.startswith("-"):
            blocks.append((w, []))
        else:
            blocks[-1][1].append(w)
    where = [None, None]
    seen = {"city": [], "stop": [], "route": []}
    pending = []
    for title, fields in blocks:
        t = title.lower()
        if t == "city node":
            v = one(ctx, "node_named", fields, "Graph node name")
            m = [c for c in X.nodes if c.graph_node.name == v]
            ctx.check("a_node_of_the_graph", len(m) == 1)
            if not m:
                return
            where = [m[0], None]
            seen["city"].append(name(m[0]))
        elif t == "stop node":
            v = one(ctx, "mode_named", fields, "Mode name")
            m = [s for s in X.nodes[where[0]] if s.mode.name == v]
            ctx.check("a_stop_of_the_node", len(m) == 1)
            if not m:
                return
            where[1] = m[0]
            seen["stop"].append(name(m[0]))
            got = [x for q, x in pending if q == "access edge"]
            ctx.check("one_access", len(got) == 1 and len(pending) == 1)
            for x in got:
                w = one(ctx, "access_shown", x, "Access time")
                if w is not None:
                    shows(ctx, "access_time_in_minutes", w.replace("[min]", ""), X.edge(where[0], m[0]).t * 60)
            pending = []
        elif t == "route node":
            r, dr = one(ctx, "line_named", fields, "Route_id"), one(ctx, "direction_named", fields, "Direction")
            m = [q for q in X.nodes[where[0]][where[1]] if q.route.id == r and q.direction == dr]
            seen["route"].append(("route", r, dr, where[0].graph_node.name))
            want = {}
            for q in m:
                b, a = X.edge(where[1], q), X.edge(q, where[1])
                want["boarding edge"] = want.get("boarding edge", []) + ([b.f] if b is not None else [])
                want["alighting edge"] = want.get("alighting edge", []) + ([a.t * 60] if a is not None else [])
            if len(m) == 1:
                for kind, key, unit in (("boarding edge", "Frequency", "[veh/h]"), ("alighting edge", "Penalty transfer", "[min]")):
                    got = [x for q, x in pending if q == kind]
                    ctx.check("edges_of_the_line", len(got) == len(want[kind]))
                    for x, y in zip(got, want[kind]):
                        w = one(ctx, "edge_value_shown", x, key)
                        if w is not None:
                            shows(ctx, kind.replace(" ", "_") + "_value", w.replace(unit, ""), y)
                q = m[0]
                prev, t = one(ctx, "previous_shown", fields, "Previous stop"), one(ctx, "ride_shown", fields, "Time to previous stop")
                ctx.check("previous_stop", prev == ("no data" if q.prev_route_node is None
                                                    else q.prev_route_node.stop_node.city_node.graph_node.name))
                if t is not None:
                    shows(ctx, "time_from_the_previous_stop", t.replace("[hrs]", ""),
                          0 if q.prev_route_node is None else X.edge(q.prev_route_node, q).t)
            pending = []
        else:
            pending.append((t, fields))
    ctx.check("nothing_left_over", not pending)
    for kind, nodes in (("city", list(X.nodes)), ("stop", [s for c in X.nodes for s in X.nodes[c]]),
                        ("route", [r for c in X.nodes for s in X.nodes[c] for r in X.nodes[c][s]])):
        ctx.check("every_%s_node_once" % kind, sorted(seen[kind]) == sorted(name(n) for n in nodes))
    ctx.cover("described")


TITLE = {"city_node": "city", "stop_node": "stop", "route_node": "route"}


def ident(kind, block, sep="_"):
    return (kind,) + tuple((field(block, k) or [None])[0] for k in
                           {"city": ("Graph_node_name",), "stop": ("Mode_name", "Graph_node_name"),
                            "route": ("route_id", "direction", "Graph_node_name")}[kind])


def parse_end(text):
    w, _, node = text.strip().partition(": ")
    w = w.split()
    if w[:1] == ["Citynode"]:
        return "city", node
    if w[:1] == ["Stopnode"] and len(w) == 2:
        return "stop", w[1], node
    if w[:1] == ["Routenode"] and len(w) == 3:
        return "route", w[1], w[2], node
    return None


def strategy(ctx, topo, what, back):
    """string_hyperpath_graph and string_hyperpaths_OD"""
    X, pax, o, d, g, routes = setting(ctx, topo, what, back)
    hp = Hyperpath(X.eg, pax)
    out, exc = ctx.attempt(hp.build_hyperpath_graph, o, d)
    if exc is not None:
        return          # H01
    suc, lab, freq = out
    text, exc = ctx.attempt(Hyperpath.string_hyperpath_graph, suc, lab, freq)
    ctx.check("strategy_described", exc is None)
    if exc is None:
        blocks = []
        for line in text.split("\n")[1:]:
            if not line.strip():
                continue
            if not line.startswith("\t"):
                blocks.append((TITLE.get(line.strip().lower()), []))
            elif blocks:
                blocks[-1][1].append(line.strip())
        ctx.check("known_nodes", all(k for k, _ in blocks))
        found = [ident(k, b) for k, b in blocks if k]
        ctx.check("every_node_once", sorted(found, key=str) == sorted((name(n) for n in lab), key=str))
        for k, b in blocks:
            m = [n for n in lab if k and name(n) == ident(k, b)]
            if len(m) != 1:
                continue
            n = m[0]
            for key, v in (("label", lab[n]), ("Frequencies", freq[n])):
                w = one(ctx, key.lower() + "_shown", b, key)
                if w is not None:
                    shows(ctx, key.lower() + "_of_the_node", w, v)
            got = []
            for part in re.findall(r"\[([^\]]*)\]", (field(b, "Successor") or [""])[0]):
                kind, _, ends = part.partition(": ")
                a, _, z = ends.partition(" - ")
                got.append((kind.rpartition(".")[2], parse_end(a), parse_end(z)))
            ctx.check("successors_of_the_node", sorted(got, key=str) ==
                      sorted(((e.type.name, name(e.nodei), name(e.nodej)) for e in suc[n]), key=str))
    out, exc = ctx.attempt(hp.get_hyperpath_OD, o, d)
    if exc is not None:
        return          # H02
    paths, lab = out[0], out[1]
    text, exc = ctx.attempt(Hyperpath.string_hyperpaths_OD, paths, lab)
    ctx.check("paths_described", exc is None)
    if exc is None:
        mode, got = None, []
        for line in text.split("\n"):
            w = line.strip()
            if w.endswith(" stop") and not w.startswith("["):
                mode = w[:-5]
            elif w == "New Path:":
                got.append((mode, []))
            elif w:
                got[-1][1].append(w)
        want = [(s.mode.name, p) for s in paths for p in paths[s]]
        ctx.check("every_path", [m for m, _ in got] == [m for m, _ in want])
        for (_, lines), (_, p) in zip(got, want):
            ctx.check("every_node_of_the_path", len(lines) == len(p))
            for w, n in zip(lines, p):
                t, _, v = w.strip("[]").rpartition(": ")
                e = name(n)
                ctx.check("nodes_in_order", t == {"city": "City_node {1}", "stop": "Stop_node {1} - {2}",
                                                  "route": "Route_node {1} {2} - {3}"}[e[0]].format(*(e + ("", ""))))
                shows(ctx, "label_along_the_path", v, lab[n], 4)
    ctx.cover("strategy")


def loads(ctx, topo, what, pairs):
    """string_all_hyperpaths and str_boarding_alighting"""
    got = A02.loaded(ctx, topo, what, pairs)
    if got is None:
        return
    X, g, pax, routes, trips, share, f, (hyper, labels, suc, V), (z, v, load) = got
    text, exc = ctx.attempt(Hyperpath.string_all_hyperpaths, hyper, labels, suc, V)
    ctx.check("summary_described", exc is None)
    if exc is None:
        lines = [w.strip() for w in text.split("\n") if w.strip()]
        want = [(o, d, s) for o in hyper for d in hyper[o] for s in hyper[o][d]]
        ctx.check("one_entry_per_stop", len(lines) == 2 * len(want))
        if len(lines) == 2 * len(want):
            for k, (o, d, s) in enumerate(want):
                w = dict(x.strip().split(": ", 1) for x in (lines[2 * k] + "," + lines[2 * k + 1]).split(","))
                ctx.check("entry_of_the_stop", w.get("origin") == o.graph_node.name and w.get("mode") == s.mode.name and
                          w.get("destination") == d.graph_node.name)
                ctx.check("number_of_paths", [str(w[q]) for q in w if "paths" in q] == [str(len(hyper[o][d][s])), str(len(suc[o][d][s]))])
                shows(ctx, "trips_of_the_pair", w.get("vij", ""), V[o][d])
                shows(ctx, "label_of_the_stop", w.get("label", "").replace("[EIV]", ""), labels[o][d][s])
    tables_text(ctx, z, v)
    ctx.cover("loads")


def tables_text(ctx, z, v):
    text, exc = ctx.attempt(Assignment.str_boarding_alighting, z, v)
    ctx.check("loads_described", exc is None)
    if exc is None:
        what_, line, direction, n = None, None, None, 0
        tables = {"boarding": z, "alighting": v}
        seen = {"boarding": [], "alighting": []}
        for w in text.split("\n"):
            w = w.strip()
            if w.startswith("New route:"):
                line = w.partition(":")[2].strip()
            elif w.startswith("Direction:"):
                direction = w.partition(":")[2].strip()
            elif w in ("Boarding:", "Alighting:"):
                what_ = w[:-1].lower()
            elif w.startswith("Stop "):
                where, _, x = w[5:].rpartition(": ")
                m = [s for s in tables[what_][line][direction] if "%s-%s" % (s.mode.name, s.city_node.graph_node.name) == where] \
                    if line in tables[what_] and direction in tables[what_][line] else []
                ctx.check("a_stop_of_the_line", len(m) == 1)
                seen[what_].append((line, direction, where))
                for s in m:
                    shows(ctx, what_ + "_passengers", x.replace("[pax/veh]", ""), tables[what_][line][direction][s])
        for k, t in tables.items():
            ctx.check("every_stop_with_" + k, sorted(seen[k]) == sorted((r, q, "%s-%s" % (s.mode.name, s.city_node.graph_node.name))
                                                                        for r in t if r in z for q in t[r] for s in t[r][q]))


def partial(ctx):
    """tables in which a direction or a stop may have boardings only, or alightings only"""
    g, ids, routes, o, d = topology("oneway", [mk_mode("bus"), mk_mode("metro")])
    X = Ext(ExtendedGraph(g, routes, 6))
    z, v = {}, {}
    for t, n in ((z, "z"), (v, "v")):
        for r in routes[:2]:
            t[r.id] = {}
            for dr, _, stops in directions(r):
                if ctx.flag("%s_%s_%s" % (n, r.id, dr)):
                    t[r.id][dr] = {X.stop[r.mode.name, s]: ctx.real("%s_%s_%s_%d" % (n, r.id, dr, s), 0, 100)
                                   for s in dict.fromkeys(stops[:2] if n == "z" else stops[1:])}
    tables_text(ctx, z, v)
    ctx.cover("partial")


def outcome(ctx):
    """string_information_internal_optimization"""
    ok, status = ctx.choice("success", [True, False]), ctx.choice("status", [0, 1, 2, 3])
    x, viol, fun = [ctx.real("x%d" % k, 0, 100) for k in range(2)], ctx.real("violation", 0, 10), ctx.real("fun", 0, 1e6)
    res = OptimizeResult(x=x, success=ok, status=status, message="stopped: early", constr_violation=viol, fun=fun)
    text, exc = ctx.attempt(Optimizer.string_information_internal_optimization, res)
    ctx.check("outcome_described", exc is None)
    if exc is not None:
        return
    w = text.split("\n")
    ctx.check("outcome", (field(w, "Success"), field(w, "Status"), field(w, "Message")) == ([str(ok)], [str(status)], ["stopped: early"]))
    for key, y in (("Constrain violation", viol), ("VRC", fun)):
        t = one(ctx, "outcome_value", w, key)
        if t is not None:
            ctx.eq("outcome_" + key.split()[0].lower(), ctx.number(t), y)
    ctx.cover("outcome")


def cases(tier):
    deep = tier != "quick"
    out = [{"name": "partial", "fn": partial, "args": {}, "covers": ["partial"]},
           {"name": "outcome", "fn": outcome, "args": {}, "covers": ["outcome"]}]
    for topo, what in [("one", "r f_A a t"), ("modes", "a f_A t"), ("transfer", "t_A t"), ("ring", "t_X f_Y"), ("walk", "a t_A"),
                       ("oneway", "t_A f_B"), ("asym", "t_A a")] + ([("direct", "r f t"), ("choice", "r f a t")] if deep else []):
        out.append({"name": "graph_%s" % topo, "fn": graph, "args": {"topo": topo, "what": what}, "covers": ["described"]})
    for topo, what in [("two", "r f_A"), ("four", "t_A"), ("modes", "t_A a"), ("transfer", "t_A t"), ("walk", "a"), ("cut", "t_A"), ("ring", "t_X"),
                       ("choice", "t_D"), ("long", "t_AI_c t_AR_c"), ("six", "t_AI_s0 t_AR_p0")] + ([("local", "t_A f_B"), ("back", "t_A f_B"), ("modes", "r f v a t")] if deep else []):
        for back in (False, True):
            out.append({"name": "strategy_%s%s" % (topo, "_back" * back), "fn": strategy,
                        "args": {"topo": topo, "what": what, "back": back}, "covers": ["strategy"]})
    for topo, what, p in [("two", "", "p0 s0 s0 p0"), ("modes2", "", "p0 s0 s0 p0"), ("four", "", "p0 s0 s0 p0"), ("transfer", "", "p0 s0 p0 c s0 c"),
                          ("walk", "", "p0 c s0 c c p0"), ("ring", "", "p0 s1 s2 p0"), ("oneway", "", "p0 s1 c s0")] + \
                         ([("choice", "t_D", "p0 c s0 c"), ("back", "t_B", "p0 s1 c s1")] if deep else []):
        out.append({"name": "loads_%s" % topo, "fn": loads, "args": {"topo": topo, "what": what, "pairs": A02.pairs_of(p)},
                    "covers": ["loads"]})
    return out
