"""The network under histories of additions and removals of routes and modes."""
from props.lib import *

BOUNDS = "cities of 1 and 2 zones; from the empty network and from networks of 3-4 routes and 1-2 modes every history of 3/2 " \
         "(quick) or 4/3 (thorough) operations out of 22 (adding routes with two ids, ids and mode names that contain one another or differ only in case, three modes, good streets, a missing " \
         "street in either direction; removing routes; adding and removing modes; objects of other types), with any numbers " \
         "of parallel lines 0..5 of the modes; single additions of routes of 1..3 arbitrary (symbolic) node ids per direction"
ASSUMPTIONS = ["parameters of modes and routes are not edited after they were registered"]


def mode(name, d):
    return TransportMode(name, 1, 8, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, d, 28)


# nodes of a two zone city: CBD 0, P 1, SC 2, P 3, SC 4
SEQS = {"ok": ("1,2,0", "0,2,1"), "ok2": ("3,4,2", "2,4,3"), "bad_i": ("1,0", "0,2,1"), "bad_r": ("1,2,0", "0,1"),
        "bad_last": ("1,2,4,3", "3,2,4,1")}


def route(rid, m, seq):
    i, r = SEQS[seq]
    return Route(IDS[rid], m, i, r, i, r, _type=RouteType.PREDEFINED)


# line ids and mode names that begin with, contain or differ only in case from one another
IDS = {"A": "L10", "B": "L1", "C": "l1", "D": "1L1", "E": "L1 ", "Z": "L"}


OPS = [("route", rid, k, "ok") for rid in "AB" for k in (0, 1, 2)] + \
      [("route", "A", 0, "bad_i"), ("route", "A", 1, "bad_r"), ("route", "B", 0, "bad_last"), ("route", "C", 0, "ok2"),
       ("route", "C", 1, "ok2"), ("route", None, 0, "ok"), ("remove", "A"), ("remove", "B"), ("remove", "Z"),
       ("mode", 0), ("mode", 1), ("mode", 2), ("mode", None), ("rmmode", 0), ("rmmode", 1), ("rmmode", 2)]
STARTS = {
    "empty": [],
    "one": [("route", "A", 0, "ok"), ("route", "B", 0, "ok2"), ("route", "C", 0, "ok")],
    "two": [("route", "A", 0, "ok"), ("route", "B", 1, "ok2"), ("route", "C", 0, "ok"), ("route", "D", 1, "ok2")],
    "block": [("route", "A", 1, "ok"), ("route", "B", 0, "ok2"), ("route", "C", 0, "ok"), ("route", "D", 0, "ok2"),
              ("route", "E", 1, "ok")],
}


def state(net):
    return list(net.get_routes()), list(net.get_modes())


def same(a, b):
    return all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(a, b))


def invariants(ctx, g, net):
    routes, modes = state(net)
    for r in routes:
        for s in (r.nodes_sequence_i, r.nodes_sequence_r):
            ctx.check("streets_exist", all(g.edge_exist(s[k], s[k + 1]) for k in range(len(s) - 1)))
        ctx.check("route_mode_registered", any(r.mode is m for m in modes))
    ids = [r.id for r in routes]
    ctx.check("route_ids_unique", len(set(ids)) == len(ids))
    ctx.check("at_most_two_modes", len(modes) <= 2)
    if len(modes) == 2:
        ctx.check("one_single_line_mode", ctx.Or(modes[0].d == 1, modes[1].d == 1))
        ctx.check("mode_names_unique", modes[0].name != modes[1].name)
    for rid in IDS.values():
        r, exc = ctx.attempt(net.get_route, rid)
        ctx.check("get_route", (rid in ids) == (exc is None) and
                  (exc is not None or any(x is r for x in routes if x.id == rid)))


def mode_ok(ctx, modes, m):
    if any(m is x for x in modes):
        return True
    if any(m.name == x.name for x in modes):
        return False
    if not modes:
        return True
    return ctx.Or(m.d == 1, modes[0].d == 1) if len(modes) == 1 else False


def step(ctx, g, net, modes, op):
    before = state(net)
    routes, ms = list(before[0]), list(before[1])
    if op[0] == "route":
        r = "not a route" if op[1] is None else route(op[1], modes[op[2]], op[3])
        _, exc = ctx.attempt(net.add_route, r)
        if op[1] is None:
            ok = False
        else:
            ok = all(g.edge_exist(s[k], s[k + 1]) for s in (r.nodes_sequence_i, r.nodes_sequence_r)
                     for k in range(len(s) - 1))
            ok = ok and all(x.id != r.id for x in routes)
            ok = mode_ok(ctx, ms, r.mode) if ok else False
            routes.append(r)
            if not any(r.mode is m for m in ms):
                ms.append(r.mode)
    elif op[0] == "remove":
        _, exc = ctx.attempt(net.remove_route, IDS[op[1]])
        ok = any(x.id == IDS[op[1]] for x in routes)
        routes = [x for x in routes if x.id != IDS[op[1]]]
    elif op[0] == "mode":
        m = "not a mode" if op[1] is None else modes[op[1]]
        _, exc = ctx.attempt(net.add_transport_mode, m)
        ok = False if op[1] is None else mode_ok(ctx, ms, m)
        if op[1] is not None and not any(m is x for x in ms):
            ms.append(m)
    else:
        m = modes[op[1]]
        _, exc = ctx.attempt(net.remove_transport_mode, m)
        ok = True if any(m is x for x in ms) else None  # of a mode that is not registered: only that nothing changes
        routes = [x for x in routes if x.mode is not m]
        ms = [x for x in ms if x is not m]
    after = state(net)
    if exc is None:
        if ok is not None:
            ctx.check("accepted_only_valid_" + op[0], ok)
        ctx.check("routes_after_" + op[0], len(after[0]) == len(routes) and all(a is b for a, b in zip(after[0], routes)))
        ctx.check("modes_after_" + op[0], sorted(map(id, after[1])) == sorted(map(id, ms)))
        ctx.cover("accepted")
    else:
        if ok is not None:
            ctx.check("rejected_only_invalid_" + op[0], ctx.Not(ok))
        ctx.check("documented_exception", type(exc).__module__ == "sidermit.exceptions")
        ctx.check("rejected_changes_nothing", same(before, after))
        ctx.cover("rejected")


def history(ctx, start, k, first=None):
    g = city(2)
    modes = [mode("bus", ctx.int("d0", 0, 5)), mode("Bus", ctx.int("d1", 0, 5)), mode("bus", ctx.int("d2", 0, 5))]
    net = TransportNetwork(g)
    for op in STARTS[start]:
        step(ctx, g, net, modes, op)
    for i in range(k):
        op = first if i == 0 and first is not None else ctx.choice("op%d" % i, OPS)
        step(ctx, g, net, modes, op)
    invariants(ctx, g, net)
    ctx.cover("end")


def single(ctx, n, li, lr, kind, sparse=False):
    """one route over arbitrary node ids"""
    g = sparse_city(n) if sparse else city(n)
    net = TransportNetwork(g)
    top = max(x.id for x in g.get_nodes()) + 1
    i = [ctx.int("i%d" % k, -1, top) for k in range(li)]
    r = [ctx.int("r%d" % k, -1, top) for k in range(lr)]
    if kind == RouteType.CUSTOM:
        r[0], r[-1] = i[-1], i[0]
    si, sr = ",".join(ctx.text(x) for x in i), ",".join(ctx.text(x) for x in r)
    m = mode("bus", 1)
    x, exc = ctx.attempt(Route, "A", m, si, sr, si, sr, _type=kind)
    if exc is not None:
        ctx.cover("no_route")
        return
    pairs = [(s[k], s[k + 1]) for s in (i, r) for k in range(len(s) - 1)]
    zones, cbd = g.get_zones(), g.get_cbd()
    streets = street_pairs(zones, cbd)
    ok = ctx.And(*[ctx.Or(*[ctx.And(a == p, b == q) for p, q in streets]) for a, b in pairs])
    _, exc = ctx.attempt(net.add_route, x)
    if exc is None:
        ctx.check("accepted_only_valid_route", ok)
        ctx.check("routes_after_route", len(net.get_routes()) == 1 and net.get_routes()[0] is x)
        ctx.check("modes_after_route", len(net.get_modes()) == 1 and net.get_modes()[0] is m)
        ctx.cover("accepted")
    else:
        ctx.check("rejected_only_invalid_route", ctx.Not(ok))
        ctx.check("documented_exception", type(exc).__module__ == "sidermit.exceptions")
        ctx.check("rejected_changes_nothing", not net.get_routes() and not net.get_modes())
        ctx.cover("rejected")


def cases(tier):
    deep = tier != "quick"
    out = []
    for s in STARTS:
        k = (3 if s == "empty" else 2) + deep
        for j, op in enumerate(OPS):
            out.append({"name": "history_%s_%d" % (s, j), "fn": history, "args": {"start": s, "k": k, "first": op},
                        "covers": ["end"]})
    P, C = RouteType.PREDEFINED, RouteType.CUSTOM
    todo = [(1, 2, 2, P, False), (1, 3, 3, C, False), (2, 2, 2, P, False), (2, 3, 3, C, False), (2, 2, 3, C, True),
            (2, 3, 2, C, False)]
    if deep:
        todo += [(3, 3, 3, C, False), (3, 3, 3, C, True), (2, 3, 3, P, True), (2, 4, 3, C, False), (3, 2, 4, C, False)]
    for n, li, lr, kind, sp in todo:
        out.append({"name": "single_%d_%d_%d_%s%s" % (n, li, lr, kind.name, "_sparse" if sp else ""), "fn": single,
                    "args": {"n": n, "li": li, "lr": lr, "kind": kind, "sparse": sp}, "covers": ["accepted", "rejected"]})
    return out
