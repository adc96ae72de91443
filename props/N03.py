"""Predefined route families."""
from props.lib import *

BOUNDS = "cities of 0..7, 10, 11 (quick) / 0..12 (thorough) zones with consecutive ids, imported ids that are neither consecutive nor " \
         "ordered (up to 4, 10, 11 zones), and arbitrary distinct (symbolic) node ids in [0, 10^6] (up to 4 / 6 zones); every integer " \
         "jump from -2 to n+2 and fractional jumps; all short/express options; two mode names"
ASSUMPTIONS = ["the options short and express are given as booleans"]
M = [None]


def the_mode(name="bus"):
    return TransportMode(name, 1, 8, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, 1, 28)


def make_city(ctx, n, ids):
    g = sparse_city(n) if ids == "sparse" else city(n)
    if ids == "symbolic":
        nodes = g.get_nodes()
        xs = [ctx.int("id%d" % i, 0, 10 ** 6) for i in range(len(nodes))]
        for a in range(len(xs)):
            for b in range(a):
                ctx.assume(xs[a] != xs[b])
        for x, v in zip(nodes, xs):
            x.id = v
    return g


def family(g, kind, jump, short, express):
    """documented routes as (nodes_i, nodes_r, stops_i, stops_r); rings as None for the missing direction"""
    zones, cbd = g.get_zones(), g.get_cbd()
    n = len(zones)
    p = [z.periphery.id for z in zones]
    s = [z.subcenter.id for z in zones]
    out = []
    count = n // 2 if kind in ("diametral", "tangential") and 2 * jump == n else n
    for z in range(count):
        if kind == "feeder":
            seq = [p[z], s[z]]
            stops = seq
        elif kind == "radial":
            seq = [s[z], cbd.id] if short else [p[z], s[z], cbd.id]
            stops = [seq[0], seq[-1]] if express else seq
        else:
            w = (z + jump) % n
            mid = [cbd.id] if kind == "diametral" else [s[(z + k) % n] for k in range(1, jump)]
            seq = [s[z]] + mid + [s[w]]
            if not short:
                seq = [p[z]] + seq + [p[w]]
            stops = [seq[0], seq[-1]] if express else seq
        out.append((seq, seq[::-1], stops, stops[::-1]))
    return out


def equal(ctx, r, want):
    got = (r.nodes_sequence_i, r.nodes_sequence_r, r.stops_sequence_i, r.stops_sequence_r)
    if any(len(a) != len(b) for a, b in zip(got, want)):
        return False
    return ctx.And(*[x == y for a, b in zip(got, want) for x, y in zip(a, b)])


def common(ctx, g, routes, m, kind, fresh=True):
    ctx.check("ids_distinct", len({r.id for r in routes}) == len(routes))
    ctx.check("mode_of_routes", all(r.mode is m for r in routes))
    ctx.check("route_type", all(r._type == kind for r in routes))
    if fresh:
        net = TransportNetwork(g)
        for r in routes:
            _, exc = ctx.attempt(net.add_route, r)
            ctx.check("runs_over_existing_streets", exc is None)
        ctx.check("all_added", len(net.get_routes()) == len(routes))


def two_way(ctx, n, kind, ids, jump=None):
    g = make_city(ctx, n, ids)
    net = TransportNetwork(g)
    m = the_mode(ctx.choice("mode", ["bus", "metro"]) if ids != "symbolic" else "bus")
    fresh = ids != "symbolic"
    short = express = False
    if kind == "feeder":
        routes, exc = ctx.attempt(net.get_feeder_routes, m)
        ok = True
    elif kind == "radial":
        short, express = ctx.flag("short"), ctx.flag("express")
        routes, exc = ctx.attempt(net.get_radial_routes, m, short, express)
        ok = True
    else:
        short, express = ctx.flag("short"), ctx.flag("express")
        fn = net.get_diametral_routes if kind == "diametral" else net.get_tangencial_routes
        whole = True
        if jump is None:
            whole = ctx.flag("whole")
            jump = ctx.int("jump", -2, n + 2) if whole else ctx.choice("fraction", [0.5, 1.5])
        routes, exc = ctx.attempt(fn, m, jump, short, express)
        ok = ctx.And(jump >= 1, 2 * jump <= n, whole)
    if exc is not None:
        ctx.check("rejected_only_outside_range", ctx.Not(ok))
        ctx.check("documented_exception", type(exc) is E.JumpIsNotValidException)
        ctx.cover("rejected")
        return
    ctx.check("accepted_only_in_range", ok)
    if not n:
        ctx.check("no_zones_no_routes", routes == [])
        ctx.cover("accepted")
        return
    if jump is not None and not type(jump) is int:
        for k in range(1, n // 2 + 1):  # the generator has fixed the jump on this path
            if jump == k:
                jump = k
                break
        else:
            return
    if not ctx.symbolic or ids != "symbolic":  # the same network asked again: another mode, other options in between
        other = the_mode("second")
        rest = (jump,) if kind in ("diametral", "tangential") else ()
        ask = {"feeder": net.get_feeder_routes, "radial": net.get_radial_routes, "diametral": net.get_diametral_routes,
               "tangential": net.get_tangencial_routes}[kind]
        hold = lambda rs: [(r.id.replace(r.mode.name, "*"), list(r.nodes_sequence_i), list(r.nodes_sequence_r),
                            list(r.stops_sequence_i), list(r.stops_sequence_r)) for r in rs]
        for a, b in ((short, express), (not short, express), (short, not express)) if kind != "feeder" else ((0, 0),):
            opt = (a, b) if kind != "feeder" else ()
            net.get_feeder_routes(m)
            rs, e2 = ctx.attempt(ask, other, *rest, *opt)
            fresh_rs, e3 = ctx.attempt(getattr(TransportNetwork(g), ask.__name__), other, *rest, *opt)
            ctx.check("asked_again", (e2 is None) == (e3 is None))
            if e2 is None and e3 is None:
                ctx.check("asked_again", all(r.mode is other for r in rs) and [r.id for r in rs] == [r.id for r in fresh_rs] and
                          hold(rs) == hold(fresh_rs))
        again, e2 = ctx.attempt(ask, m, *rest, *((short, express) if kind != "feeder" else ()))
        ctx.check("asked_again", e2 is None and [r.id for r in again] == [r.id for r in routes] and hold(again) == hold(routes) and
                  all(r.mode is m for r in again))
    want = family(g, kind, jump, short, express)
    ctx.check("number_of_routes", len(routes) == len(want))
    left = list(routes)
    for w in want:
        eqs = [(r, equal(ctx, r, w)) for r in left]
        if ctx.symbolic and ids == "symbolic":
            ctx.check("sequences", ctx.Or(*[e for _, e in eqs]))
        else:
            hit = [r for r, e in eqs if e]
            ctx.check("sequences", bool(hit))
            if hit:
                left = [r for r in left if r is not hit[0]]
    common(ctx, g, routes, m, RouteType.PREDEFINED, fresh)
    # adding the family to this network leaves the generators' answers alone
    ctx.check("generating_adds_nothing", net.get_routes() == [] and net.get_modes() == [])
    ctx.cover("accepted")


def circular(ctx, n, ids):
    g = make_city(ctx, n, ids)
    net = TransportNetwork(g)
    m = the_mode()
    routes, exc = ctx.attempt(net.get_circular_routes, m)
    if exc is not None:
        ctx.check("rejected_only_without_ring", n <= 1)
        ctx.check("documented_exception", type(exc) is E.CircularRouteIsNotValidException)
        ctx.cover("rejected")
        return
    ctx.check("accepted_only_with_ring", n > 1)
    s = [z.subcenter.id for z in g.get_zones()]
    ctx.check("two_rings", len(routes) == 2)
    if len(routes) != 2:
        return
    rings = []
    for r in routes:
        ctx.check("one_way", bool(r.nodes_sequence_i) != bool(r.nodes_sequence_r))
        ctx.check("stops_everywhere", ctx.And(len(r.stops_sequence_i) == len(r.nodes_sequence_i),
                                              len(r.stops_sequence_r) == len(r.nodes_sequence_r),
                                              *[a == b for x, y in ((r.nodes_sequence_i, r.stops_sequence_i),
                                                                    (r.nodes_sequence_r, r.stops_sequence_r))
                                                for a, b in zip(x, y)]))
        rings.append(r.nodes_sequence_i or r.nodes_sequence_r)
    ctx.check("one_per_direction", bool(routes[0].nodes_sequence_i) != bool(routes[1].nodes_sequence_i))
    rot = [[s[(k + j) % n] for j in range(n)] for k in range(n)]
    back = [[s[(k - j) % n] for j in range(n)] for k in range(n)]
    fwd = [r for r in routes if r.nodes_sequence_i]
    for r in routes:
        ring = r.nodes_sequence_i or r.nodes_sequence_r
        ctx.check("ring_closed", len(ring) == n + 1 and ring[0] == ring[-1])
        alts = rot if r in fwd else back
        ctx.check("ring_order", len(ring) == n + 1 and
                  ctx.Or(*[ctx.And(*[a == b for a, b in zip(ring, x)]) for x in alts]))
    common(ctx, g, routes, m, RouteType.CIRCULAR, ids != "symbolic")
    ctx.cover("accepted")


def both(ctx, n):
    """all families together keep their ids apart in one network"""
    g = city(n)
    net = TransportNetwork(g)
    m = the_mode()
    rs = net.get_feeder_routes(m) + net.get_radial_routes(m)
    for short in (False, True):
        for express in (False, True):
            if not (short and express):
                rs += net.get_radial_routes(m, short, express) if short or express else []
            for jump in range(1, n // 2 + 1):
                rs += net.get_diametral_routes(m, jump, short, express)
                rs += net.get_tangencial_routes(m, jump, short, express)
    if n > 1:
        rs += net.get_circular_routes(m)
    ctx.check("ids_distinct_between_families", len({r.id for r in rs}) == len(rs))
    bad = ctx.choice("bad", [None, "bus", 3])
    calls = [net.get_feeder_routes, net.get_radial_routes]
    if n > 1:
        calls += [net.get_circular_routes, net.get_diametral_routes, net.get_tangencial_routes]
    for fn in calls:
        _, exc = ctx.attempt(fn, bad)
        ctx.check("no_mode_rejected", type(exc) is E.ModeIsNotValidException)
    ctx.cover("end")


def cases(tier):
    deep = tier != "quick"
    out = []
    top = 12 if deep else 7
    for kind in ("feeder", "radial", "diametral", "tangential"):
        jumps = kind in ("diametral", "tangential")
        todo = [(n, "default") for n in range(0, top + 1)] + [(n, "sparse") for n in range(1, 5)] + \
               [(n, "symbolic") for n in range(1, (6 if deep else 4) + 1)]
        for n, ids in todo:
            if ids == "symbolic" and jumps:
                for j in range(1, n // 2 + 1):
                    out.append({"name": "%s_%d_%s_%d" % (kind, n, ids, j), "fn": two_way,
                                "args": {"n": n, "kind": kind, "ids": ids, "jump": j}, "covers": ["accepted"]})
                continue
            cov = ["accepted"] if not jumps else ["rejected"] if n < 2 else ["accepted", "rejected"]
            out.append({"name": "%s_%d_%s" % (kind, n, ids), "fn": two_way,
                        "args": {"n": n, "kind": kind, "ids": ids}, "covers": cov})
    for n, ids in [(n, "default") for n in range(0, top + 1)] + [(n, "sparse") for n in range(1, 5)] + \
            [(n, "symbolic") for n in range(2, 5)]:
        out.append({"name": "circular_%d_%s" % (n, ids), "fn": circular, "args": {"n": n, "ids": ids},
                    "covers": ["accepted" if n > 1 else "rejected"]})
    for n in (10, 11):
        for kind in ("feeder", "radial", "diametral", "tangential") if not deep else ():
            out.append({"name": "%s_%d_default" % (kind, n), "fn": two_way, "args": {"n": n, "kind": kind, "ids": "default"},
                        "covers": ["accepted"]})
        if not deep:
            out.append({"name": "circular_%d_default" % n, "fn": circular, "args": {"n": n, "ids": "default"},
                        "covers": ["accepted"]})
        out.append({"name": "circular_%d_sparse" % n, "fn": circular, "args": {"n": n, "ids": "sparse"}, "covers": ["accepted"]})
    for n in range(1, top + 1):
        out.append({"name": "together_%d" % n, "fn": both, "args": {"n": n}, "covers": ["end"]})
    return out
