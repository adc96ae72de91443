"""Resources and cost of the users."""
import props.A02 as A02
from props.lib import *

BOUNDS = A02.BOUNDS + "; ride times, street widths, walking speed, access and boarding times, regularities, numbers of parallel " \
                      "lines 1..5, social values and the tables of boardings and alightings per vehicle all arbitrary"
ASSUMPTIONS = A02.ASSUMPTIONS


def oracle(trips, suc, share, f, z, v, pax):
    """access, waiting, riding time and transfers from the flows on the edges"""
    ta = te = tv = n = 0
    table = lambda t, r, s: t[r.route.id][r.direction].get(s, 0)
    for o, d, t, stops in trips:
        start = {s: t * share[o][d][s] / 100 for s in stops}
        for s in stops:
            ta += start[s] * (s.mode.tat / 60 + share[o][d][s] / 100 * o.graph_node.width / (4 * pax.va * s.mode.d))
        fl = flows(suc[o][d], start, d, f)
        for e, x in fl:
            if e.type == ACCESS:
                stop = e.nodei if isinstance(e.nodei, StopNode) else e.nodej
                ta += x * stop.mode.tat / 60
            elif e.type == BOARD:
                m = e.nodej.route.mode
                lines = sum(f[b.nodej.route.id] for b in suc[o][d][e.nodei])
                te += x * m.theta * m.d / lines
            elif e.type == RIDE:
                tv += x * e.t
                r = e.nodej
                if any(b.type == RIDE for b in suc[o][d][r]):
                    m, s = r.route.mode, r.stop_node
                    a, b = table(z, r, s), table(v, r, s)
                    tv += x * m.t / 3600 * (a + b if m.bya == 0 else SMAX(a, b))
            elif e.type == ALIGHT:
                r = e.nodei
                tv += x * r.route.mode.t / 3600 * table(v, r, e.nodej) / 2
                if e.nodej.city_node is not d:
                    n += x
    return ta, te, tv, n


def SMAX(a, b):
    return a if a >= b else b


def harness(ctx, topo, what, pairs, bya, zero=None, own=False, tables=False, light=False):
    got = A02.loaded(ctx, topo, what, pairs, zero, own)
    if got is None:
        return
    X, g, pax, routes, trips, share, f, (hyper, labels, suc, V), (z, v, load) = got
    num = lambda name, lo, hi, default, lo_open=False: default if light else ctx.real(name, lo, hi, lo_open)
    modes = list({id(r.mode): r.mode for r in routes}.values())
    for k, m in enumerate(modes):
        m.bya = bya[k]
        m.theta = num("th%d" % k, 0, 1, 0.5)
        m.tat = num("ta%d" % k, 0, 60, 1.5)
        m.t = ctx.real("tb%d" % k, 0, 60)
        m.d = num("d%d" % k, 1, 5, 1)
    for n in g.get_nodes():
        n.width = num("w%d" % n.id, 0, 10, 2)
    pax.va, pax.spa, pax.spw, pax.spv, pax.spt = (num("va", 0, 10, 4, True), num("spa", 0, 50, 6), num("spw", 0, 50, 4),
                                                  num("spv", 0, 50, 2), num("spt", 0, 60, 16))
    k = 0
    for e in X.edges:
        if e.type == RIDE:
            used = any(any(q is e for q in suc[o][d][e.nodei]) for o, d, _, _ in trips)
            e.t = ctx.real("ride%d" % k, 0, 4) if used else 0.25
            k += used
        if e.type == ACCESS:
            e.t = (e.nodei if isinstance(e.nodei, StopNode) else e.nodej).mode.tat / 60
    if tables:
        z = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
        v = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
        for r in routes:
            for d, _, stops in directions(r):
                for s in dict.fromkeys(stops):
                    st = X.stop[r.mode.name, s]
                    z[r.id][d][st] = ctx.real("z_%s%s%d" % (r.id, d, s), 0, 500)
                    v[r.id][d][st] = ctx.real("v_%s%s%d" % (r.id, d, s), 0, 500)
    copy = lambda t: {k: {d: dict(t[k][d]) for d in t[k]} for k in t}
    z0, v0 = copy(z), copy(v)
    full = lambda t: defaultdict(lambda: defaultdict(lambda: defaultdict(float)),
                                 {k: defaultdict(lambda: defaultdict(float),
                                                 {d: defaultdict(float, t[k][d]) for d in t[k]}) for k in t})
    res, exc = ctx.attempt(UsersCost.resources_consumer, hyper, V, share, suc, X.eg, pax.va, f, full(z0), full(v0))
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    want = oracle(trips, suc, share, f, full(z0), full(v0), pax)
    for name, a, b in zip(("access_time", "waiting_time", "time_on_board", "transfers"), res, want):
        ctx.eq(name, a, b)
    cost, exc = ctx.attempt(UsersCost().get_users_cost, hyper, V, share, suc, X.eg, f, pax, full(z0), full(v0))
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    ta, te, tv, n = res
    ctx.eq("users_cost_is_weighted_sum", cost, ta * pax.spa + te * pax.spw + tv * pax.spv + n * pax.spt / 60 * pax.spv)
    ctx.cover("cost")


def cases(tier):
    out = []
    for k, (n, a) in enumerate(A02.settings(tier)):
        both = [((0, 1), True), ((1, 0), False)] if k % 2 else [((1, 0), True), ((0, 1), False)]
        for b, t in both[:1] if tier == "quick" and "choice" in n else both:
            out.append({"name": "%s_%s_bya%d%d" % (n, "tables" if t else "loads", *b), "fn": harness,
                        "args": {**a, "bya": b, "tables": t}, "covers": ["cost"]})
    return out
