"""Objective, constraints, the problem given to the solver and the overall results."""
import numpy as np
from scipy.optimize import OptimizeResult
import sidermit.optimization.optimizer as module
from props.world import *

BOUNDS = "14 networks of 1..4 lines and two modes (parallel lines, transfers, walking transfers, express lines, rings, one-way " \
         "lines) with 1..4 origin-destination pairs; frequencies of all lines arbitrary, from the initial or from given ones (zero included); trips, unit costs, limits, speeds, " \
         "boarding times, regularity, access time and social values arbitrary, several at a time; overall results with up to two arbitrary frequencies"
ASSUMPTIONS = ["some chosen line runs at every stop with passengers", "there are trips", "overall results: at least one line runs"]


def objective(ctx, topo, pairs, what, bya, idle=None, d=1, start=None):
    """start: initial frequencies by line, 'x' for an arbitrary one"""
    g, ids, routes, pax, dem, od = scene(ctx, topo, pairs, bya, what, d)
    net = network(g, routes)
    f0 = defaultdict(float, {r.id: r.mode.fini for r in routes})
    if start is not None:
        f0 = defaultdict(float, {r.id: ctx.real("f0_" + r.id, 0.1, 200) if w == "x" else w for r, w in zip(routes, lettered(routes, start))})
    opt, exc = ctx.attempt(Optimizer, g, dem, pax, net, *([f0] if start is not None else []))
    ctx.check("built", exc is None)
    if exc is not None:
        return
    x = [ctx.real("x_" + r.id, 0, 300, r.id != idle) for r in routes]
    W = World(g, routes, pax, od, f0, defaultdict(float, {r.id: q for r, q in zip(routes, x)}))
    got, exc = ctx.attempt(opt.VRC, list(x))
    ctx.check("computed", exc is None)
    if exc is None:
        ctx.eq("objective_is_total_cost", got, W.operators() + W.infrastructure() + W.users())
    con, exc = ctx.attempt(opt.get_constrains, list(x))
    ctx.check("computed", exc is None)
    if exc is None:
        want = W.limits()
        ctx.check("number_of_constraints", len(con) == len(want))
        ctx.eq_seq("capacity_then_frequency_constraints", list(con), want)
        f = defaultdict(float, {r.id: q for r, q in zip(routes, x)})
        load = Assignment.get_alighting_and_boarding(opt.Vij, opt.hyperpaths, opt.successors, opt.assignment, f)[2]
        two, exc = ctx.attempt(opt.constrains, load, f)
        ctx.check("computed", exc is None and len(two) == 2)
        if exc is None:
            ctx.check("number_of_constraints", len(two[0]) == len(routes) and len(two[0]) + len(two[1]) == len(want))
            ctx.eq_seq("capacity_and_frequency_constraints_apart", list(two[0]) + list(two[1]), want)
        ctx.cover("objective")


def as_bounds(b, n):
    if isinstance(b, (list, tuple)):
        return [(-INF if lo is None else lo, INF if hi is None else hi) for lo, hi in b]
    wide = lambda v: list(np.broadcast_to(np.asarray(v, dtype=object), (n,)))
    return list(zip(wide(b.lb), wide(b.ub)))


def problem(ctx, topo, pairs, what, bya):
    """what minimize() is given"""
    g, ids, routes, pax, dem, od = scene(ctx, topo, pairs, bya, what)
    fini = {}
    for k, m in enumerate({id(r.mode): r.mode for r in routes}.values()):
        m.fini = ctx.real("fini%d" % k, 1, 100)
    net = network(g, routes)
    opt, exc = ctx.attempt(Optimizer, g, dem, pax, net)
    ctx.check("built", exc is None)
    if exc is not None:
        return
    calls = []

    def stand_in(fun, x0, *a, **k):
        calls.append((fun, x0, a, k))
        return OptimizeResult(x=np.array([1.0] * len(routes)), success=True, status=1, message="m", constr_violation=0.0, fun=1.0)

    real = module.minimize
    module.minimize = stand_in
    try:
        res, exc = ctx.attempt(opt.internal_optimization)
    finally:
        module.minimize = real
    ctx.check("computed", exc is None and len(calls) == 1)
    if len(calls) != 1:
        return
    fun, x0, a, k = calls[0]
    ctx.check("starting_point", len(x0) == len(routes))
    for r, q in zip(routes, x0):
        ctx.eq("starting_point", q, r.mode.fini)
    ctx.check("bounded_below_by_zero", k.get("bounds") is not None and
              all(lo == 0 and hi == INF for lo, hi in as_bounds(k["bounds"], len(routes))) and
              len(as_bounds(k["bounds"], len(routes))) == len(routes))
    cons = k.get("constraints")
    ctx.check("constraints_given", cons is not None)
    if cons is None:
        return
    cons = list(cons) if isinstance(cons, (list, tuple)) else [cons]
    x = [ctx.real("x_" + r.id, 0, 300, True) for r in routes]
    f0 = defaultdict(float, {r.id: r.mode.fini for r in routes})
    W = World(g, routes, pax, od, f0, defaultdict(float, {r.id: q for r, q in zip(routes, x)}))
    at = np.array(x, dtype=object)
    got, exc = ctx.attempt(fun, at)
    ctx.check("computed", exc is None)
    if exc is None:
        ctx.eq("solver_minimises_the_total_cost", got, W.operators() + W.infrastructure() + W.users())
    vals, low, high = [], [], []
    for c in cons:
        v, exc = ctx.attempt(c.fun, at)
        ctx.check("computed", exc is None)
        if exc is not None:
            return
        v = list(v) if np.ndim(v) else [v]
        vals += v
        b = as_bounds(c, len(v))
        low += [lo for lo, _ in b]
        high += [hi for _, hi in b]
    want = W.limits()
    ctx.check("number_of_constraints", len(vals) == len(want))
    ctx.eq_seq("solver_gets_the_true_constraints", vals, want)
    ctx.check("every_constraint_at_most_zero", all(h == 0 for h in high) and all(lo == -INF for lo in low))
    ctx.check("result_of_the_solver", res is not None and res.fun == 1.0)
    ctx.cover("problem")


def overall(ctx, topo, pairs, what, bya, freq, d=1):
    """freq: per line a number or 'x' (arbitrary, zero included) or 'y' (arbitrary positive)"""
    g, ids, routes, pax, dem, od = scene(ctx, topo, pairs, bya, what, d)
    net = network(g, routes)
    opt = Optimizer(g, dem, pax, net)
    x = [ctx.real("x_" + r.id, 0, 300, w == "y") if isinstance(w, str) else w for r, w in zip(routes, lettered(routes, freq))]
    f = defaultdict(float, {r.id: q for r, q in zip(routes, x)})
    try:
        W = World(g, routes, pax, od, f, f)
    except E.TransportNetworkException:
        return          # nobody could travel
    opt.better_res = (list(x), True, 1, "m", 0, 1)
    out, exc = ctx.attempt(opt.get_overall_results)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    CO, CI, CU, n = W.operators(), W.infrastructure(), W.users(), W.total
    ctx.eq("cost_per_passenger", out["operators_cost"] * n, CO)
    ctx.eq("cost_per_passenger", out["infrastructure_cost"] * n, CI)
    ctx.eq("cost_per_passenger", out["users_cost"] * n, CU)
    ctx.eq("cost_per_passenger", out["VRC"] * n, CO + CI + CU)
    ta, te, tv, t = W.resources()
    for key, w in (("travel_time_on_board", tv), ("waiting_time", te), ("access_time", ta)):
        ctx.eq("minutes_per_passenger", out[key] * n, w * 60)
    ctx.eq("transfers_per_passenger", out["transfers"] * n, t)
    live = [r for r in routes if W.on[r.id]]
    for m in W.modes():
        mine = [r for r in live if r.mode is m]
        ctx.eq("fleet_of_a_mode", out["vehicles_mode"].get(m, 0), sum(f[r.id] * W.tc[r.id] for r in mine))
        ctx.eq("number_of_lines", out["lines_mode"].get(m, 0), m.d * len(mine))
        if mine:
            ctx.eq("mean_capacity_of_active_lines", out["vehicle_capacity_mode"][m] * len(mine), sum(W.k[r.id] for r in mine))
    ctx.cover("overall")


OBJ = [("one", "p0 s0 400", "V co0 c10 c20 t0 theta0 tat0 va spv spw spa spt kmax0 fmax0"), ("two", "p0 s0 400", "V t0 v0"),
       ("three", "p0 s0 300", "V"), ("modes", "p0 s0 500 s0 p0 100", "V co1 c21"), ("modes2", "p0 s0 500", "V spw"),
       ("transfer", "p0 c 200 s0 c 100", "V spt"), ("walk", "p0 c 200 c p0 50", "V tat0"), ("direct", "p0 c 300 s0 c 100", "V t0"),
       ("local", "p0 c 300 p0 s0 80", "c10"), ("choice", "p0 c 300 s0 c 90", "c11"), ("back", "p0 s1 200 c s1 70", "V"),
       ("ring", "p0 s1 200 s2 p0 90", "V t0"), ("ring", "s0 s2 100 s1 s0 60", ""), ("oneway", "p0 s1 150 s1 p0 90", "V"),
       ("asym", "p0 s1 100 s1 p0 70 c p0 40", "V spa"), ("skip", "p0 c 100 c s0 60 c p0 90", "V"), ("asym_named", "p0 s1 100 c p0 40", "V")]
OVER = [("one", "p0 s0 400", "V co0 c10 c20 spt t0 tat0", "y"), ("two", "p0 s0 400", "", "yx"), ("three", "p0 s0 400", "", "x9 4"),
        ("modes", "p0 s0 400 s0 p0 100", "", "x9"), ("modes", "p0 s0 400", "", "9y"), ("transfer", "p0 c 200 s0 c 50", "V", "y8"),
        ("walk", "p0 c 200 c p0 50", "V tat1", "8y"), ("ring", "p0 s1 200 s2 p0 90", "", "8x9"), ("direct", "p0 c 300 s0 c 80", "", "67x"),
        ("modes2", "p0 s0 400", "V", "y5 7 6"), ("skip", "p0 c 90 c p0 70", "V0", "y6"), ("oneway", "p0 s1 90 s1 p0 40", "", "xy"),
        ("back", "p0 s1 90 c s1 30", "", "y56"), ("choice", "p0 c 200 s0 c 60", "", "5 7x6"), ("asym", "p0 s1 100 s1 p0 70", "V1", "y7"), ("local", "p0 c 300 p0 s0 80", "", "5x7")]

OVER_DEEP = [("two", "p0 s0 400 s0 p0 90", "V co0 c10 t0", "xx"), ("three", "p0 s0 400", "V", "xyy"), ("modes", "p0 s0 400 s0 p0 100", "V", "xy"),
             ("modes2", "p0 s0 400", "V spw", "xyx6"), ("transfer", "p0 c 200 s0 c 50 p0 s0 10 c p0 40", "V", "yy"),
             ("walk", "p0 c 200 c p0 50", "V tat1", "yy"), ("ring", "p0 s1 200 s2 p0 90", "", "yxx"),
             ("direct", "p0 c 300 s0 c 80", "V", "xxx"), ("choice", "p0 c 200 s0 c 60", "", "5xx6"), ("choice", "p0 c 200", "V", "x7x6"),
             ("asym", "p0 s1 100 s1 p0 70", "V", "yy"), ("local", "p0 c 300 p0 s0 80", "V", "5xx"), ("back", "p0 s1 90 c s1 30", "V", "xyy"),
             ("oneway", "p0 s1 90 s1 p0 40 c s0 20", "V", "xy")]


def pairs3(text):
    w = text.split()
    return [(a, b, float(v)) for a, b, v in zip(w[::3], w[1::3], w[2::3])]


def freqs(text):
    import re
    return [w if w in "xy" else float(w) for w in re.findall(r"[xy]|\d", text)]


def cases(tier):
    deep = tier != "quick"
    out = []
    for k, (topo, p, what) in enumerate(OBJ):
        for bya in ((0, 1), (1, 0))[:] if deep or len(TOPOLOGIES[topo][0]) < 3 else (((0, 1), (1, 0))[k % 2],):
            out.append({"name": "objective_%s_%d_bya%d%d" % (topo, k, *bya), "fn": objective, "covers": ["objective"],
                        "args": {"topo": topo, "pairs": pairs3(p), "what": what, "bya": bya, "d": (1, 2, 4)[k % 3]}})
    for topo, p, idle in [("two", "p0 s0 400", "B"), ("three", "p0 s0 200", "A"), ("ring", "p0 s0 100", "X"), ("transfer", "p0 s0 100", "B"),
                           ("walk", "p0 s0 100", "B"), ("cut", "p0 s0 100", "C")]:
        out.append({"name": "objective_%s_idle_%s" % (topo, idle), "fn": objective, "covers": ["objective"],
                    "args": {"topo": topo, "pairs": pairs3(p), "what": "V", "bya": (1, 0), "idle": idle}})
    for topo, p, start, idle in [("two", "p0 s0 400", [10, 0], "B"), ("transfer", "p0 s0 90", ["x", 0], "B"), ("walk", "p0 c 100", ["x", "x"], None),
                                 ("direct", "p0 c 60 s0 c 30", [12, 9, 0], "C"), ("ring", "p0 s1 50", [10, "x", 0], "Y")]:
        out.append({"name": "objective_%s_from_%s" % (topo, "_".join(map(str, start))), "fn": objective, "covers": ["objective"],
                    "args": {"topo": topo, "pairs": pairs3(p), "what": "V", "bya": (0, 1), "idle": idle, "start": start}})
    for topo, p, what in [("one", "p0 s0 400", "V kmax0 fmax0"), ("two", "p0 s0 400", ""), ("modes", "p0 s0 400", "fmax1"),
                          ("transfer", "p0 c 200", "V"), ("ring", "p0 s1 200", "")] + ([("choice", "p0 c 300", ""), ("local", "p0 c 100 p0 s0 50", "V")] if deep else []):
        out.append({"name": "problem_%s" % topo, "fn": problem, "covers": ["problem"],
                    "args": {"topo": topo, "pairs": pairs3(p), "what": what, "bya": (0, 1)}})
    for k, (topo, p, what, fr) in enumerate(OVER + (OVER_DEEP if deep else [])):
        out.append({"name": "overall_%s_%d" % (topo, k), "fn": overall, "covers": ["overall"],
                    "args": {"topo": topo, "pairs": pairs3(p), "what": what, "bya": ((0, 1), (1, 0))[k % 2], "freq": freqs(fr),
                             "d": (1, 2, 3)[k % 3]}})
    return out
