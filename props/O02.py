"""The external loop. The internal optimisation is a stand-in that returns arbitrary results."""
import numpy as np
from scipy.optimize import OptimizeResult
import sidermit.optimization.optimizer as module
from props.O01 import valid
from props.lib import *

BOUNDS = "networks of 1..2 lines, up to 3 (quick) / 4 (thorough) internal optimisations, and up to 9 of which one to three, with arbitrary frequencies, violations, objective values and " \
         "convergence; limits 0..4 and none; arbitrary tolerances; default and given initial frequencies; with and without trips"
ASSUMPTIONS = ["the internal optimisation is an arbitrary function of its inputs (its own problem is O03's)",
               "without a limit the results converge within the bound",
               "with frequencies given by the caller, the change made by the first internal optimisation is not compared (the "
               "code compares with the modes' initial ones; see F13 in DESIGN.md)"]


class Fake:
    """records the optimiser on which each internal optimisation runs"""

    def __init__(self, ctx, results):
        self.ctx, self.results, self.seen = ctx, results, []

    def __call__(self, opt):
        k = len(self.seen)
        self.seen.append(opt)
        if k >= len(self.results):
            raise RuntimeError("too many internal optimisations")
        x, success, status, message, viol, fun = self.results[k]
        return OptimizeResult(x=np.array(x, dtype=object), success=success, status=status, message=message,
                              constr_violation=viol, fun=fun)


def world(ctx, topo, trips, fini):
    ms = [mk_mode("bus", fini=fini[0]), mk_mode("metro", fini=fini[1])]
    g, ids, routes, o, d = topology(topo, ms)
    dem = Demand(g)
    if trips:
        dem.change_vij(o, d, 100)
    return g, routes, dem, o, d


def run(ctx, topo, count, limit, trips, given, entry, codes, hi, free=None):
    lines = len(TOPOLOGIES[topo][0])
    fini = [ctx.real("fini%d" % k, 1, 100) for k in range(2)] if not trips else [12, 8]
    g, routes, dem, o, d = world(ctx, topo, trips, fini)
    pax = Passenger(4, 2, 4, 6, 16, 2, 4, 6, 16)
    net = network(g, routes)
    rs = []
    for k in range(count):
        if free is not None and k not in free:  # the others are fixed: changes of 2 to 9, feasible and worse than -10, or not feasible
            rs.append(([20 + 9 * (k % 2) - k / 2 + j for j in range(lines)], True, 1, "message %d" % k, (k % 3) / 4, 500 - 7 * k))
            continue
        x = [ctx.real("x%d_%d" % (k, j), -1 if not trips else 0.5, hi) for j in range(lines)]
        if limit is None and k == count - 1 and count > 1:
            x = list(rs[-1][0])
        if limit is None and count == 1:
            x = [r.mode.fini for r in routes]
        st = ctx.choice("status%d" % k, codes)
        rs.append((x, st in (1, 2), st, "message %d" % k, ctx.real("violation%d" % k, -0.01, 1), ctx.real("fun%d" % k, -10, 1000)))
    vals = [(list(r[0]),) + r[1:] for r in rs]
    tol = ctx.real("tol", 0, 10, limit is None)
    f0 = None
    if given:
        f0 = defaultdict(float)
        for k, r in enumerate(routes):
            f0[r.id] = ctx.real("given%d" % k, 0.5, 100)
    start = [f0[r.id] if given else r.mode.fini for r in routes]
    fake = Fake(ctx, rs)
    real = module.Optimizer.internal_optimization
    module.Optimizer.internal_optimization = lambda self: fake(self)
    try:
        if entry == "network":
            kw = {"tolerance": tol, "max_number_of_iteration": limit}
            opt, exc = ctx.attempt(module.Optimizer.network_optimization, g, dem, pax, net, f0, **kw)
            out = None if exc is not None else opt.get_optimization_value()
        else:
            kw = {"tolerance": tol, "number_of_iteration": limit}
            out, exc = ctx.attempt(module.Optimizer.external_optimization, g, dem, pax, net, f0, **kw)
    finally:
        module.Optimizer.internal_optimization = real
    n = len(fake.seen)
    ctx.check("runs_at_least_once", n >= 1)
    ctx.check("never_exceeds_the_limit", n <= (count if limit is None else max(limit, 1)))
    if n > count or n < 1:
        return
    # each on the paths of the previous frequencies
    prev = start
    for k, opt in enumerate(fake.seen):
        for r, p in zip(routes, prev):
            ctx.eq("paths_of_the_previous_frequencies", opt.f[r.id], p)
        X = Ext(opt.extended_graph_obj)
        for e in X.edges:
            if e.type == BOARD:
                r = e.nodej.route
                ctx.eq("boarding_frequencies_are_the_previous", e.f * r.mode.d, prev[[q.id for q in routes].index(r.id)])
        if trips:
            f = defaultdict(float, {r.id: p for r, p in zip(routes, prev)})
            Y = Ext(ExtendedGraph(g, routes, 16, f))
            paths, lab, suc, fr = Hyperpath(Y.eg, pax).get_hyperpath_OD(Y.city[o], Y.city[d])
            name = lambda n: (n.city_node.graph_node.id, n.mode.name) if isinstance(n, StopNode) else \
                (n.route.id, n.direction, n.stop_node.city_node.graph_node.id) if isinstance(n, RouteNode) else n.graph_node.id
            got = opt.hyperpaths[X.city[o]][X.city[d]]
            ctx.check("passenger_paths_of_the_previous_frequencies",
                      sorted(str([name(q) for q in p]) for s in got for p in got[s]) ==
                      sorted(str([name(q) for q in p]) for s in paths for p in paths[s]))
        prev = vals[k][0]
    # the loop stops exactly on convergence or at its limit
    seq = [[r.mode.fini for r in routes]] + [v[0] for v in vals]
    for k in range(1, n + 1):
        if k == 1 and given:
            continue
        change = sum(abs(a - b) for a, b in zip(seq[k - 1], seq[k]))
        if k < n:
            ctx.check("goes_on_until_convergence", change >= tol)
        else:
            ctx.check("stops_on_convergence_or_at_the_limit", ctx.Or(change < tol, limit is not None and n == max(limit, 1)))
    vals = vals[:n]
    ok = [valid(ctx, v) for v in vals]
    if exc is not None:
        ctx.check("documented_exception", type(exc) is E.NoOptimalSolutionFoundException)
        ctx.check("exception_only_without_feasible_result", ctx.And(*[ctx.Not(v) for v in ok]))
        ctx.cover("exception")
        return
    ctx.check("a_result", out is not None and len(out) == 6)
    if out is None:
        return
    mine = [k for k, v in enumerate(vals) if v[3] == out[3]]
    ctx.check("one_of_the_results", len(mine) == 1)
    if len(mine) != 1:
        return
    r = vals[mine[0]]
    ctx.check("best_feasible_result", ctx.And(ok[mine[0]], *[ctx.Implies(v, r[5] <= w[5]) for v, w in zip(ok, vals)]))
    ctx.check("rest_of_the_result_unchanged", out[1] is r[1] and out[2] == r[2] and out[4] == r[4] and out[5] == r[5])
    ctx.check("one_frequency_per_line", len(out[0]) == lines)
    for a, b in zip(out[0], r[0]):
        ctx.check("small_frequencies_are_zero", ctx.Implies(b < 1 / 24, a == 0))
        ctx.check("other_frequencies_unchanged", ctx.Implies(b >= 1 / 24, a == b))
    ctx.cover("result")


def cases(tier):
    deep = tier != "quick"
    out = []

    def add(topo, count, limit, trips=False, given=False, entry="external", codes=(1, 3), hi=50, covers=("result", "exception"), free=None):
        out.append({"name": "%s_%d_limit%s%s%s_%s" % (topo, count, limit, "_trips" * trips, "_given" * given, entry) + ("" if free is None else "_free" + "".join(map(str, free))), "fn": run,
                    "args": {"topo": topo, "count": count, "limit": limit, "trips": trips, "given": given, "entry": entry,
                             "codes": list(codes), "hi": hi, "free": free}, "covers": list(covers)})

    add("one", 1, 1, codes=(0, 1, 2, 3))
    add("one", 1, None)
    add("one", 2, 2)
    add("one", 3, 3)
    add("one", 3, None)
    add("one", 2, 1)
    add("one", 2, 0)
    add("one", 7, 7, codes=(1,), free=[1, 6], covers=("result",))
    add("two", 9, 9, codes=(1,), free=[5], covers=("result",))
    add("one", 9, None, codes=(1,), free=[0, 7, 8], covers=("result",))
    add("one", 6, 6, trips=True, codes=(1,), free=[4], covers=("result",))
    add("modes", 1, 1)
    add("modes", 2, 2, codes=(1,))
    add("one", 2, 2, given=True, entry="network")
    add("one", 2, None, entry="network")
    add("one", 2, 5, entry="network")
    add("modes", 2, 2, trips=True, codes=(1,))
    add("two", 2, 2, trips=True, given=True, codes=(1,))
    add("direct", 1, 1, trips=True, given=True, codes=(1, 3))
    if deep:
        add("one", 4, 4, codes=(1,))
        add("one", 4, None, codes=(1,))
        add("modes", 2, 2)
        add("modes", 3, 3, codes=(1,))
        add("direct", 2, 2, trips=True, codes=(1,))
        add("two", 3, 3, trips=True, codes=(1,))
    return out
