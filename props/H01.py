"""Labels and strategies of the hyperpath algorithm are optimal."""
import itertools
from props.lib import *

BOUNDS = "networks of 1..6 lines (parallel lines, transfers, walking transfers between modes, express and local lines, rings, " \
         "unconnected parts; up to 27 nodes and 50 edges of the extended graph) with one origin-destination pair each and its " \
         "reverse; all ride times, frequencies, penalties, access times and values arbitrary on the small ones, up to seven of them " \
         "arbitrary on the larger ones"
ASSUMPTIONS = ["the subjective value of in-vehicle time is positive"]


def optimal(ctx, X, o, d, pax, suc, lab, freq, only=None):
    """Certificate of optimality: values of strategies obey the optimality conditions, and the label is the value of the
    chosen strategy. Costs are non-negative and the strategy is acyclic, so both together determine the optimum."""
    out = {}
    for e in X.edges:
        out.setdefault(id(e.nodei), []).append(e)
    access = lambda s: s.mode.tat / 60 * pax.pa / pax.pv

    def u(n):
        x = lab[n]
        if isinstance(n, StopNode) and n.city_node is o and x != INF:
            return x - access(n)
        return x

    ctx.eq("destination_costs_nothing", lab[d], 0)
    nodes = [n for c in X.nodes for n in [c] + [m for s in X.nodes[c] for m in [s] + list(X.nodes[c][s])]]
    for n in nodes:
        if n is d or n is o:
            continue
        un = u(n)
        chosen = list(suc[n])
        ctx.check("successors_leave_the_node", all(e.nodei is n for e in chosen))
        walk = [e for e in out.get(id(n), []) if e.type != BOARD and e.nodej is not o]
        lines = [e for e in out.get(id(n), []) if e.type == BOARD]
        # nothing better
        for e in walk:
            if u(e.nodej) != INF:
                ctx.le("no_better_edge", un, weight(e, pax, d) + u(e.nodej))
        live = [e for e in lines if u(e.nodej) != INF]
        p = n.mode.theta * pax.pw / pax.pv if lines else 0
        for k in range(1, len(live) + 1):
            for A in itertools.combinations(live, k):
                F = sum(e.f for e in A)
                if un == INF:
                    ctx.check("reachable_stop_has_a_label", F == 0)
                else:
                    ctx.le("no_better_set_of_lines", un * F, p + sum(e.f * u(e.nodej) for e in A))
        # achieved by the choice
        if un == INF:
            ctx.check("no_strategy_without_a_label", not chosen)
            continue
        boards = [e for e in chosen if e.type == BOARD]
        if boards:
            ctx.check("lines_or_one_edge", len(boards) == len(chosen) and len({id(e) for e in chosen}) == len(chosen))
            ctx.check("chosen_lines_lead_on", all(u(e.nodej) != INF for e in boards))
            F = sum(e.f for e in boards)
            ctx.check("chosen_lines_run", ctx.And(*[e.f > 0 for e in boards]))
            ctx.eq("label_of_chosen_lines", un * F, p + sum(e.f * u(e.nodej) for e in boards))
            ctx.eq("combined_frequency", freq[n], F)
            for e in boards:
                ctx.le("no_chosen_line_increases", u(e.nodej), un)
            for e in live:
                if not any(e is b for b in boards):
                    ctx.check("no_left_out_line_reduces", ctx.Or(e.f == 0, un <= u(e.nodej) + 1e-6))
        else:
            ctx.check("lines_or_one_edge", len(chosen) == 1)
            for e in chosen:
                ctx.check("chosen_edge_leads_on", e.nodej is not o and u(e.nodej) != INF)
                ctx.eq("label_of_chosen_edge", un, weight(e, pax, d) + u(e.nodej))
    # acyclic from every node
    state = {}

    def visit(n):
        if state.get(id(n)) == 1:
            return False
        if state.get(id(n)) == 2:
            return True
        state[id(n)] = 1
        ok = all(visit(e.nodej) for e in suc[n])
        state[id(n)] = 2
        return ok
    ctx.check("strategies_acyclic", all(visit(n) for n in nodes))


# which numbers are arbitrary: r ride times, f frequencies, v values of time and regularity, a access times, t transfer penalty
def setting(ctx, topo, what, back=False):
    sym = set(what.split())

    def num(kind, name, default, lo, hi, lo_open=False):
        return ctx.real(name, lo, hi, lo_open) \
            if kind in sym or name in sym or name.split("_")[0] == "t" and name[:3] in sym else default

    ms = [mk_mode("bus", theta=num("v", "theta0", 0.5, 0, 1), tat=num("a", "tat0", 1, 0, 30)),
          mk_mode("metro", theta=num("v", "theta1", 0.25, 0, 1), tat=num("a", "tat1", 2, 0, 30))]
    pax = Passenger(4, num("v", "pv", 2, 0, 100, True), num("v", "pw", 4, 0, 100), num("v", "pa", 6, 0, 100), 16, 2, 4, 6, 16)
    g, ids, routes, o, d = topology(topo, ms)
    if back:
        o, d = d, o
    TP = num("t", "TP", 6, 0, 60)
    X = Ext(ExtendedGraph(g, routes, TP))
    name = {v: k for k, v in ids.items()}
    ride, k = {}, 0
    for r in routes:
        for dr, a, b, path in legs(r):
            if (dr == "I") != back or r._type == RouteType.CIRCULAR:
                default = (10 + 7 * k % 13) / 64
                ride[r.id, dr, b] = num("r", "t_%s%s_%s" % (r.id, dr, name[b]), default, 0, 4)
                k += 1
    freq = {r.id: num("f", "f_%s" % r.id, 4 + 5 * j % 9, 0, 200) for j, r in enumerate(routes)}
    set_times(X, ride, freq)
    return X, pax, X.city.get(o), X.city.get(d), g, routes


def harness(ctx, topo, what, back):
    X, pax, o, d, g, routes = setting(ctx, topo, what, back)
    hp = Hyperpath(X.eg, pax)
    out, exc = ctx.attempt(hp.build_hyperpath_graph, o, d)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    suc, lab, freq = out
    optimal(ctx, X, o, d, pax, suc, lab, freq)
    ctx.cover("reached" if any(lab[s] != INF for s in X.nodes[o]) else "unreached")


QUICK = [
    ("one", "r f v a t"), ("two", "r f v a t"), ("modes", "r f v a t"), ("three", "r f_A f_B"), ("transfer", "r f v a t"),
    ("walk", "r f v a t"), ("cut", "r f v a t"), ("modes2", "t_A f_B f_C"), ("direct", "t_A t_C f_C t"),
    ("direct", "f pw theta0"), ("local", "t_A f_B"), ("local", "t_B f_A"), ("choice", "t_D f_B"),
    ("choice", "t_B t_C"), ("choice", "pa f_C"), ("back", "t_A f_B"), ("back", "t_B t_C"), ("ring", "t_X f_Y"), ("ring", "t_Y t"),
    ("oneway", "t_A f_B t"), ("asym", "t_B a"), ("asym", "t_A t pv"),
    ("eight", "t_A f_B"), ("funnel", "t_A"), ("transfer_named", "t_A t"), ("walk_named", "a t"), ("ring_named", "t_X t"), ("long", "t_AI_c t_AR_c"), ("six", "t_AI_s0 t_AR_p0"),
]
DEEP = [("three", "r f v a t"), ("modes2", "t_A t_D f_B f_C"), ("modes2", "r f"), ("direct", "r f t"), ("local", "t_A f_B f_C"),
        ("local", "t_B t_C f_A"), ("local", "r f"), ("choice", "t_D f_B a"), ("choice", "t_B t_C pa"), ("back", "t_A f_B t"),
        ("back", "r f_A f_B t"), ("ring", "t_X f_X f_Y"), ("ring", "t_X t_Y f_X f_Y t"), ("oneway", "r f t"), ("asym", "t_B f_B a"),
        ("asym", "r f a"), ("eight", "r f"), ("funnel", "t_A t_C f_D")]
BUDGET = {"quick": 500, "thorough": 3 * 3600}


def cases(tier):
    out = []
    for topo, what in QUICK + (DEEP if tier != "quick" else []):
        for back in (False, True):
            out.append({"name": "%s%s_%s" % (topo, "_back" * back, what.replace(" ", "+")), "fn": harness,
                        "args": {"topo": topo, "what": what, "back": back},
                        "covers": ["unreached" if topo == "cut" else "reached"] if
                        not (topo == "cut") else ["unreached"]})
    return out
