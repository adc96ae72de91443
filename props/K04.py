"""Constraints handed to the optimiser."""
import props.K03 as K03
from props.lib import *

BOUNDS = "1..5 lines of 1..3 modes (custom two-way, one-way, asymmetric, overlapping lines, rings, predefined families) in " \
         "cities of 1..4 zones with plain and sparse ids; frequencies (zero included), limits, capacities, most loaded sections " \
         "and numbers of parallel lines arbitrary"
ASSUMPTIONS = ["no direction of a line runs over a street that the other direction runs over in the same sense"]


def sym_modes(ctx, k):
    return [mk_mode("m%d" % j, fmax=ctx.real("fmax%d" % j, 0, 500), kmax=ctx.real("kmax%d" % j, 0, 2000),
                    d=ctx.int("d%d" % j, 1, 6)) for j in range(k)]


def judge(ctx, g, routes, modes):
    f, load = defaultdict(float), defaultdict(float)
    for n, r in enumerate(routes):
        f[r.id] = ctx.real("f%d" % n, 0, 1000)
        if n != 1:          # a line without passengers is not in the table
            load[r.id] = ctx.real("load%d" % n, 0, 5000)
    loads = dict(load)
    out, exc = ctx.attempt(Constrains.most_loaded_section_constrains, routes, load)
    ctx.check("computed", exc is None)
    if exc is None:
        ctx.check("one_capacity_constraint_per_route", len(out) == len(routes))
        for r, c in zip(routes, out):
            ctx.eq("load_minus_capacity", c, loads.get(r.id, 0) - r.mode.kmax)
            ctx.check("satisfied_iff_not_positive", ctx.And(ctx.Implies(c <= 0, loads.get(r.id, 0) <= r.mode.kmax),
                                                            ctx.Implies(loads.get(r.id, 0) <= r.mode.kmax, c <= 0)))
    out, exc = ctx.attempt(Constrains.fmax_constrains, g, routes, modes, f)
    ctx.check("computed", exc is None)
    if exc is not None:
        return
    edges = g.get_edges()
    ctx.check("one_frequency_constraint_per_street_and_mode", len(out) == len(edges) * len(modes))
    if len(out) == len(edges) * len(modes):
        at = 0
        for e in edges:
            for m in modes:
                F = sum(f[r.id] for r in routes if r.mode is m for s in (r.nodes_sequence_i, r.nodes_sequence_r)
                        for a, b in zip(s, s[1:]) if (a, b) == (e.node1.id, e.node2.id))
                ctx.eq("frequency_minus_limit", out[at] * m.d, F - m.fmax)
                at += 1
        ctx.cover("constraints")


def limits(ctx, d):
    """the limit per line is the one given for the mode"""
    fmax = ctx.real("fmax", 0, 500)
    m = mk_mode("m", fmax=fmax, d=d)
    g = city(1)
    z = g.get_zones()[0]
    r = mk_route("L", m, [z.periphery.id, z.subcenter.id])
    f = defaultdict(float, {"L": ctx.real("f", 0, 1000)})
    out, exc = ctx.attempt(Constrains.fmax_constrains, g, [r], [m], f)
    ctx.check("computed", exc is None)
    if exc is None:
        for e, c in zip(g.get_edges(), out):
            F = f["L"] if {e.node1.id, e.node2.id} == {z.periphery.id, z.subcenter.id} else 0
            ctx.eq("limit_per_line", c * d, F - fmax * d)
        ctx.cover("constraints")


def shaped(ctx, topo, extra=0):
    ms = sym_modes(ctx, 2 + extra)
    g, ids, routes, o, d = topology(topo, ms)
    judge(ctx, g, routes, ms)


def built(ctx, n, names, sparse, modes):
    ms = sym_modes(ctx, modes)
    g = sparse_city(n) if sparse else city(n)
    routes = []
    for k, w in enumerate(names):
        new = families(g, ms[k % modes], [w])
        for r in new:
            r.id = "%s_%d" % (r.id, k)
        routes += new
    judge(ctx, g, routes, ms)


def cases(tier):
    deep = tier != "quick"
    out = [{"name": "limit_%d" % d, "fn": limits, "args": {"d": d}, "covers": ["constraints"]} for d in (1, 2, 5)]
    for t in TOPOLOGIES:
        out.append({"name": "shape_%s" % t, "fn": shaped, "args": {"topo": t, "extra": int(t in ("one", "ring"))}, "covers": ["constraints"]})
    for n, w, sp, k in [(1, "f", False, 1), (1, "r f", True, 2), (2, "r f", True, 2), (3, "c", True, 1), (3, "c f", False, 2),
                        (4, "t2", True, 1), (4, "d2 rs", False, 2), (4, "c ts1", True, 2), (3, "r re f", True, 3)][:99 if deep else 8] + \
            ([(4, "c c", True, 2), (5, "t1 c", False, 2), (6, "d3 t3", False, 2), (4, "r f", False, 2)] if deep else []):
        out.append({"name": "built_%d_%s%s_%d" % (n, w.replace(" ", "+"), "_sparse" * sp, k), "fn": built,
                    "args": {"n": n, "names": w.split(), "sparse": sp, "modes": k}, "covers": ["constraints"]})
    return out
