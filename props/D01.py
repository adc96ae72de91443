"""Parametric demand: conservation and split of the generated trips."""
from props.lib import *

BOUNDS = "cities of n = 1..5, 10 (quick) / 1..7, 10, 11 (thorough) zones; y in [0, 100000], a, alpha, beta any reals in range"
ASSUMPTIONS = ["y, a, alpha, beta are ints or floats accepted by the parameter validator"]


def harness(ctx, n):
    g = city(n)
    y = ctx.real("y", 0, 100000)
    a = ctx.real("a", 0, 1)
    al = ctx.real("alpha", 0, 1)
    be = ctx.real("beta", 0, 1, hi_open=True)
    ctx.assume(al + be <= 1)
    d = Demand.build_from_parameters(g, y, a, al, be)
    m = d.get_matrix()
    tot = 0
    for i in g.get_nodes():
        for j in g.get_nodes():
            v = m[i.id][j.id]
            tot = tot + v
            ctx.check("nonneg", v >= 0)
            if i.id == j.id:
                ctx.check("diagonal_zero", v == 0)
            if isinstance(i, CBD):
                ctx.check("cbd_generates_none", v == 0)
            if isinstance(j, Periphery):
                ctx.check("periphery_attracts_none", v == 0)
    ctx.eq("total_is_y", tot, y, 1e-4)
    ctx.eq("total_trips_is_sum", d.get_total_trips(), tot, 1e-4)
    beta1 = be if n > 1 else 1 - al
    gamma = 1 - al - be if n > 1 else 0
    cbd = g.get_cbd()
    for z in g.get_zones():
        p, s = z.periphery, z.subcenter
        ctx.eq("zone_periphery_share", sum(m[p.id][j.id] for j in g.get_nodes()), a * y / n, 1e-4)
        ctx.eq("zone_subcenter_share", sum(m[s.id][j.id] for j in g.get_nodes()), (1 - a) * y / n, 1e-4)
        ctx.eq("p_to_cbd", m[p.id][cbd.id], al * a * y / n, 1e-4)
        ctx.eq("p_to_own_sc", m[p.id][s.id], beta1 * a * y / n, 1e-4)
        others = [q.subcenter for q in g.get_zones() if q.id != z.id]
        for o in others:
            ctx.eq("p_to_other_sc", m[p.id][o.id], gamma * a * y / n / (n - 1), 1e-4)
            # subcenter trips keep the ratio between CBD and other subcenters
            ctx.eq("sc_to_other_sc", m[s.id][o.id] * (al + gamma), (1 - a) * y / n * gamma / (n - 1), 1e-4)
        ctx.eq("sc_to_cbd", m[s.id][cbd.id] * (al + gamma if n > 1 else 1), (1 - a) * y / n * (al if n > 1 else 1), 1e-4)
    ctx.cover("end")


def cases(tier):
    ns = [1, 2, 3, 4, 5, 10] if tier == "quick" else list(range(1, 8)) + [10, 11]
    return [{"name": "n%d" % n, "fn": harness, "args": {"n": n}, "covers": ["end"]} for n in ns]
