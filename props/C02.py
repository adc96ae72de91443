"""Geometry of a parametric city."""
from props.lib import *

BOUNDS = "n = 1..5 (quick) / 1..9 (thorough) zones with every on/off combination of angles, Gi, Hi, etha, every etha zone; n = 7 and 10 (10..13, 15) with any Gi and etha; l in " \
         "[0,1e4], g in [0,10], angles any real in [0,360], Gi, Hi in [0,10], etha in [0,1]"
ASSUMPTIONS = ["cos and sin of a symbolic angle are arbitrary values with cos^2 + sin^2 = 1 (an over-approximation); those of "
               "constant angles lie within 1e-12 of their value"]


def at(ctx, label, x, r, ang):
    ctx.eq(label + "_x", x.x, r * math.cos(math.radians(ang)))
    ctx.eq(label + "_y", x.y, r * math.sin(math.radians(ang)))
    ctx.eq(label + "_radius", x.radius, r)
    ctx.eq(label + "_angle", x.angle, ang)


def harness(ctx, n, options="AGHe"):
    l, g, p = ctx.real("l", 0, 10000), ctx.real("g", 0, 10), ctx.real("p", 0, 1000)
    k = {}
    ang = [360 / n * i for i in range(n)]
    G, Hh = [1] * n, [1] * n
    etha, ez = 0, None
    if "A" in options and ctx.flag("with_angles"):
        k["angles"] = ang = [ctx.real("angle%d" % i, 0, 360) for i in range(n)]
    if "G" in options and ctx.flag("with_Gi"):
        k["Gi"] = G = [ctx.real("G%d" % i, 0, 10) for i in range(n)]
    if "H" in options and ctx.flag("with_Hi"):
        k["Hi"] = Hh = [ctx.real("H%d" % i, 0, 10) for i in range(n)]
    if "e" in options and ctx.flag("with_etha"):
        k["etha"] = etha = ctx.real("etha", 0, 1)
        k["etha_zone"] = ez = ctx.choice("etha_zone", list(range(1, n + 1)) if n < 10 else [1, 2, n - 1, n])
    c = Graph.build_from_parameters(n, l, g, p, **k)
    zones, cbd = c.get_zones(), c.get_cbd()
    ctx.check("zones", len(zones) == n)
    for i in range(n):
        at(ctx, "periphery", zones[i].periphery, (l + g * l) * Hh[i], ang[i])
        at(ctx, "subcenter", zones[i].subcenter, l * G[i], ang[i])
    if ez is None:
        ctx.eq("cbd_x", cbd.x, 0)
        ctx.eq("cbd_y", cbd.y, 0)
        ctx.eq("cbd_radius", cbd.radius, 0)
    else:
        at(ctx, "cbd", cbd, etha * l * G[ez - 1], ang[ez - 1])
    # the nodes listed by the graph and those of the streets carry the same positions
    by = {z.periphery.id: z.periphery for z in zones}
    by.update({z.subcenter.id: z.subcenter for z in zones})
    by[cbd.id] = cbd
    for x in c.get_nodes():
        ctx.eq("listed_node_x", x.x, by[x.id].x)
        ctx.eq("listed_node_y", x.y, by[x.id].y)
    d = c.get_edges_distance()
    ctx.check("length_of_every_street", sorted((i, j) for i in d for j in d[i]) == sorted(street_pairs(zones, cbd)))
    for i, j in street_pairs(zones, cbd):
        a, b = by[i], by[j]
        ctx.check("length_nonneg", d[i][j] >= 0)
        ctx.eq("length_euclidean", d[i][j] * d[i][j], (a.x - b.x) ** 2 + (a.y - b.y) ** 2)
        ctx.eq("length_both_ways", d[i][j], d[j][i])
    r = c.get_parameters()
    for label, a, b in (("l", r[1], l), ("g", r[2], g), ("p", r[3], p)):
        ctx.eq("parameter_" + label, a, b)
    ctx.cover("end")


def cases(tier):
    return [{"name": "n%d" % n, "fn": harness, "args": {"n": n}, "covers": ["end"]}
            for n in range(1, 6 if tier == "quick" else 10)] + \
        [{"name": "large_n%d" % n, "fn": harness, "args": {"n": n, "options": "Ge"}, "covers": ["end"]}
         for n in ((7, 10) if tier == "quick" else (10, 11, 12, 13, 15))]
