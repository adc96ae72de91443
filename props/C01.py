"""Nodes and streets of a parametric city."""
from props.lib import *

BOUNDS = "n = 0..7 (quick) / 0..14 (thorough) zones with every on/off combination of angles, Gi, Hi, etha, every etha zone; n = 10, 11 (16, 21) with none or all; " \
         "all parameter values real: l in [0,1e5], g in [0,100], p in [0,1e3], angles [0,360], Gi, Hi in [0,100], etha [0,1]"
ASSUMPTIONS = []


def harness(ctx, n, options=None):
    l, g, p = ctx.real("l", 0, 100000), ctx.real("g", 0, 100), ctx.real("p", 0, 1000)
    k = {}
    if options:
        some = ctx.choice("options", options)
        if "A" in some:
            k["angles"] = [ctx.real("angle%d" % i, 0, 360) for i in range(n)]
        if "G" in some:
            k["Gi"] = [ctx.real("G%d" % i, 0, 100) for i in range(n)]
        if "H" in some:
            k["Hi"] = [ctx.real("H%d" % i, 0, 100) for i in range(n)]
        if "e" in some:
            k["etha"], k["etha_zone"] = ctx.real("etha", 0, 1), ctx.choice("etha_zone", [1, 2, n - 1, n])
    elif n:
        if ctx.flag("with_angles"):
            k["angles"] = [ctx.real("angle%d" % i, 0, 360) for i in range(n)]
        if ctx.flag("with_Gi"):
            k["Gi"] = [ctx.real("G%d" % i, 0, 100) for i in range(n)]
        if ctx.flag("with_Hi"):
            k["Hi"] = [ctx.real("H%d" % i, 0, 100) for i in range(n)]
        if ctx.flag("with_etha"):
            k["etha"] = ctx.real("etha", 0, 1)
            k["etha_zone"] = ctx.int("etha_zone", 1, n)
    c = Graph.build_from_parameters(n, l, g, p, **k)
    nodes, zones, cbd = c.get_nodes(), c.get_zones(), c.get_cbd()
    ctx.check("node_count", len(nodes) == 2 * n + 1)
    ctx.check("ids_distinct", len({x.id for x in nodes}) == len(nodes))
    ctx.check("one_cbd_in_zone_0", [x for x in nodes if isinstance(x, CBD)] == [cbd] and cbd.zone_id == 0)
    ctx.check("zones_numbered", [z.id for z in zones] == list(range(1, n + 1)) and c.get_n() == n)
    for z in zones:
        ctx.check("one_periphery_per_zone", [x for x in nodes if isinstance(x, Periphery) and x.zone_id == z.id] ==
                  [z.periphery])
        ctx.check("one_subcenter_per_zone", [x for x in nodes if isinstance(x, Subcenter) and x.zone_id == z.id] ==
                  [z.subcenter])
    for x in nodes:
        ctx.eq("width_is_p", x.width, p)
    check_streets(ctx, c, lengths=False)
    ctx.check("documented_count", len(c.get_edges()) == (0 if n == 0 else 4 if n == 1 else 10 if n == 2 else 6 * n))
    r = c.get_parameters()
    ctx.check("n_kept", r[0] == n)
    ctx.cover("end")


def cases(tier):
    return [{"name": "n%d" % n, "fn": harness, "args": {"n": n}, "covers": ["end"]}
            for n in range(0, 8 if tier == "quick" else 15)] + \
        [{"name": "large_n%d" % n, "fn": harness, "args": {"n": n, "options": ["", "AGHe"]}, "covers": ["end"]}
         for n in ((10, 11) if tier == "quick" else (16, 21))]
