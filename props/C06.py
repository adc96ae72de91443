"""Constructors of nodes, zones and streets, and files with arbitrary widths."""
from props.lib import *
from props.C05 import documented

BOUNDS = "one node of each kind with arbitrary numbers (position, radius, angle, width in [-1e4, 1e4], zone in [-5, 20]) and any of " \
         "missing id, name and zone; one zone of two nodes with arbitrary zone numbers; every pair of kinds of a street; files of " \
         "3 and 5 lines in which every width is arbitrary"
ASSUMPTIONS = ["a street from the CBD to itself is not claimed (a city has one CBD)"]


def node(ctx, kind):
    i = ctx.choice("id", [None, 0, 7])
    name = ctx.choice("name", [None, "N"])
    zone = ctx.int("zone", -5, 20) if ctx.flag("zone_given") else None
    x, y, r, a, w = (ctx.real(n, -1e4, 1e4) for n in ("x", "y", "radius", "angle", "width"))
    q, exc = ctx.attempt(KINDS[kind], i, x, y, r, a, w, zone, name)
    good = ctx.And(i is not None, name is not None, zone is not None, r >= 0, a >= 0, a <= 360, w >= 0)
    if kind == "CBD" and zone is not None:
        good = ctx.And(good, zone == 0)
    if exc is not None:
        ctx.check("possible_node_accepted", ctx.Not(good))
        ctx.check("documented_exception", documented(exc))
        ctx.cover("rejected")
        return
    ctx.check("impossible_node_rejected", good)
    if zone is None or i is None:
        return
    for n, v in (("x", x), ("y", y), ("radius", r), ("angle", a), ("width", w), ("zone_id", zone)):
        ctx.eq("stored_" + n, getattr(q, n), v)
    ctx.check("stored_identity", q.id == i and q.name == name and isinstance(q, Node))
    ctx.cover("accepted")


def make(ctx, kind, i, zone):
    return KINDS[kind](i, 1.0, 1.0, 2.0, 45.0, 2.0, zone, "n%d" % i)


def zone(ctx):
    z = ctx.int("zone", -5, 20) if ctx.flag("zone_given") else None
    kp, ks = ctx.choice("periphery", ["P", "SC", "CBD", None]), ctx.choice("subcenter", ["P", "SC", "CBD", None])
    zp, zs = (0 if k == "CBD" else ctx.int("zone_of_" + n, -5, 20) for n, k in (("p", kp), ("s", ks)))
    p, s = (None if k is None else make(ctx, k, j, q) for j, (k, q) in enumerate(((kp, zp), (ks, zs))))
    out, exc = ctx.attempt(Zone, z, p, s)
    good = ctx.And(z is not None, kp == "P", ks == "SC", *([z >= 1, zp == z, zs == z] if z is not None else []))
    if exc is not None:
        ctx.check("possible_zone_accepted", ctx.Not(good))
        ctx.check("documented_exception", documented(exc))
        ctx.cover("rejected")
        return
    ctx.check("impossible_zone_rejected", good)
    ctx.check("stored", out.periphery is p and out.subcenter is s)
    if z is not None:
        ctx.check("stored_number", out.id == z)
    ctx.cover("accepted")


def street(ctx):
    i = ctx.int("id", -5, 1000) if ctx.flag("id_given") else None
    a, b = ctx.choice("from", ["P", "SC", "CBD"]), ctx.choice("to", ["P", "SC", "CBD"])
    if a == b == "CBD":
        return
    za, zb = (0 if k == "CBD" else ctx.int("zone_of_" + n, 1, 20) for n, k in (("from", a), ("to", b)))
    n1, n2 = make(ctx, a, 1, za), make(ctx, b, 2, zb)
    out, exc = ctx.attempt(Edge, i, n1, n2)
    good = i is not None and "SC" in (a, b)
    ctx.check("streets_touch_a_subcenter", (exc is None) == good)
    if exc is not None:
        ctx.check("documented_exception", documented(exc))
        ctx.cover("rejected")
    else:
        ctx.check("stored", out.node1 is n1 and out.node2 is n2)
        if i is not None:
            ctx.check("stored_number", out.id == i)
        ctx.cover("accepted")


def widths(ctx, n):
    rows = pajek_rows(n)
    w = [ctx.real("width%d" % k, -100, 100) for k in range(len(rows))]
    data = pajek_text([r[:6] + (ctx.text(q),) for r, q in zip(rows, w)])
    c, exc = ctx.attempt(Graph.build_from_content, data)
    bad = ctx.Or(*[q < 0 for q in w])
    if exc is not None:
        ctx.check("file_of_possible_nodes_accepted", bad)
        ctx.check("documented_exception", documented(exc))
        ctx.cover("rejected")
        return
    ctx.check("file_of_impossible_nodes_rejected", ctx.Not(bad))
    for r, q in zip(rows, w):
        for x in c.get_nodes():
            if x.name == r[1]:
                ctx.eq("stored_width", x.width, q)
    ctx.cover("accepted")


def cases(tier):
    both = ["accepted", "rejected"]
    out = [{"name": "node_" + k, "fn": node, "args": {"kind": k}, "covers": both} for k in KINDS]
    out.append({"name": "zone", "fn": zone, "args": {}, "covers": both})
    out.append({"name": "street", "fn": street, "args": {}, "covers": both})
    for n in (1, 2) + ((3,) if tier != "quick" else ()):
        out.append({"name": "widths_n%d" % n, "fn": widths, "args": {"n": n}, "covers": both})
    return out
