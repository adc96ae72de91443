"""Export to Pajek text and import again."""
import os
from props.lib import *

BOUNDS = ("default angles with n = 1..4, 10 (quick) / 1..6, 8, 10, 12 (thorough) and listed asymmetric angle sets; l in [1/10, 1e4], g in "
          "[0,10], Gi in [1/10,10], Hi in [0,10] any reals (mean periphery radius >= mean subcenter radius), etha in [0,1] "
          "with every zone, width in [0,1e3]")
ASSUMPTIONS = ["text representation of a number is exact (repr round trip)", "zone angles are concrete, distinct and more than "
               "0.001 degrees apart; files have their nodes exactly on the axes or diagonals"]

ANGLES = {1: [[45], [0], [200.5], [360]], 2: [[40, 40.5], [40.5, 40], [30, 210], [359.75, 0.25], [10, 100], [359, 1]], 3: [[0, 30, 90], [89.99, 90, 90.01], [45, 135, 300], [10, 350, 180]],
          4: [[0, 10, 20, 30]], 5: [[300, 240, 180, 120, 60]]}


def harness(ctx, n, angles, opts):
    l, g, p = ctx.real("l", 0.1, 10000), ctx.real("g", 0, 10), ctx.real("p", 0, 1000)
    k = {}
    if angles:
        k["angles"] = angles
    if "G" in opts:
        k["Gi"] = [ctx.real("G%d" % i, 0.1, 10) for i in range(n)]
    if "H" in opts:
        k["Hi"] = [ctx.real("H%d" % i, 0, 10) for i in range(n)]
    if "e" in opts:
        k["etha"] = ctx.real("etha", 0, 1)
        k["etha_zone"] = ctx.choice("etha_zone", list(range(1, n + 1)))
    if "H" in opts or "G" in opts:
        ctx.assume(sum((1 + g) * h for h in k.get("Hi", [1] * n)) >= sum(k.get("Gi", [1] * n)))
    c = Graph.build_from_parameters(n, l, g, p, **k)
    text = c.export_graph()
    check_text(ctx, c, text)
    d = Graph.build_from_content(text)
    same_city(ctx, "text", c, d)
    path = os.path.join(ctx.tmp(), "city.pajek")
    c.graph_to_pajek_file(path)
    f = Graph.build_from_file(path)
    same_city(ctx, "file", c, f)
    Graph.build_from_parameters(n + 1, 7, 0.25, 3).graph_to_pajek_file(path)  # files are replaced
    c.graph_to_pajek_file(path)
    same_city(ctx, "file_again", c, Graph.build_from_file(path))
    par = d.get_parameters()
    ctx.check("imported_n", par[0] == n and d.get_n() == n)
    r = Graph.build_from_parameters(*par)
    for a in c.get_nodes():
        b = [x for x in r.get_nodes() if type(x) is type(a) and x.zone_id == a.zone_id]
        ctx.check("parameters_describe_all_nodes", len(b) == 1)
        ctx.eq("parameters_describe_x", b[0].x, a.x, 1e-4)
        ctx.eq("parameters_describe_y", b[0].y, a.y, 1e-4)
        ctx.eq("parameters_describe_width", b[0].width, a.width)
    ctx.cover("end")


def check_text(ctx, c, text):
    """the node lines say what the nodes are: id name x y kind zone width"""
    lines = [x.split() for x in text.split("\n") if len(x.split()) == 7 and not x.lower().startswith("content")]
    nodes = c.get_nodes()
    ctx.check("text_lines", len(lines) == len(nodes))
    for f, x in zip(lines, nodes):
        ctx.check("text_fields", f[0] == str(x.id) and f[1] == x.name and type(x) is KINDS.get(f[4]) and
                  f[5] == str(x.zone_id))
        ctx.eq("text_x", ctx.number(f[2]), x.x)
        ctx.eq("text_y", ctx.number(f[3]), x.y)
        ctx.eq("text_width", ctx.number(f[6]), x.width)


def imported(ctx, dirs, cbd):
    """cities that come from files with exact coordinates on the axes and diagonals"""
    n = len(dirs)
    rows = []
    w = ctx.real("w", 0, 100)
    for z, (dx, dy) in enumerate(dirs, 1):
        r = ctx.real("r%d" % z, 0.5, 100)
        q = ctx.real("q%d" % z, 1, 100)
        ctx.assume(q >= r)
        rows.append((3 * z + 1, "SC%d" % z, ctx.text(r * dx), ctx.text(r * dy), "SC", z, ctx.text(w)))
        rows.append((3 * z, "P%d" % z, ctx.text(q * dx), ctx.text(q * dy), "P", z, ctx.text(w)))
        if z == cbd:
            e = ctx.real("e", 0, 1)
            rows.append((1, "C", ctx.text(e * r * dx), ctx.text(e * r * dy), "CBD", 0, ctx.text(w)))
    if not cbd:
        rows.append((1, "C", "0", "0", "CBD", 0, ctx.text(w)))
    c = Graph.build_from_content(pajek_text(rows))
    by = {x.id: x for x in c.get_nodes()}
    for f in rows:
        x = by[f[0]]
        ctx.check("read_fields", x.name == f[1] and type(x) is KINDS[f[4]] and x.zone_id == f[5])
        ctx.eq("read_x", x.x, ctx.number(f[2]))
        ctx.eq("read_y", x.y, ctx.number(f[3]))
        ctx.eq("read_width", x.width, ctx.number(f[6]))
    text = c.export_graph()
    check_text(ctx, c, text)
    d = Graph.build_from_content(text)
    same_city(ctx, "text", c, d)
    r = Graph.build_from_parameters(*d.get_parameters())
    for a in c.get_nodes():
        b = [x for x in r.get_nodes() if type(x) is type(a) and x.zone_id == a.zone_id]
        ctx.check("parameters_describe_all_nodes", len(b) == 1)
        ctx.eq("parameters_describe_x", b[0].x, a.x, 1e-4)
        ctx.eq("parameters_describe_y", b[0].y, a.y, 1e-4)
    ctx.cover("end")


def same_city(ctx, label, c, d):
    a, b = c.get_nodes(), d.get_nodes()
    ctx.check(label + "_ids", sorted(x.id for x in a) == sorted(x.id for x in b))
    for x in a:
        ys = [y for y in b if y.id == x.id]
        ctx.check(label + "_node_once", len(ys) == 1)
        y = ys[0]
        ctx.check(label + "_name_kind_zone", x.name == y.name and type(x) is type(y) and x.zone_id == y.zone_id)
        ctx.eq(label + "_x", y.x, x.x)
        ctx.eq(label + "_y", y.y, x.y)
        ctx.eq(label + "_width", y.width, x.width)
        ctx.eq(label + "_radius", y.radius, x.radius)
    ctx.check(label + "_zones", [(z.id, z.periphery.id, z.subcenter.id) for z in c.get_zones()] ==
              [(z.id, z.periphery.id, z.subcenter.id) for z in d.get_zones()])
    ctx.check(label + "_streets", sorted((e.node1.id, e.node2.id) for e in c.get_edges()) ==
              sorted((e.node1.id, e.node2.id) for e in d.get_edges()))
    m, k = c.get_edges_distance(), d.get_edges_distance()
    for i in m:
        for j in m[i]:
            ctx.eq(label + "_length", k[i][j], m[i][j])


def empty(ctx):
    p = ctx.real("p", 0, 1000)
    c = Graph.build_from_parameters(0, 10, 0.5, p)
    same_city(ctx, "text", c, Graph.build_from_content(c.export_graph()))
    ctx.cover("end")


def cases(tier):
    out = [{"name": "n0", "fn": empty, "args": {}, "covers": ["end"]}]
    ax = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    dg = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
    for i, v in enumerate(ax + dg):
        out.append({"name": "imported_1_%d" % i, "fn": imported, "args": {"dirs": [v], "cbd": i % 2}, "covers": ["end"]})
    out.append({"name": "imported_4_axes", "fn": imported, "args": {"dirs": ax, "cbd": 4}, "covers": ["end"]})
    out.append({"name": "imported_4_diagonals", "fn": imported, "args": {"dirs": dg, "cbd": 0 if tier == "quick" else 3},
                "covers": ["end"]})
    out.append({"name": "n10_default_plain", "fn": harness, "args": {"n": 10, "angles": None, "opts": ""}, "covers": ["end"]})
    ns = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8, 12)
    opts = ("", "e", "GHe") if tier == "quick" else ("", "e", "G", "H", "Ge", "GH", "GHe")
    for n in ns:
        for a in [None] + (ANGLES.get(n, []) if tier != "quick" else ANGLES.get(n, [])[:3]):
            for o in opts:
                out.append({"name": "n%d_%s_%s" % (n, "default" if a is None else "_".join(map(str, a)), o or "plain"),
                            "fn": harness, "args": {"n": n, "angles": a, "opts": o}, "covers": ["end"]})
    return out
