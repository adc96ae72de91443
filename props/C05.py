"""Import of node lines with arbitrary ids, kinds and zones."""
from props.lib import *

BOUNDS = ("files of 0..4 lines with every kind, zone in [-1, n+1] and any (symbolic) integer ids in [-5, 1000000]; files of 5 and "
          "7 lines of a valid city in which one (quick) / two (thorough) lines have arbitrary id, kind and zone; every order "
          "of 3 lines, rotations, reversals and shuffles of longer files, up to 21 (quick) / 27 lines; malformed fields")
ASSUMPTIONS = ["coordinates are fixed: zones at distinct angles, subcenters away from the origin, and nearer than peripheries"]


def position(kind, zone, row, n):
    w = cmath.rect(1, (360.0 * (zone - 1) / max(n, 1) + 20) * cmath.pi / 180)
    r = {"CBD": 0.0, "P": 30.0 + row / 64, "SC": 10.0 + row / 64}.get(kind, 5)
    return r * round(w.real, 6), r * round(w.imag, 6)


def documented(exc):
    return type(exc).__module__ == "sidermit.exceptions"


def run(ctx, rows, n):
    """rows: (id, name, x, y, kind, zone, width)"""
    data = pajek_text([(ctx.text(i), nm, repr(x), repr(y), k, ctx.text(z), repr(w)) for i, nm, x, y, k, z, w in rows])
    return ctx.attempt(Graph.build_from_content, data)


def valid(ctx, c, rows):
    """an accepted city is a valid one and represents the lines"""
    nodes, zones, cbd = c.get_nodes(), c.get_zones(), c.get_cbd()
    n = c.get_n()
    ctx.check("accepted_line_count", len(rows) == 2 * n + 1 and len(nodes) == len(rows))
    ctx.check("one_cbd", len([x for x in nodes if isinstance(x, CBD)]) == 1 and cbd is not None)
    ctx.check("zones_1_to_n", [z.id for z in zones] == list(range(1, n + 1)))
    for z in range(1, n + 1):
        for kind in (Periphery, Subcenter):
            x = [q for q in nodes if isinstance(q, kind) and q.zone_id == z]
            ctx.check("one_node_per_zone_and_kind", len(x) == 1)
        if z <= len(zones):
            ctx.check("zone_nodes_listed", any(zones[z - 1].periphery is q for q in nodes) and
                      any(zones[z - 1].subcenter is q for q in nodes))
    for a in range(len(nodes)):
        for b in range(a):
            ctx.check("ids_distinct", nodes[a].id != nodes[b].id)
    if len(zones) == n and cbd is not None:
        def tag(x):
            return (type(x).__name__, int(x.zone_id))

        class T:
            pass
        zs = []
        for i in range(1, n + 1):
            t = T()
            t.periphery, t.subcenter = T(), T()
            t.periphery.id, t.subcenter.id = ("Periphery", i), ("Subcenter", i)
            zs.append(t)
        t = T()
        t.id = ("CBD", 0)
        ctx.check("streets_complete", sorted((tag(e.node1), tag(e.node2)) for e in c.get_edges()) ==
                  sorted(street_pairs(zs, t)))
    for i, nm, x, y, k, z, w in rows:
        m = [q for q in nodes if q.name == nm]
        ctx.check("line_is_one_node", len(m) == 1)
        if len(m) == 1:
            q = m[0]
            ctx.check("node_kind_and_zone", type(q) is KINDS[k] and q.zone_id == z)
            ctx.check("node_id", q.id == i)
            ctx.eq("node_x", q.x, x)
            ctx.eq("node_y", q.y, y)
            ctx.eq("node_width", q.width, w)


def judge(ctx, rows, n):
    c, exc = run(ctx, rows, n)
    if exc is None:
        valid(ctx, c, rows)
        ctx.cover("accepted")
        return c
    ctx.check("rejected_with_documented_exception", documented(exc))
    ctx.cover("rejected")
    return None


def arbitrary(ctx, lines):
    n = max((lines - 1) // 2, 0)
    rows = []
    for r in range(lines):
        k = ctx.choice("kind%d" % r, ["CBD", "P", "SC"])
        z = ctx.choice("zone%d" % r, list(range(-1, n + 2)))
        x, y = position(k, z, r, n)
        rows.append((ctx.int("id%d" % r, -5, 1000000), "N%d" % r, x, y, k, z, 2.0 + r / 8))
    judge(ctx, rows, n)


def base_rows(ctx, n):
    rows = [(ctx.int("id0", -5, 1000000), "N0", 0.0, 0.0, "CBD", 0, 2.0)]
    for z in range(1, n + 1):
        for j, k in enumerate(("P", "SC")):
            r = 2 * z - 1 + j
            x, y = position(k, z, r, n)
            rows.append((ctx.int("id%d" % r, -5, 1000000), "N%d" % r, x, y, k, z, 2.0 + r / 8))
    return rows


def corrupted(ctx, n, times, free):
    rows = base_rows(ctx, n)
    if not free:  # distinct ids apart from the corrupted lines
        rows = [(10 * (len(rows) - r) + 1,) + x[1:] for r, x in enumerate(rows)]
    last = -1
    for t in range(times):
        r = ctx.choice("row%d" % t, list(range(last + 1, len(rows) - (times - 1 - t))))
        last = r
        k = ctx.choice("kind", ["CBD", "P", "SC"])
        z = ctx.choice("zone", list(range(-1, n + 2)))
        x, y = position(k, z, r, n)
        rows[r] = (ctx.int("newid%d" % t, -5, 1000000), "N%d" % r, x, y, k, z, 2.0 + r / 8)
    judge(ctx, rows, n)


def order(ctx, n, perms, free=True):
    rows = base_rows(ctx, n)
    if not free:  # ids of one to three digits in no order
        rows = [((37 * r) % 101 + 4,) + x[1:] for r, x in enumerate(rows)]
    a, e1 = run(ctx, rows, n)
    if not free:
        ctx.check("valid_file_accepted", e1 is None)
    p = ctx.choice("permutation", perms)
    mixed = [rows[i] for i in p]
    b, e2 = run(ctx, mixed, n)
    ctx.check("order_does_not_decide_acceptance", (e1 is None) == (e2 is None))
    if e1 is not None:
        ctx.check("rejected_with_documented_exception", documented(e1) and (e2 is None or documented(e2)))
        ctx.cover("rejected")
    if e1 is None and e2 is None:
        valid(ctx, b, rows)

        def shape(c):
            return [(z.id, z.periphery.name, z.subcenter.name) for z in c.get_zones()], c.get_cbd().name, \
                sorted((e.node1.name, e.node2.name) for e in c.get_edges())
        ctx.check("order_does_not_change_city", shape(a) == shape(b))
        ctx.cover("accepted")


def malformed(ctx, n):
    rows = [list(map(str, r)) for r in pajek_rows(n)]
    good = [tuple(r) for r in rows]
    where = ctx.choice("row", list(range(len(rows))))
    what = ctx.choice("what", ["id_text", "id_fraction", "zone_text", "zone_fraction", "kind", "kind_case", "missing", "extra",
                               "blank", "fewer_vertices", "more_vertices", "no_vertices", "nothing"])
    kw = {}
    r = rows[where]
    if what == "id_text":
        r[0] = "a7"
    if what == "id_fraction":
        r[0] = "1.5"
    if what == "zone_text":
        r[5] = "z"
    if what == "zone_fraction":
        r[5] = "1.5"
    if what == "kind":
        r[4] = "X"
    if what == "kind_case":
        r[4] = "cbd"
    if what == "missing":
        del r[6]
    if what == "extra":
        r.append("9")
    if what == "blank":
        r[:] = []
    if what == "fewer_vertices":
        kw["vertices"] = len(rows) - 1
    if what == "more_vertices":
        kw["vertices"] = len(rows) + 1
    data = pajek_text([tuple(x) for x in rows], **kw)
    if what == "no_vertices":
        data = "\n".join(x for x in data.split("\n") if not x.startswith("*"))
    c, exc = ctx.attempt(Graph.build_from_content, data)
    if what == "nothing":
        ctx.check("wellformed_accepted", exc is None and len(c.get_nodes()) == 2 * n + 1)
        ctx.cover("accepted")
    else:
        ctx.check("malformed_rejected", exc is not None and documented(exc))
        ctx.cover("rejected")


def cases(tier):
    import itertools
    out = []
    both = ["accepted", "rejected"]
    for k in (0, 1, 2, 3) + ((4,) if tier != "quick" else ()):
        out.append({"name": "lines%d" % k, "fn": arbitrary, "args": {"lines": k}, "covers": both if k in (1, 3) else
                    ["rejected"]})
    out.append({"name": "ids_n2", "fn": order, "args": {"n": 2, "perms": [[4, 3, 2, 1, 0]]}, "covers": both})
    out.append({"name": "order_n1", "fn": order, "args": {"n": 1, "perms": [list(p) for p in itertools.permutations(range(3))]},
                "covers": both})
    for n in (6, 10) if tier == "quick" else (6, 10, 13):
        k = 2 * n + 1
        out.append({"name": "order_n%d" % n, "fn": order, "covers": ["accepted"],
                    "args": {"n": n, "perms": [list(range(k))[::-1], [(5 * i + 3) % k for i in range(k)],
                                               list(range(n, k)) + list(range(n))] if k % 5 else
                             [list(range(k))[::-1], list(range(n, k)) + list(range(n))], "free": False}})
    out.append({"name": "corrupted1_n2", "fn": corrupted, "args": {"n": 2, "times": 1, "free": False}, "covers": both})
    out.append({"name": "corrupted1_n3", "fn": corrupted, "args": {"n": 3, "times": 1, "free": False}, "covers": both})
    out.append({"name": "malformed_n1", "fn": malformed, "args": {"n": 1}, "covers": both})
    out.append({"name": "malformed_n2", "fn": malformed, "args": {"n": 2}, "covers": both})
    if tier != "quick":
        out.append({"name": "order_n3", "fn": order, "args": {"n": 3, "perms": [[6, 5, 4, 3, 2, 1, 0], [3, 4, 5, 6, 0, 1, 2]]},
                    "covers": both})
        out.append({"name": "corrupted2_n2", "fn": corrupted, "args": {"n": 2, "times": 2, "free": False}, "covers": both})
        out.append({"name": "corrupted1_n2_ids", "fn": corrupted, "args": {"n": 2, "times": 1, "free": True},
                    "covers": both})
    return out
