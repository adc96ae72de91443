"""Route sequences as text, and the network file."""
import csv
from props.lib import *

BOUNDS = "sequences of 0..6 (quick) / 0..9 (thorough) arbitrary integers in [-10^6, 10^9]; network files of 0..3 custom routes with " \
         "1..4 arbitrary (symbolic) node ids per direction and any admissible stops (all nodes, or the ends), of all predefined " \
         "families and of rings (1..4 zones, consecutive and sparse ids), with plain and awkward route and mode names, after " \
         "additions and removals; thorough: 4 routes, 1..6 zones"
ASSUMPTIONS = ["names are strings (separators, quotes and line breaks included) without carriage returns, or whole numbers"]
COLUMNS = ["route_id", "mode", "nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i", "stops_sequence_r"]


def sequence(ctx, k, wide):
    xs = [ctx.int("x%d" % i, -10 ** 6, 10 ** 9) if wide else ctx.int("x%d" % i, -12, 12) for i in range(k)]
    s, exc = ctx.attempt(Route.sequences_to_string, list(xs))
    ctx.check("to_text", exc is None and isinstance(s, str))
    if exc is not None:
        return
    back, exc = ctx.attempt(Route.sequences_to_list, s)
    ctx.check("same_sequence", exc is None and len(back) == k and ctx.And(*[a == b for a, b in zip(back, xs)]))
    t = ",".join(ctx.text(x) for x in xs)
    lst, exc = ctx.attempt(Route.sequences_to_list, t)
    ctx.check("list_of_text", exc is None and len(lst) == k and ctx.And(*[a == b for a, b in zip(lst, xs)]))
    t2, exc = ctx.attempt(Route.sequences_to_string, lst)
    ctx.check("same_text", exc is None and len(t2.split(",")) == len(t.split(",")) and
              (k == 0 or ctx.And(*[ctx.number(a) == ctx.number(b) for a, b in zip(t2.split(","), t.split(","))])))
    if k == 0:
        ctx.check("no_text", s == "" and Route.sequences_to_list(None) == [])
    ctx.cover("end")


class AnyStreets:
    """a city in which every street exists: the file does not depend on the streets"""

    def __init__(self, g):
        self.g = g

    def edge_exist(self, i, j):
        return True

    def __getattr__(self, name):
        return getattr(self.g, name)


def seqs(r):
    return [r.nodes_sequence_i, r.nodes_sequence_r, r.stops_sequence_i, r.stops_sequence_r]


def check_file(ctx, net):
    path = ctx.tmp() + "/network.csv"
    before = [(r, [list(s) for s in seqs(r)]) for r in net.get_routes()]
    _, exc = ctx.attempt(net.routes_to_file, path)
    ctx.check("file_written", exc is None)
    if exc is not None:
        return
    with open(path, encoding="utf-8", newline="") as f:
        rows = list(csv.reader(f, delimiter=";"))
    used = ctx.tmp() + "/used.csv"  # the file of another network is there
    with open(used, "w") as f:
        f.write(";".join(COLUMNS) + "\n" + "old;bus;1,2;2,1;1,2;2,1\n" * 50)
    _, exc = ctx.attempt(net.routes_to_file, used)
    ctx.check("file_replaced", exc is None)
    with open(used, encoding="utf-8", newline="") as f:
        again = list(csv.reader(f, delimiter=";"))
    ctx.check("file_replaced", len(again) == len(rows) and [len(x) for x in again] == [len(x) for x in rows])
    for a, b in zip(again, rows):
        ctx.check("file_replaced", a[:2] == b[:2] and [len(x.split(",")) for x in a] == [len(x.split(",")) for x in b])
        ctx.check("file_replaced", ctx.And(*[ctx.number(u) == ctx.number(v) for x, y in zip(a[2:], b[2:]) for u, v in
                                             zip(x.split(","), y.split(",")) if u and v and rows.index(b)]))
    ctx.check("header", rows[:1] == [COLUMNS])
    rows = rows[1:]
    ctx.check("one_line_per_route", len(rows) == len(before))
    ctx.check("writing_changes_nothing", len(net.get_routes()) == len(before) and
              all(a is b for a, (b, _) in zip(net.get_routes(), before)))
    for row, (r, ss) in zip(rows, before):
        ctx.check("fields", len(row) == 6)
        if len(row) != 6:
            continue
        ctx.check("route_id", row[0] == str(r.id))
        ctx.check("mode_name", row[1] == str(r.mode.name))
        for t, s, now in zip(row[2:], ss, seqs(r)):
            parts = t.split(",") if t else []
            ctx.check("sequence", len(parts) == len(s) and ctx.And(*[ctx.number(a) == b for a, b in zip(parts, s)]))
            ctx.check("route_unchanged", len(now) == len(s) and ctx.And(*[a == b for a, b in zip(now, s)]))
        kind = RouteType.CUSTOM if r._type != RouteType.CIRCULAR else RouteType.CIRCULAR
        x, exc = ctx.attempt(Route, row[0], r.mode, *row[2:], _type=kind)
        ctx.check("rebuilt", exc is None)
        if exc is None:
            for s, now in zip(ss, seqs(x)):
                ctx.check("rebuilt_sequence", len(now) == len(s) and ctx.And(*[a == b for a, b in zip(now, s)]))
    ctx.cover("written")


NAMES = ["R1", "a;b", 'q"uote', " lead", "ñandú", "x,y", "1", "line\nbreak"]


def mode(name, d=1):
    return TransportMode(name, 1, 8, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, d, 28)


def custom(ctx, shapes, names):
    ctx.by_equality()
    net = TransportNetwork(AnyStreets(city(1)))
    ms = [mode(ctx.choice("mode", NAMES) if names else "bus"), mode("other")]
    for k, (li, lr) in enumerate(shapes):
        i = [ctx.int("i%d_%d" % (k, j), 0, 10 ** 6) for j in range(li)]
        r = [ctx.int("r%d_%d" % (k, j), 0, 10 ** 6) for j in range(lr)]
        r[0], r[-1] = i[-1], i[0]
        si = i if li < 3 or ctx.flag("all_i%d" % k) else [i[0], i[-1]]
        sr = r if lr < 3 or ctx.flag("all_r%d" % k) else [r[0], r[-1]]
        for q in (i, r):
            for a in range(len(q)):
                for b in range(a):
                    ctx.assume(q[a] != q[b])
        rid = ctx.choice("id", [7] + NAMES) if names and k == 0 else "route%d" % k
        x, exc = ctx.attempt(Route, rid, ms[k % 2], *[",".join(ctx.text(v) for v in q) for q in (i, r, si, sr)])
        ctx.check("route", exc is None)
        if exc is not None:
            return
        net.add_route(x)
    if ctx.flag("twin"):  # another line on the sequences of the first one
        o = net.get_routes()[0]
        net.add_route(Route("twin", o.mode, *[",".join(ctx.text(v) for v in q) for q in seqs(o)]))
    check_file(ctx, net)


def predefined(ctx, n, sparse, symbolic=False, few=False):
    g = sparse_city(n) if sparse else city(n)
    if symbolic:
        ctx.by_equality()
        for j, x in enumerate(g.get_nodes()):
            x.id = ctx.int("id%d" % j, 0, 10 ** 6)
        for a in g.get_nodes():
            for b in g.get_nodes():
                if a is not b:
                    ctx.assume(a.id != b.id)
    net = TransportNetwork(AnyStreets(g) if symbolic else g)
    m = mode("bus")
    kind = ctx.choice("family", ["feeder", "radial", "diametral", "tangential"][:2 if n < 2 else 4] + ["circular"] * (n > 1))
    if kind == "feeder":
        rs = net.get_feeder_routes(m)
    elif kind == "circular":
        rs = net.get_circular_routes(m)
    elif kind == "radial":
        rs = net.get_radial_routes(m, ctx.flag("short"), ctx.flag("express"))
    else:
        fn = net.get_diametral_routes if kind == "diametral" else net.get_tangencial_routes
        rs = fn(m, ctx.choice("jump", list(range(1, n // 2 + 1))), ctx.flag("short"), ctx.flag("express"))
    for r in rs:
        net.add_route(r)
    if kind != "feeder":
        for r in net.get_feeder_routes(mode("second")):
            net.add_route(r)
    if not few and ctx.flag("removed"):
        net.remove_route(net.get_routes()[ctx.choice("which", list(range(len(net.get_routes()))))].id)
    check_file(ctx, net)


def nothing(ctx):
    check_file(ctx, TransportNetwork(city(ctx.choice("n", [0, 1, 3]))))


def cases(tier):
    deep = tier != "quick"
    out = [{"name": "empty", "fn": nothing, "args": {}, "covers": ["written"]}]
    for k in range((9 if deep else 6) + 1):
        out.append({"name": "sequence_%d" % k, "fn": sequence, "args": {"k": k, "wide": True}, "covers": ["end"]})
    out.append({"name": "sequence_small", "fn": sequence, "args": {"k": 2, "wide": False}, "covers": ["end"]})
    shapes = [[(2, 2)], [(3, 2)], [(4, 3)], [(1, 1)], [(2, 3), (2, 2)], [(3, 3), (2, 3), (2, 2)]]
    if deep:
        shapes += [[(4, 4), (3, 4)], [(5, 4)], [(2, 2), (3, 3), (2, 3), (3, 2)]]
    for s in shapes:
        out.append({"name": "custom_" + "_".join("%d%d" % x for x in s), "fn": custom, "args": {"shapes": s, "names": False},
                    "covers": ["written"]})
    for s in ([(2, 2)], [(2, 3), (2, 2)]):
        out.append({"name": "names_%d" % len(s), "fn": custom, "args": {"shapes": s, "names": True}, "covers": ["written"]})
    for n in range(1, (6 if deep else 4) + 1):
        out.append({"name": "predefined_%d" % n, "fn": predefined, "args": {"n": n, "sparse": False}, "covers": ["written"]})
        if n <= 4:
            out.append({"name": "predefined_%d_sparse" % n, "fn": predefined, "args": {"n": n, "sparse": True},
                        "covers": ["written"]})
        if n <= (4 if deep else 3):
            out.append({"name": "predefined_%d_symbolic" % n, "fn": predefined,
                        "args": {"n": n, "sparse": False, "symbolic": True}, "covers": ["written"]})
    out.append({"name": "predefined_10", "fn": predefined, "args": {"n": 10, "sparse": False, "few": True}, "covers": ["written"]})
    return out
