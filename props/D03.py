"""Demand files and nested lists: every cell lands where it belongs, malformed input is rejected."""
import os
from props.lib import *

BOUNDS = ("cities of 0..2 (quick) / 0..3 (thorough) and 6 zones with default and permuted/sparse node ids; every cell (a ninth of them with 6 zones) any real in "
          "[0, 1e9]; matrices of every shape up to (nodes+1) x (nodes+1); files with every single-field corruption and with up to "
          "five lines for the same pairs")
ASSUMPTIONS = ["numbers written with str()/repr() and read with float() are unchanged (CPython's shortest repr is exact)"]

def get_graph(kind, n):
    return city(n) if kind == "default" else sparse_city(n)


def cells(d):
    m = d.get_matrix()
    return {(i, j): m[i][j] for i in list(m) for j in list(m[i])}


def check_same(ctx, label, d, want, ids):
    got = cells(d)
    ctx.check(label + "_pairs", set(got) == {(i, j) for i in ids for j in ids})
    for k in sorted(want):
        if k in got:
            ctx.eq(label + "_cell", got[k], want[k], 1e-9)
    ctx.eq(label + "_total", d.get_total_trips(), sum(want.values()), 1e-6)


def roundtrip(ctx, kind, n, how, few=False):
    g = get_graph(kind, n)
    ids = [x.id for x in g.get_nodes()]
    vals = {(i, j): ctx.real("v_%d_%d" % (i, j), 0, 10 ** 9) if not few or (a + 2 * b) % 9 == 0 else 1 + a + b / 16
            for a, i in enumerate(ids) for b, j in enumerate(ids)}
    if how == "edits":
        d = Demand(g)
        for (i, j), v in vals.items():
            d.change_vij(i, j, v)
    else:
        d = Demand.build_from_content(g, [[vals[(i, j)] for j in ids] for i in ids])
        check_same(ctx, "content", d, vals, ids)
    p = os.path.join(ctx.tmp(), "od.csv")
    d.matrix_to_file(p)
    check_same(ctx, "writing_keeps", d, vals, ids)
    e = Demand.build_from_file(g, p)
    check_same(ctx, "file", e, vals, ids)
    Demand.build_from_content(g, [[3 + i] * len(ids) for i in range(len(ids))]).matrix_to_file(p)  # files are replaced
    d.matrix_to_file(p)
    check_same(ctx, "file_again", Demand.build_from_file(g, p), vals, ids)
    with open(p) as f:
        ctx.check("lines_of_the_file", len([x for x in f.read().split("\n") if x.strip()]) == len(ids) ** 2 + 1)
    ctx.cover("end")


def shapes(ctx, n):
    g = city(n)
    ids = [x.id for x in g.get_nodes()]
    k = len(ids)
    rows = ctx.choice("rows", list(range(0, k + 2)))
    if rows == k:
        lens = [k] * rows
        r = ctx.choice("odd_row", list(range(rows)))
        lens[r] = ctx.choice("odd_len", list(range(0, k + 2)))
    else:
        lens = [ctx.choice("len", [0, k - 1, k, k + 1])] * rows
    # one row of symbolic, possibly negative, values is enough to decide every sign decision; the others positive
    srow = ctx.choice("symbolic_row", list(range(max(rows, 1))))
    m = [[ctx.real("v_%d_%d" % (i, j), -5, 10 ** 6) if i == srow else 1 + i * 10 + j for j in range(lens[i])]
         for i in range(rows)]
    good_shape = rows == k and all(x == k for x in lens)
    d, exc = ctx.attempt(Demand.build_from_content, g, m)
    neg = ctx.Or(*[x < 0 for row in m for x in row]) if m else False
    if exc is None:
        ctx.check("accepted_shape", good_shape)
        ctx.check("accepted_nonnegative", ctx.Not(neg))
        if good_shape:
            check_same(ctx, "content", d, {(ids[i], ids[j]): m[i][j] for i in range(k) for j in range(k)}, ids)
        ctx.cover("accepted")
    else:
        t = type(exc)
        ctx.check("rejection_matches", ctx.Or(ctx.And(t is E.DemandMatrixIsNotValidException, not good_shape),
                                              ctx.And(t in (E.VijIsNotValidException, E.TripsValueIsNotValidException),
                                                      neg)))
        ctx.cover("rejected")


BAD_FIELDS = ["x", "", "1.5", "abc", "1 2"]


def badlines(ctx, n):
    g = city(n)
    ids = [x.id for x in g.get_nodes()]
    p = os.path.join(ctx.tmp(), "od.csv")
    o = ctx.choice("o", ids + [max(ids) + 1, -1, "x", "1.5", ""])
    t = ctx.choice("t", ids + [max(ids) + 1, -1, "x", "1.5", ""])
    fields = ctx.choice("fields", [3, 2, 1, 4])
    sym = ctx.choice("vkind", ["number", "text"])
    v = ctx.real("v", -10, 10 ** 6) if sym == "number" else "abc"
    line = ",".join([str(o), str(t), ctx.text(v) if sym == "number" else v, "7"][:fields])
    pos = ctx.choice("position", [0, 1, 2])
    good = ["%d,%d,%s" % (ids[0], ids[-1], "5"), "%d,%d,%s" % (ids[-1], ids[0], "6.5")]
    lines = good[:pos] + [line] + good[pos:]
    with open(p, "w") as f:
        f.write("origin,destination,vij\n" + "\n".join(lines) + "\n")
    d, exc = ctx.attempt(Demand.build_from_file, g, p)
    bad = []
    if fields != 3:
        bad.append((True, (E.FileFormatIsNotValidException,)))
    else:
        if not isinstance(o, int) or not isinstance(t, int) or sym == "text":
            bad.append((True, (E.NodeIdDemandIsNotAnInteger,)))
        if isinstance(o, int) and o not in ids:
            bad.append((True, (E.OriginIdDoesNotFoundException,)))
        if isinstance(t, int) and t not in ids:
            bad.append((True, (E.DestinationIdDoesNotFoundException,)))
        if sym == "number":
            bad.append((v < 0, (E.TripsValueIsNotValidException,)))
    if exc is None:
        ctx.check("accepted_line_is_wellformed", ctx.Not(ctx.Or(*[c for c, _ in bad])))
        if fields == 3 and o in ids and t in ids:
            want = {(i, j): 0 for i in ids for j in ids}
            for x in lines:
                i, j, w = x.split(",")
                want[(int(i), int(j))] = v if x is line else float(w)
            check_same(ctx, "file", d, want, ids)
        ctx.cover("accepted")
    else:
        ctx.check("rejection_matches", ctx.Or(*[c for c, es in bad if type(exc) in es]))
        ctx.cover("rejected")


def repeated(ctx, n):
    """several lines for the same pairs: the last one counts"""
    g = city(n)
    ids = [x.id for x in g.get_nodes()]
    p = os.path.join(ctx.tmp(), "od.csv")
    x, y = ctx.real("x", 0, 10 ** 6), ctx.real("y", 0, 10 ** 6)
    vals = {"x": x, "y": y, "0": 0}
    a, b = (ids[0], ids[-1]), (ids[-1], ids[0])
    order = ctx.choice("order", ["xyx", "xxy", "x0x", "0x0", "xy0", "yx"])
    pairs = ctx.choice("pairs", ["one", "between", "after"])
    header = ctx.choice("header", ["names", "line"])
    lines = [(a, k) for k in order]
    if pairs == "between":
        lines[1:1] = [(b, "x")]
    elif pairs == "after":
        lines += [(b, order[0]), (b, order[-1])]
    text = lambda k: "%d,%d,%s" % (k[0] + (ctx.text(vals[k[1]]) if k[1] != "0" else "0",))
    with open(p, "w") as f:
        f.write("\n".join(["origin,destination,vij" if header == "names" else text(lines[-1])]
                          + [text((k, v)) for k, v in lines]) + "\n")
    want = {(i, j): 0 for i in ids for j in ids}
    for k, v in lines:
        want[k] = vals[v]
    d, exc = ctx.attempt(Demand.build_from_file, g, p)
    ctx.check("accepted", exc is None)
    if exc is None:
        check_same(ctx, "file", d, want, ids)
    ctx.cover("end")


def cases(tier):
    out = []
    for n in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3)):
        for how in ("edits", "content"):
            out.append({"name": "roundtrip_%s_n%d" % (how, n), "fn": roundtrip,
                        "args": {"kind": "default", "n": n, "how": how}, "covers": ["end"]})
    for kind in ("default", "sparse"):
        out.append({"name": "roundtrip_%s_n6" % kind, "fn": roundtrip,
                    "args": {"kind": kind, "n": 6, "how": "content", "few": True}, "covers": ["end"]})
    for n in (1, 2):
        out.append({"name": "roundtrip_sparse_ids_n%d" % n, "fn": roundtrip,
                    "args": {"kind": "sparse", "n": n, "how": "content"}, "covers": ["end"]})
    for n in ((1,) if tier == "quick" else (1, 2)):
        out.append({"name": "shapes_n%d" % n, "fn": shapes, "args": {"n": n}, "covers": ["accepted", "rejected"]})
        out.append({"name": "repeated_n%d" % n, "fn": repeated, "args": {"n": n}, "covers": ["end"]})
        out.append({"name": "lines_n%d" % n, "fn": badlines, "args": {"n": n}, "covers": ["accepted", "rejected"]})
    return out
