"""Custom routes: acceptance is exactly drivability."""
import itertools
from props.lib import *

BOUNDS = "node and stop sequences of every combination of lengths 0..3 (quick) / 0..4 (thorough), plus selected longer ones " \
         "(up to 5 nodes), over arbitrary (symbolic) integer ids in [-9, 1000000]; absent sequences, ids and modes"
ASSUMPTIONS = ["sequences are given as comma separated integers"]


def mode():
    return TransportMode("bus", 1, 8, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, 1, 28)


def distinct(ctx, s):
    return ctx.And(*[s[a] != s[b] for a in range(len(s)) for b in range(a)])


def rides(ctx, nodes, stops):
    """stops are an increasing selection of the nodes that contains both ends"""
    k, m = len(nodes), len(stops)
    alts = []
    for c in itertools.combinations(range(k), m):
        if m and c[0] == 0 and c[-1] == k - 1:
            alts.append(ctx.And(*[stops[q] == nodes[c[q]] for q in range(m)]))
    return ctx.Or(*alts) if alts else False


def drivable(ctx, ni, nr, si, sr):
    if not ni or not nr or not si or not sr:
        return False
    return ctx.And(distinct(ctx, ni), distinct(ctx, nr), ni[0] == nr[-1], nr[0] == ni[-1], rides(ctx, ni, si),
                   rides(ctx, nr, sr))


def seq(ctx, name, k):
    return None if k is None else [ctx.int("%s%d" % (name, i), -9, 1000000) for i in range(k)]


def text(ctx, s):
    return None if s is None else ",".join(ctx.text(x) for x in s)


def harness(ctx, lens):
    ctx.by_equality()
    ni, nr, si, sr = [seq(ctx, n, k) for n, k in zip(("ni", "nr", "si", "sr"), lens)]
    judge(ctx, ni, nr, si, sr)


def judge(ctx, ni, nr, si, sr):
    m = mode()
    r, exc = ctx.attempt(Route, "r1", m, text(ctx, ni), text(ctx, nr), text(ctx, si), text(ctx, sr))
    ok = drivable(ctx, ni, nr, si, sr)
    if exc is None:
        ctx.check("accepted_is_drivable", ok)
        ctx.check("accepted_identity", r.id == "r1" and r.mode is m)
        for got, want in ((r.nodes_sequence_i, ni), (r.nodes_sequence_r, nr), (r.stops_sequence_i, si),
                          (r.stops_sequence_r, sr)):
            ctx.check("accepted_holds_sequences", got is not None and want is not None and len(got) == len(want) and
                      ctx.And(*[a == b for a, b in zip(got, want)]))
        ctx.cover("accepted")
    else:
        ctx.check("rejected_is_not_drivable", ctx.Not(ok))
        ctx.check("documented_exception", type(exc).__module__ == "sidermit.exceptions")
        ctx.cover("rejected")


def shaped(ctx, k, kr, stops):
    """longer routes with a distinct forward sequence and stops picked from it, so that order and repetition are decided"""
    ctx.by_equality()
    ni = seq(ctx, "ni", k)
    for i in range(k):
        ctx.assume(ni[i] == 10 * i)
    nr = [ni[-1]] + [ctx.int("mid%d" % i, 0, 10 * k) for i in range(kr - 2)] + [ni[0]]
    si = [ni[0]] + [ctx.int("s%d" % i, -1, 10 * k) for i in range(stops - 2)] + [ni[-1]]
    sr = [nr[0]] + [ctx.int("z%d" % i, -1, 10 * k) for i in range(max(0, min(stops, 3) - 2))] + [nr[-1]]
    judge(ctx, ni, nr, si, sr)


def identity(ctx):
    rid = ctx.choice("id", [None, "a", 7])
    m = ctx.choice("mode", [None, "bus", mode()])
    r, exc = ctx.attempt(Route, rid, m, "1,2", "2,1", "1,2", "2,1")
    if exc is None:
        ctx.check("accepted_identity", rid is not None and isinstance(m, TransportMode) and r.id == rid and r.mode is m)
    else:
        ctx.check("rejected_identity", rid is None or not isinstance(m, TransportMode))
        ctx.check("documented_exception", type(exc).__module__ == "sidermit.exceptions")
    ctx.cover("end")


def cases(tier):
    top = 3 if tier == "quick" else 4
    out = [{"name": "identity", "fn": identity, "args": {}, "covers": ["end"]}]
    opts = list(range(0, top + 1)) + [None]
    for lens in itertools.product(opts, repeat=4):
        if sum(x is None or x == 0 for x in lens) > 1:
            continue
        possible = all(x for x in lens) and lens[2] <= lens[0] and lens[3] <= lens[1] and \
            all(s >= 2 or n == 1 for n, s in ((lens[0], lens[2]), (lens[1], lens[3]))) and (lens[0] == 1) == (lens[1] == 1)
        out.append({"name": "len_" + "_".join(map(str, lens)), "fn": harness, "args": {"lens": lens},
                    "covers": ["accepted", "rejected"] if possible and lens != (1, 1, 1, 1) else
                    ["accepted", "rejected"] if lens == (1, 1, 1, 1) else ["rejected"]})
    for k, kr, s in ((4, 3, 4), (5, 3, 4)) + (((5, 4, 5), (5, 5, 5)) if tier != "quick" else ()):
        out.append({"name": "shaped_%d_%d_%d" % (k, kr, s), "fn": shaped, "args": {"k": k, "kr": kr, "stops": s},
                    "covers": ["accepted", "rejected"]})
    return out
