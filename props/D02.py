"""Demand edits: running total, last accepted values, rejected edits leave no trace; parameter domain."""
from props.lib import *

BOUNDS = ("histories of 2 edits over every id in [-1, max+1] and 3 (quick) / 4 (thorough) edits over a reduced id set, on "
          "cities of 1, 2 and 6 zones, values any real in [-1000, 1000000]; y, a, alpha, beta any real in [-2, 3] (y to 1e6)")
ASSUMPTIONS = ["node ids are ints, cell values ints or floats"]


def snapshot(d):
    m = d.get_matrix()
    return {(i, j): m[i][j] for i in list(m) for j in list(m[i])}


def one(ctx, d, ids, model, o, t, v, kind):
    """one edit against the model"""
    before = dict(model)
    _, exc = ctx.attempt(d.change_vij, o, t, v)
    bad = set()
    if v < 0:
        bad.add(E.TripsValueIsNotValidException)
    if o not in ids:
        bad.add(E.OriginIdDoesNotFoundException)
    if t not in ids:
        bad.add(E.DestinationIdDoesNotFoundException)
    if bad:
        ctx.check("invalid_edit_raises_matching", exc is not None and type(exc) in bad)
        ctx.cover("rejected")
    else:
        ctx.check("valid_edit_accepted", exc is None)
        before[(o, t)] = v
        ctx.cover("accepted")
    m = snapshot(d)
    ctx.check("cells_are_the_pairs_of_nodes", set(m) == {(i, j) for i in ids for j in ids})
    for k in before:
        if k in m:
            ctx.eq("cells_hold_last_accepted", m[k], before[k])
    ctx.eq("total_is_sum", d.get_total_trips(), sum(m.values()))
    return before


def edits(ctx, n, k, idset, start):
    g = city(n)
    ids = [x.id for x in g.get_nodes()]
    if start == "parameters":
        d = Demand.build_from_parameters(g, ctx.real("y", 0, 100000), 0.5, 0.25, 0.25)
    else:
        d = Demand(g)
    model = snapshot(d)
    ctx.eq("total_is_sum", d.get_total_trips(), sum(model.values()))
    for s in range(k):
        if idset == "all":
            o = ctx.choice("o%d" % s, list(range(-1, max(ids) + 2)))
            t = ctx.choice("t%d" % s, list(range(-1, max(ids) + 2)))
        else:
            o = ctx.choice("o%d" % s, idset)
            t = ctx.choice("t%d" % s, idset)
        v = ctx.real("v%d" % s, -1000, 1000000)
        model = one(ctx, d, ids, model, o, t, v, s)


def domain(ctx, n, ints):
    g = city(n)
    if ints:
        y, a, al, be = [ctx.int(x, -1, 2) for x in ("y", "a", "alpha", "beta")]
    else:
        y = ctx.real("y", -2, 1000000)
        a, al, be = [ctx.real(x, -2, 3) for x in ("a", "alpha", "beta")]
    viol = []
    for c, e in ((y < 0, E.YOutOfRangeException), (ctx.Or(a < 0, a > 1), E.AOutOfRangeException),
                 (ctx.Or(al < 0, al > 1), E.AlphaOutOfRangeException),
                 (ctx.Or(be < 0, be >= 1), E.BetaOutOfRangeException),
                 (al + be > 1, E.AlphaBetaOutOfRangeException)):
        viol.append((c, e))
    d, exc = ctx.attempt(Demand.build_from_parameters, g, y, a, al, be)
    r, exc2 = ctx.attempt(Demand.parameters_validator, y, a, al, be)
    if exc is None:
        ctx.check("accepted_is_valid", ctx.Not(ctx.Or(*[c for c, _ in viol])))
        ctx.check("accepted_returns_demand", isinstance(d, Demand) and exc2 is None and r is True)
        ctx.cover("accepted")
    else:
        ctx.check("rejected_names_violated_parameter", ctx.Or(*[c for c, e in viol if type(exc) is e]))
        ctx.check("validator_agrees", exc2 is not None and ctx.Or(*[c for c, e in viol if type(exc2) is e]))
        ctx.cover("rejected")


def cases(tier):
    out = []
    both = ["accepted", "rejected"]
    for n in (1, 2):
        out.append({"name": "edits2_n%d" % n, "fn": edits, "args": {"n": n, "k": 2, "idset": "all", "start": "zero"}
                    if n == 1 else {"n": n, "k": 1, "idset": "all", "start": "zero"}, "covers": both})
    out.append({"name": "edits3", "fn": edits, "args": {"n": 1, "k": 3, "idset": [0, 2, 7], "start": "zero"},
                "covers": both})
    out.append({"name": "edits2_parametric", "fn": edits, "args": {"n": 2, "k": 2, "idset": [1, 4, -1],
                                                                   "start": "parameters"}, "covers": both})
    out.append({"name": "edits2_n6", "fn": edits, "args": {"n": 6, "k": 2, "idset": [1, 10, 12, 13], "start": "zero"},
                "covers": both})
    if tier == "thorough":
        out.append({"name": "edits2_full_n2", "fn": edits, "args": {"n": 2, "k": 2, "idset": "all", "start": "zero"},
                    "covers": both})
        out.append({"name": "edits4", "fn": edits, "args": {"n": 1, "k": 4, "idset": [0, 2, 7], "start": "zero"},
                    "covers": both})
    for n in (1, 2):
        out.append({"name": "domain_n%d" % n, "fn": domain, "args": {"n": n, "ints": False}, "covers": both})
        out.append({"name": "domain_int_n%d" % n, "fn": domain, "args": {"n": n, "ints": True}, "covers": both})
    return out
