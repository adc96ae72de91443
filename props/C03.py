"""Parameter validation of a city: exact accept/reject boundary."""
from props.lib import *

BOUNDS = ("n any int in [-2, 3] (quick) / [-2, 4] (thorough), 10, 12 or a non-integer; l, g, p any real in [-2, 1e6]; etha any real in "
          "[-1, 2] or absent; etha zone any int in [-1, n+1], a non-integer or absent; angles, Gi, Hi lists of every length "
          "0..n+1 with any real entries, or absent")
ASSUMPTIONS = ["parameters are numbers, lists of numbers or None"]


def vec(ctx, name, n, lo, hi, lens):
    k = ctx.choice(name + "_len", lens)
    return None if k is None else [ctx.real("%s%d" % (name, i), lo, hi) for i in range(k)]


def harness(ctx, n, scalars, etha_mode, vecs, lens=None):
    if n is None:
        n = ctx.int("n", -2, -1)
    l, g, p = [ctx.real(x, -2, 10 ** 6) for x in ("l", "g", "p")] if scalars == "any" else \
        [ctx.int(x, -1, 1) for x in ("l", "g", "p")] if scalars == "int" else [ctx.real(x, 0, 10 ** 6) for x in ("l", "g", "p")]
    etha = ez = None
    if etha_mode:
        etha = ctx.real("etha", -1, 2) if ctx.flag("etha_given") else None
        w = ctx.choice("zone_kind", ["none", "int", "half"])
        hi = max(int(n) if isinstance(n, float) else 2 if not isinstance(n, int) else n, 0) + 1
        ez = None if w == "none" else ctx.int("etha_zone", -1, hi) if w == "int" else 0.5 + ctx.choice("z", [0, 1])
    k = 2 if isinstance(n, float) or not isinstance(n, int) or n < 0 else n
    lens = lens or {"all": [None] + list(range(0, k + 2)), "fit": [None, k], "off": [None]}
    A = vec(ctx, "angle", n, -10, 370, lens[vecs[0]])
    Gi = vec(ctx, "G", n, -1, 10 ** 4, lens[vecs[1]])
    Hi = vec(ctx, "H", n, -1, 10 ** 4, lens[vecs[2]])
    isint = isinstance(n, int) and not isinstance(n, float)
    viol = [(ctx.Or(n < 0, not isint), E.NIsNotValidNumberException), (l < 0, E.LIsNotValidNumberException),
            (g < 0, E.GIsNotValidNumberException), (p < 0, E.PIsNotValidNumberException),
            (etha is None and ez is not None, E.EthaValueRequiredException),
            (etha is not None and ez is None, E.EthaZoneValueRequiredException)]
    if etha is not None:
        viol.append((ctx.Or(etha < 0, etha > 1), E.EthaValueIsNotValidException))
    if ez is not None:
        viol.append((ctx.Or(ez < 1, ez > n, isinstance(ez, float)), E.EthaZoneValueIsNotValidException))
    for v, lo, hi, el, ev in ((A, 0, 360, E.AngleListLengthIsNotValidException, E.AngleValueIsNotValidException),
                              (Gi, 0, None, E.GiListLengthIsNotValidException, E.GiValueIsNotValidException),
                              (Hi, 0, None, E.HiListLengthIsNotValidException, E.HiValueIsNotValidException)):
        if v is not None:
            viol.append((n != len(v), el))
            if v:
                viol.append((ctx.Or(*([x < lo for x in v] + ([x > hi for x in v] if hi else []))), ev))
    kw = {"etha": etha, "etha_zone": ez, "angles": A, "Gi": Gi, "Hi": Hi}
    c, exc = ctx.attempt(Graph.build_from_parameters, n, l, g, p, **kw)
    r, exc2 = ctx.attempt(Graph.parameters_validator, n, l, g, p, **kw)
    if exc is None:
        ctx.check("accepted_is_valid", ctx.Not(ctx.Or(*[x for x, _ in viol])))
        ctx.check("city_returned", isinstance(c, Graph) and exc2 is None and bool(r))
        if isinstance(c, Graph):
            ctx.check("n_stored", c.get_n() == n)
            par = c.get_parameters()
            for i, x in ((1, l), (2, g), (3, p), (4, etha), (5, ez)):
                ctx.eq("parameter_stored", par[i], x)
        ctx.cover("accepted")
    else:
        ctx.check("rejected_names_violated_parameter", ctx.Or(*[x for x, e in viol if type(exc) is e]))
        ctx.check("validator_agrees", exc2 is not None and ctx.Or(*[x for x, e in viol if type(exc2) is e]))
        ctx.cover("rejected")


def cases(tier):
    out = []
    both = ["accepted", "rejected"]

    def add(name, n, scalars, em, vecs, covers=both):
        out.append({"name": name, "fn": harness, "args": {"n": n, "scalars": scalars, "etha_mode": em, "vecs": vecs},
                    "covers": covers})
    top = 4 if tier == "quick" else 5
    for n in list(range(0, top)):
        add("scalars_n%d" % n, n, "any", False, ("off",) * 3)
        add("ints_n%d" % n, n, "int", False, ("off",) * 3)
        add("etha_n%d" % n, n, "ok", True, ("off",) * 3)
        add("angles_n%d" % n, n, "ok", False, ("all", "off", "off"))
        add("Gi_n%d" % n, n, "ok", False, ("off", "all", "off"))
        add("Hi_n%d" % n, n, "ok", False, ("off", "off", "all"))
    for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
        add("all_fit_n%d" % n, n, "ok", True, ("fit",) * 3)
        add("lists_n%d" % n, n, "ok", False, ("all",) * 3)
    add("everything_n1", 1, "any", True, ("all" if tier != "quick" else "fit",) * 3)
    for n in (10, 12):
        for name, vecs in (("angles", ("fit", "off", "off")), ("Gi", ("off", "fit", "off")), ("Hi", ("off", "off", "fit"))):
            out.append({"name": "%s_n%d" % (name, n), "fn": harness, "covers": both,
                        "args": {"n": n, "scalars": "ok", "etha_mode": False, "vecs": vecs,
                                 "lens": {"fit": [None, 1, n - 1, n, n + 1], "off": [None]}}})
        add("etha_n%d" % n, n, "ok", True, ("off",) * 3)
    for v in (-0.5, 0.5, 1.5, 2.0):
        add("noninteger_n_%s" % v, v, "ok", True, ("fit", "fit", "fit"), ["rejected"])
    add("negative_n", None, "ok", True, ("fit", "fit", "fit"), ["rejected"])
    return out
