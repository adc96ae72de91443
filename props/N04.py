"""Validation and storage of mode and passenger parameters; mode managers."""
from props.lib import *

BOUNDS = "construction with every parameter an arbitrary number at once (whole numbers for the boarding kind and the parallel " \
         "lines, any of them missing); later assignments: every attribute, any number or nothing, sequences of 2; mode " \
         "managers: every history of 3 (quick) / 4 (thorough) additions, removals and look-ups over 4 names, from the empty " \
         "and the default manager, with any numbers of parallel lines"
ASSUMPTIONS = ["parameters are numbers or None, the name is any object"]

# documented admissible ranges
PARAMS = ["name", "bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini"]
EXC = {"name": E.NameIsNotValidExceptions, "bya": E.ByaIsNotValidExceptions, "co": E.CoIsNotValidExceptions,
       "c1": E.C1IsNotValidExceptions, "c2": E.C2IsNotValidExceptions, "v": E.VIsNotValidExceptions,
       "t": E.TIsNotValidExceptions, "fmax": E.FmaxIsNotValidExceptions, "kmax": E.KmaxIsNotValidExceptions,
       "theta": E.ThetaIsNotValidExceptions, "tat": E.TatIsNotValidExceptions, "d": E.DIsNotValidExceptions,
       "fini": E.FiniIsNotValidException}
P_PARAMS = ["va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt"]
P_EXC = {"va": E.VaIsNotValidExceptions, "pv": E.PvIsNotValidExceptions, "pw": E.PwIsNotValidExceptions,
         "pa": E.PaIsNotValidExceptions, "pt": E.PtIsNotValidExceptions, "spv": E.SpvIsNotValidExceptions,
         "spw": E.SpwIsNotValidExceptions, "spa": E.SpaIsNotValidExceptions, "spt": E.SptIsNotValidExceptions}


def valid(ctx, name, x):
    if x is None:
        return False
    if name == "name":
        return True
    if name == "bya":
        return ctx.Or(x == 0, x == 1)
    if name == "theta":
        return ctx.And(x >= 0, x <= 1)
    if name in ("v", "va"):
        return x > 0
    return x >= 0


def value(ctx, name, tag=""):
    if name == "name":
        return ctx.choice("name" + tag, ["bus", "", 3])
    if name == "bya":
        return ctx.int("bya" + tag, -2, 3) if ctx.flag("bya_whole" + tag) else ctx.real("bya_r" + tag, -2, 3)
    if name == "d":
        return ctx.int("d" + tag, -3, 6)
    return ctx.real(name + tag, -1000, 100000)


def same(ctx, label, a, b):
    ctx.check(label, a == b)


def construct(ctx, missing):
    v = {p: value(ctx, p) for p in PARAMS}
    if missing:
        v[missing] = None
    ok = {p: valid(ctx, p, v[p]) for p in PARAMS}
    if missing not in ("d", "fmax", "fini"):
        # a negative limit times no parallel lines: which of the two is reported or accepted is not claimed
        ctx.assume(ctx.Not(ctx.And(v["d"] == 0, ctx.Or(v["fmax"] < 0, v["fini"] < 0))))
    m, exc = ctx.attempt(lambda: TransportMode(*[v[p] for p in PARAMS]))
    if exc is None:
        ctx.check("accepted_only_valid", ctx.And(*ok.values()))
        if missing:
            return
        for p in PARAMS:
            if p in ("fmax", "fini"):
                ctx.eq("stored_" + p, getattr(m, p), v[p] * v["d"], 1e-9)
            else:
                same(ctx, "stored_" + p, getattr(m, p), v[p])
        ctx.cover("accepted")
        return
    ctx.check("rejected_only_invalid", ctx.Not(ctx.And(*ok.values())))
    if missing not in ("d", "fmax", "fini"):
        bad = [p for p in PARAMS if type(exc) is EXC[p]]
        ctx.check("documented_exception", len(bad) == 1)
        if bad:
            named = ctx.Not(ok[bad[0]])
            if bad[0] in ("fmax", "fini"):
                named = ctx.Or(named, v["d"] < 0)
            ctx.check("exception_names_the_parameter", named)
    ctx.cover("rejected")


BASE = ("bus", 1, 8.5, 0.15, 3, 20, 2.5, 150, 160, 0.7, 1, 4, 28)
P_BASE = (4.0, 2.7, 5.4, 8.2, 16, 2.8, 5.5, 8.3, 17)


def assign(ctx, kind, attr):
    """two assignments to one attribute; everything else stays"""
    if kind == "mode":
        o, names, exc_of = TransportMode(*BASE), PARAMS, EXC
    else:
        o, names, exc_of = Passenger(*P_BASE), P_PARAMS, P_EXC
    now = {p: getattr(o, p) for p in names}
    for k in range(2):
        x = None if ctx.flag("none%d" % k) else value(ctx, attr, "_%d" % k)
        _, exc = ctx.attempt(setattr, o, attr, x)
        ok = valid(ctx, attr, x)
        if exc is None:
            ctx.check("assign_accepted_only_valid", ok)
            now[attr] = x
            ctx.cover("accepted")
        else:
            ctx.check("assign_rejected_only_invalid", ctx.Not(ok))
            ctx.check("assign_documented_exception", type(exc) is exc_of[attr])
            ctx.cover("rejected")
        for p in names:
            same(ctx, "value_after_assignment", getattr(o, p), now[p])


def passenger(ctx, missing):
    v = {p: value(ctx, p) for p in P_PARAMS}
    if missing:
        v[missing] = None
    ok = {p: valid(ctx, p, v[p]) for p in P_PARAMS}
    m, exc = ctx.attempt(lambda: Passenger(*[v[p] for p in P_PARAMS]))
    if exc is None:
        ctx.check("accepted_only_valid", ctx.And(*ok.values()))
        for p in P_PARAMS:
            same(ctx, "stored_" + p, getattr(m, p), v[p])
        ctx.cover("accepted")
    else:
        ctx.check("rejected_only_invalid", ctx.Not(ctx.And(*ok.values())))
        bad = [p for p in P_PARAMS if type(exc) is P_EXC[p]]
        ctx.check("documented_exception", len(bad) == 1)
        if bad:
            ctx.check("exception_names_the_parameter", ctx.Not(ok[bad[0]]))
        ctx.cover("rejected")


def separate(ctx):
    """two objects do not share their values; defaults are valid and fresh"""
    a, b = TransportMode(*BASE), TransportMode(*BASE)
    x = ctx.real("x", 0, 100, True)
    for p in PARAMS[2:]:
        if p != "theta":
            setattr(a, p, x)
    for p in PARAMS[2:]:
        want = BASE[PARAMS.index(p)] * (BASE[11] if p in ("fmax", "fini") else 1)
        ctx.eq("other_mode_unchanged", getattr(b, p), want)
    c, d = Passenger(*P_BASE), Passenger.get_default_passenger()
    for p in P_PARAMS:
        setattr(c, p, x)
    for p, w in zip(P_PARAMS, (4.0, 2.74, 5.48, 8.22, 16, 2.74, 5.48, 8.22, 16)):
        ctx.eq("other_passenger_unchanged", getattr(d, p), w)
        ctx.eq("own_passenger_changed", getattr(c, p), x)
    bus, metro = TransportMode.get_default_modes()
    bus.co = x
    ctx.eq("defaults_fresh", TransportMode.get_default_modes()[0].co, 8.61)
    ctx.check("default_names", bus.name == "bus" and metro.name == "metro")
    ctx.cover("end")


def check_manager(ctx, man, model):
    ctx.check("names", list(man.get_modes_names()) == [m.name for m in model])
    ctx.check("modes", len(man.get_modes()) == len(model) and all(a is b for a, b in zip(man.get_modes(), model)))
    for name in ("bus", "metro", "bus_metro", "METRO", "none", "us", ""):
        m, exc = ctx.attempt(man.get_mode, name)
        want = [x for x in model if x.name == name]
        ctx.check("get_mode", (exc is None and want and m is want[0]) or
                  (not want and type(exc) is E.ModeNotFoundExceptions))


def manager(ctx, k, default, first):
    modes = {"bus": TransportMode("bus", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, ctx.int("d_bus", 0, 5), 1),
             "metro": TransportMode("metro", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, ctx.int("d_metro", 0, 5), 1),
             "upper": TransportMode("METRO", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, ctx.int("d_upper", 0, 5), 1),
             "bus_metro": TransportMode("bus_metro", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, ctx.int("d_bus_metro", 0, 5), 1),
             "bus2": TransportMode("bus", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, ctx.int("d_bus2", 0, 5), 1)}
    man = TransportModeManager(default)
    model = list(man.get_modes())
    ctx.check("initial", [m.name for m in model] == (["bus", "metro"] if default else []))
    ops = [("add", x) for x in ("bus", "metro", "bus_metro", "bus2", "upper")] + [("add", None)] + \
          [("remove", x) for x in ("bus", "metro", "bus_metro", "METRO", "none")]
    for i in range(k):
        op = ops[first] if i == 0 else ctx.choice("op%d" % i, ops)
        if op[0] == "add":
            m = modes[op[1]] if op[1] else "bus"
            _, exc = ctx.attempt(man.add_mode, m)
            ok = op[1] is not None and all(x.name != m.name for x in model)
            ctx.check("add", (exc is None) == ok)
            if exc is not None and not ok:
                ctx.check("add_exception", type(exc) is (E.AddModeExceptions if op[1] else E.ModeIsNotValidException))
            if exc is None:
                model.append(m)
        else:
            _, exc = ctx.attempt(man.remove_mode, op[1])
            ok = any(x.name == op[1] for x in model)
            ctx.check("remove", (exc is None) == ok)
            if exc is not None and not ok:
                ctx.check("remove_exception", type(exc) is E.ModeDoesNotExistExceptions)
            model = [x for x in model if x.name != op[1]]
        check_manager(ctx, man, model)
    v, exc = ctx.attempt(man.is_valid_to_assignment_step)
    ok = len(model) == 1 or (len(model) == 2 and ctx.Or(model[0].d == 1, model[1].d == 1))
    ctx.check("valid_set_answer", exc is not None or v is True)
    if exc is None:
        ctx.check("valid_set_accepted_only_when_valid", ok)
        ctx.cover("valid")
    else:
        ctx.check("valid_set_rejected_only_when_invalid", ctx.Not(ok))
        ctx.check("valid_set_exception", type(exc) is E.TransportNetworkException)
        ctx.cover("invalid")
    check_manager(ctx, man, model)


def cases(tier):
    k = 3 if tier == "quick" else 4
    out = [{"name": "separate", "fn": separate, "args": {}, "covers": ["end"]}]
    for miss in [None] + PARAMS:
        out.append({"name": "construct_%s" % miss, "fn": construct, "args": {"missing": miss},
                    "covers": ["rejected"] + ([] if miss else ["accepted"])})
    for miss in [None] + P_PARAMS:
        out.append({"name": "passenger_%s" % miss, "fn": passenger, "args": {"missing": miss},
                    "covers": ["rejected"] + ([] if miss else ["accepted"])})
    for kind, names in (("mode", PARAMS), ("passenger", P_PARAMS)):
        for a in names:
            out.append({"name": "assign_%s_%s" % (kind, a), "fn": assign, "args": {"kind": kind, "attr": a},
                        "covers": ["accepted", "rejected"]})
    for default in (False, True):
        for f in range(11):
            out.append({"name": "manager_%s_%d" % (default, f), "fn": manager,
                        "args": {"k": k, "default": default, "first": f}, "covers": ["valid", "invalid"]})
    return out
