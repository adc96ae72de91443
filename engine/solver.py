"""Satisfiability of conjunctions of literals: z3 first, other configurations and cvc5 as fall-backs."""
import time
from fractions import Fraction

import z3

from .sym import f_vars, LT, LE, EQ, NE, GT, GE

STATS = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0, "cached": 0, "nonlinear": 0, "fallback": 0,
         "max": 0.0}

CACHE = {}


class Query:
    """variables: list of VarInfo (see state.py); lits: formulas"""

    def __init__(self, infos):
        self.infos = infos
        self.z = {}

    def var(self, i):
        x = self.z.get(i)
        if x is None:
            vi = self.infos[i]
            x = z3.Int("v%d" % i) if vi.isint else z3.Real("v%d" % i)
            self.z[i] = x
        return x

    def poly(self, p, ints):
        terms = []
        for m, c in p.t.items():
            fs = []
            for v, e in m:
                x = self.var(v)
                if self.infos[v].isint and not ints:
                    x = z3.ToReal(x)
                fs.extend([x] * e)
            if ints:
                k = z3.IntVal(int(c))
            else:
                k = z3.RealVal(str(c))
            if not fs:
                terms.append(k)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t if c == 1 else k * t)
        if not terms:
            return z3.IntVal(0) if ints else z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def atom(self, p, allowed):
        ints = all(self.infos[v].isint for v in p.vars())
        if ints:
            l = 1
            for c in p.t.values():
                l = l * c.denominator // __import__("math").gcd(l, c.denominator)
            p = p.scale(l)
        e = self.poly(p, ints)
        zero = 0
        if allowed == LT:
            return e < zero
        if allowed == LE:
            return e <= zero
        if allowed == EQ:
            return e == zero
        if allowed == NE:
            return e != zero
        if allowed == GT:
            return e > zero
        if allowed == GE:
            return e >= zero
        return z3.BoolVal(len(allowed) == 3)

    def formula(self, f):
        k = f[0]
        if k == "T":
            return z3.BoolVal(True)
        if k == "F":
            return z3.BoolVal(False)
        if k == "a":
            return self.atom(f[1], f[2])
        if k == "and":
            return z3.And([self.formula(x) for x in f[1]])
        return z3.Or([self.formula(x) for x in f[1]])

    def bounds(self, i):
        vi = self.infos[i]
        x = self.var(i)
        out = []

        def k(v):
            return z3.IntVal(int(v)) if vi.isint else z3.RealVal(str(v))
        if vi.lo is not None:
            out.append(x > k(vi.lo) if vi.lo_open else x >= k(vi.lo))
        if vi.hi is not None:
            out.append(x < k(vi.hi) if vi.hi_open else x <= k(vi.hi))
        return out


def model_value(m, x):
    v = m.eval(x, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def _mk(kind, timeout):
    if kind == "nra":
        s = z3.SolverFor("QF_NRA")
    elif kind == "lra":
        s = z3.SolverFor("QF_LRA")
    elif kind == "simple":
        s = z3.Then("simplify", "solve-eqs", "smt").solver()
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    return s


def _cvc5(exprs, timeout):
    try:
        import cvc5
    except Exception:
        return "unknown"
    try:
        s = z3.Solver()
        s.add(*exprs)
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        slv.setOption("nl-cov", "true")
        slv.setLogic("QF_NIRA" if "Int" in txt else "QF_NRA")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = parser.getSymbolManager()
        res = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = str(cmd.invoke(slv, sm)).strip()
            if out in ("sat", "unsat"):
                res = out
            if "(error" in out:
                return "unknown"
        return res
    except Exception:
        return "unknown"


def check(infos, defs, lits, budget=20.0):
    """lits: iterable of formulas. Returns (status, {var: Fraction} or None).

    The caller passes only literals connected by shared variables (slicing); `defs[i]` lists extra formulas that
    define auxiliary variable i (square roots, sines, floors)."""
    lits = list(lits)
    used = set()
    work = []
    for f in lits:
        work.extend(f_vars(f))
    extra = []
    seen_defs = set()
    while work:
        v = work.pop()
        if v in used:
            continue
        used.add(v)
        for f in defs.get(v, ()):
            if f not in seen_defs:
                seen_defs.add(f)
                extra.append(f)
                work.extend(f_vars(f))
    key = frozenset(lits)
    hit = CACHE.get(key)
    if hit is not None:
        # variable indices are allocated deterministically along a path, but different paths may use one index for
        # different variables: the variables' identities are part of the key check
        sig = tuple(sorted((v, infos[v].sig) for v in used))
        for s, st, m in hit:
            if s == sig:
                STATS["cached"] += 1
                return st, m
    else:
        sig = tuple(sorted((v, infos[v].sig) for v in used))
    t0 = time.time()
    q = Query(infos)
    exprs = [q.formula(f) for f in lits] + [q.formula(f) for f in extra]
    for v in sorted(used):
        exprs.extend(q.bounds(v))
    nonlin = any(_deg(f) > 1 for f in lits + extra)
    anyint = any(infos[v].isint for v in used)
    STATS["queries"] += 1
    if nonlin:
        STATS["nonlinear"] += 1
        plan = [("smt", 0.5), ("smt", 3.0), ("smt", budget)] if anyint else \
            [("smt", 0.3), ("nra", 3.0), ("smt", 5.0), ("cvc5", 8.0), ("nra", budget)]
    else:
        plan = [("smt", 5.0), ("smt", budget)]
    if budget <= 2:
        plan = [("smt", 0.3), ("nra", budget)]
    res, model = "unknown", None
    for n, (kind, to) in enumerate(plan):
        if n:
            STATS["fallback"] += 1
        if kind == "cvc5":
            r = _cvc5(exprs, to)
            if r == "unsat":
                res = r
                break
            continue
        s = _mk(kind, to)
        s.add(*exprs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            res = "unsat"
            break
        if r == z3.sat:
            res = "sat"
            m = s.model()
            model = {}
            for v in used:
                x = model_value(m, q.var(v))
                model[v] = Fraction(0) if x is None else x
            break
    dt = time.time() - t0
    STATS["time"] += dt
    STATS["max"] = max(STATS["max"], dt)
    STATS[res] += 1
    if res != "unknown":
        CACHE.setdefault(key, []).append((sig, res, model))
        if len(CACHE) > 60000:
            CACHE.clear()
    return res, model


def _deg(f):
    if f[0] == "a":
        return f[1].degree()
    if f[0] in ("and", "or"):
        return max(_deg(x) for x in f[1])
    return 0
