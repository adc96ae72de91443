"""State of one symbolic path: variables, path condition, decisions, obligations."""
import math
import re
import time
from fractions import Fraction

from . import poly as P
from . import solver
from . import sym
from .poly import Poly
from .sym import (SymNum, SymBool, Abort, PathLimit, Divergence, Unsupported, atom, f_not, f_and, f_or, f_vars, f_eval,
                  LT, LE, EQ, NE, GT, GE, ALL, TRUE, FALSE, lift, to_f, mk_bool)

EPS = Fraction(1, 10 ** 25)


class VarInfo:
    __slots__ = ("name", "isint", "lo", "hi", "lo_open", "hi_open", "sig", "definition", "input")

    def __init__(self, name, isint, lo, hi, lo_open=False, hi_open=False, definition=None, inp=False):
        self.name = name
        self.isint = isint
        self.lo = None if lo is None else Fraction(lo)
        self.hi = None if hi is None else Fraction(hi)
        self.lo_open = lo_open
        self.hi_open = hi_open
        self.definition = definition  # ('sqrt', Poly) | ('cos', SymNum) | ('sin', SymNum) | ('floor', SymNum) | ...
        self.input = inp
        self.sig = (name, isint, self.lo, self.hi, lo_open, hi_open, str(definition) if definition else None)


class Limits:
    max_decisions = 4000
    path_seconds = 120.0
    query_budget = 20.0


class PathState:
    def __init__(self, prefix, limits=Limits):
        P.reset_rules()
        self.prefix = list(prefix)
        self.limits = limits
        self.infos = []
        self.bounds = {}
        self.defs = {}
        self.pc = []
        self.signs = {}
        self.taken = []  # decisions taken: ints
        self.alts = []  # prefixes to explore
        self.inputs = []  # (name, kind, payload)
        self.models = []
        self.obligations = []
        self.covers = set()
        self.sqrt_cache = {}
        self.trig_cache = {}
        self.floor_cache = {}
        self.by_equality = False    # unknown integers meet only one another in sets and dictionaries
        self._reached = {}
        self.round_cache = {}
        self.texts = {}
        self.cos_sin = []
        self.pi_sym = None
        self.flags = set()
        self.t0 = time.time()
        self.branches = 0
        self.unknown_branches = 0
        self.stats = {"decided_free": 0}
        self.vars_count = 0
        self.name_count = {}

    # ------------------------------------------------------------------ variables
    def name_of(self, i):
        return self.infos[i].name

    def new_var(self, name, isint, lo, hi, lo_open=False, hi_open=False, definition=None, inp=False):
        i = len(self.infos)
        self.infos.append(VarInfo(name, isint, lo, hi, lo_open, hi_open, definition, inp))
        self.bounds[i] = (self.infos[i].lo, self.infos[i].hi)
        if lo_open and lo is not None:
            self.signs[Poly.var(i).sub(Poly.const(lo))] = GT
        if hi_open and hi is not None:
            self.signs[Poly.var(i).sub(Poly.const(hi))] = LT
        return i

    def unique(self, name):
        n = self.name_count.get(name, 0)
        self.name_count[name] = n + 1
        return name if n == 0 else "%s~%d" % (name, n)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        name = self.unique(name)
        i = self.new_var(name, False, lo, hi, lo_open, hi_open, inp=True)
        self.inputs.append((name, "real", i))
        return SymNum(Poly.var(i))

    def int(self, name, lo, hi):
        name = self.unique(name)
        i = self.new_var(name, True, lo, hi, inp=True)
        self.inputs.append((name, "int", i))
        return SymNum(Poly.var(i), (), True)

    def choice(self, name, n):
        name = self.unique(name)
        k = self.take(n, ("choice", name))
        self.inputs.append((name, "choice", k))
        return k

    def pi(self):
        if self.pi_sym is None:
            i = self.new_var("pi", False, Fraction("3.14159265358"), Fraction("3.14159265359"),
                             definition=("const", "pi"))
            self.pi_sym = SymNum(Poly.var(i))
        return self.pi_sym

    def const_sqrt(self, n):
        return SymNum(Poly.var(self.sqrt_atom(Poly.const(n))))

    def sqrt_atom(self, p):
        i = self.sqrt_cache.get(p)
        if i is None:
            if p.is_const():
                a = sym.approx_sqrt(p.const_value(), 12)
                lo, hi = a, a + Fraction(1, 10 ** 11)
            else:
                l, h = p.interval(self.bounds)
                lo = Fraction(0) if l is None or l <= 0 else sym.approx_sqrt(l, 6)
                hi = None if h is None else sym.approx_sqrt(max(h, Fraction(0)), 6) + Fraction(1, 10 ** 5)
            i = self.new_var("sqrt(%s)" % p.show(self.name_of), False, lo, hi, definition=("sqrt", p))
            P.RULES[i] = p
            self.defs[i] = [atom(_raw_square(i).sub(p), EQ)]
            self.sqrt_cache[p] = i
        return i

    def trig_atom(self, d):
        """cos/sin atoms of an angle given in degrees"""
        key = d.key()
        r = self.trig_cache.get(key)
        if r is None:
            k = d.const()
            nm = str(k) if k is not None else d.show()
            if k is not None:
                cv, sv = sym._math_cos(math.pi * float(k) / 180), sym._math_sin(math.pi * float(k) / 180)
                e = Fraction(1, 10 ** 12)
                cb = (Fraction(cv) - e, Fraction(cv) + e)
                sb = (Fraction(sv) - e, Fraction(sv) + e)
            else:
                cb = sb = (-1, 1)
            c = self.new_var("cos(%s)" % nm, False, cb[0], cb[1], definition=("cos", d))
            s = self.new_var("sin(%s)" % nm, False, sb[0], sb[1], definition=("sin", d))
            P.RULES[s] = Poly.const(1).sub(Poly.var(c).mul(Poly.var(c)))
            f = atom(_raw_square(s).add(_raw_square(c)).sub(Poly.const(1)), EQ)
            self.defs[c] = [f]
            self.defs[s] = [f]
            r = (SymNum(Poly.var(c)), SymNum(Poly.var(s)))
            self.trig_cache[key] = r
            self.cos_sin.append((d, r))
        return r

    def known_angles(self):
        out = list(self.cos_sin)
        for n, deg in ((3, 30), (2, 45), (3, 60)):
            if Poly.const(n) in self.sqrt_cache:
                h = self.const_sqrt(n) / 2
                half = lift(Fraction(1, 2))
                out.append((lift(deg), {30: (h, half), 45: (h, h), 60: (half, h)}[deg]))
        out.append((lift(60), (lift(Fraction(1, 2)), lift(Fraction(5)))))
        return out

    def aux_int(self, kind, x):
        """integer k with k <= x < k+1"""
        lo = hi = None
        if not x.den:
            lo, hi = x.num.interval(self.bounds)
            lo = None if lo is None else math.floor(lo)
            hi = None if hi is None else math.floor(hi)
        i = self.new_var("floor(%s)" % x.show(), True, lo, hi, definition=("floor", x))
        k = SymNum(Poly.var(i), (), False)
        self.defs[i] = [atom((k - x).num, LE), atom((k + 1 - x).num, GT)]
        return i

    def rounded(self, x, nd, to_int):
        key = (x.key(), nd)
        r = self.round_cache.get(key)
        if r is None:
            h = Fraction(1, 2 * 10 ** nd)
            lo = hi = None
            if not x.den:
                lo, hi = x.num.interval(self.bounds)
                lo = None if lo is None else lo - h
                hi = None if hi is None else hi + h
            i = self.new_var("round%d(%s)" % (nd, x.show()), bool(to_int), lo, hi, definition=("round", x, nd))
            r = SymNum(Poly.var(i), (), bool(to_int))
            y = SymNum(Poly.var(i))
            self.defs[i] = [atom((y - x - h).num, LE), atom((y - x + h).num, GE)]
            self.round_cache[key] = r
        return r

    def significant(self, x, d):
        """x written with d significant digits"""
        key = (x.key(), "sig", d)
        r = self.round_cache.get(key)
        if r is None:
            h = Fraction(1, 2 * 10 ** (d - 1))
            neg = bool(x < 0)
            i = self.new_var("sig%d(%s)" % (d, x.show()), False, None, None, definition=("sig", x, d))
            r = y = SymNum(Poly.var(i))
            lo, hi = (1 + h, 1 - h) if neg else (1 - h, 1 + h)
            self.defs[i] = [atom((y - x * lo).num, GE), atom((y - x * hi).num, LE)]
            self.round_cache[key] = r
        return r

    # ------------------------------------------------------------------ text
    SPEC = re.compile(r"(?:.?[<>=^])?[-+ ]?z?#?0?\d*([,_]?)(?:\.(\d+))?([a-zA-Z%]?)")

    def format(self, x, spec):
        m = self.SPEC.fullmatch(spec)
        if spec in ("", "s", "r"):
            return self.token(x)
        if not m or m.group(3) not in ("", "f", "F", "g", "G", "n", "e", "E", "%"):
            raise ValueError("format spec %r" % spec)
        sep, kind = m.group(1), m.group(3)
        d = None if m.group(2) is None else int(m.group(2))
        end = ""
        if kind == "%":
            x, kind, end = x * 100, "f", "%"
        if kind in ("f", "F"):
            y = self.rounded(x, 6 if d is None else d, False)
        elif kind in ("e", "E"):
            y = self.significant(x, 7 if d is None else d + 1)
        elif d is None and not kind:
            y = x
        else:
            y = self.significant(x, max(6 if d is None else d, 1))
        t = self.token(y, kind in ("e", "E") or d != 0)
        if sep and (y >= 1000 or y <= -1000):
            t = t[:-1] + sep + t[-1]        # not the text of a number any more
        return t + end

    def token(self, y, point=True):
        """the text standing for a number; the same number has the same text"""
        point = ".0" if point and not y.isint else ""
        for n, x in self.texts.items():
            if x.num == y.num and x.den == y.den and x.isint == y.isint:
                return "@%d%s@" % (n, point)
        n = len(self.texts)
        self.texts[n] = y
        return "@%d%s@" % (n, point)

    def parse_text(self, s):
        m = re.fullmatch(r"@(\d+)(?:\.0)?@", s.strip())
        return self.texts[int(m.group(1))] if m else None

    # ------------------------------------------------------------------ decisions
    def simplify(self, f):
        k = f[0]
        if k == "a":
            s = self.sign_set(f[1])
            a = s & f[2]
            if not a:
                return FALSE
            if s <= f[2]:
                return TRUE
            return f
        if k == "and":
            return f_and(*[self.simplify(x) for x in f[1]])
        if k == "or":
            return f_or(*[self.simplify(x) for x in f[1]])
        return f

    def sign_set(self, q):
        s = self.signs.get(q, ALL)
        if len(s) > 1:
            lo, hi = q.interval(self.bounds)
            if lo is not None:
                if lo > 0:
                    return GT
                if lo == 0:
                    s = s & GE
                    if s == GE and self._strict_pos(q):
                        s = GT
            if hi is not None:
                if hi < 0:
                    return LT
                if hi == 0:
                    s = s & LE
        return s

    def _strict_pos(self, q):
        """every monomial nonnegative and one strictly positive (by recorded signs of its variables)"""
        strict = False
        for m, c in q.t.items():
            if c < 0:
                return False
            for v, _ in m:
                lo = self.bounds.get(v, (None, None))[0]
                if lo is None or lo < 0:
                    return False
            if all(self.bounds[v][0] > 0 or self.signs.get(Poly.var(v)) == GT for v, _ in m):
                strict = True
        return strict

    def assert_lit(self, f, record=True):
        f = self.simplify(f)
        if f is TRUE:
            return
        if f[0] == "and":
            for x in f[1]:
                self.assert_lit(x)
            return
        if f[0] == "a":
            q = f[1]
            self.signs[q] = self.signs.get(q, ALL) & f[2]
            vs = q.vars()
            if len(vs) == 1 and q.degree() == 1:
                (v,) = vs
                c = -q.t.get((), Fraction(0))  # v - (-c)
                lo, hi = self.bounds[v]
                isint = self.infos[v].isint
                s = self.signs[q]
                if s <= GE:
                    x = c
                    if isint:
                        x = Fraction(math.floor(c) + 1) if s == GT else Fraction(math.ceil(c))
                    lo = x if lo is None or x > lo else lo
                if s <= LE:
                    x = c
                    if isint:
                        x = Fraction(math.ceil(c) - 1) if s == LT else Fraction(math.floor(c))
                    hi = x if hi is None or x < hi else hi
                self.bounds[v] = (lo, hi)
        self.pc.append(f)
        if self.models:
            self.models = [m for m in self.models if self.holds(f, m)]

    def holds(self, f, m):
        """value of f in a model (completed for variables introduced after it was found)"""
        try:
            return f_eval(f, m, EPS)
        except KeyError:
            try:
                self.complete(m)
                return f_eval(f, m, EPS)
            except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                return None

    def slice(self, f):
        """literals of the path condition connected with f by shared variables"""
        want = set(f_vars(f))
        grow = True
        for v in list(want):
            self._close_defs(v, want)
        rest = list(self.pc)
        out = []
        while grow:
            grow = False
            nxt = []
            for g in rest:
                vs = self._reach(g)
                if vs & want:
                    out.append(g)
                    for v in vs:
                        if v not in want:
                            self._close_defs(v, want)
                    grow = True
                else:
                    nxt.append(g)
            rest = nxt
        return out

    def _reach(self, g):
        """variables of a literal and those its roundings and floors are taken of"""
        vs = self._reached.get(g)
        if vs is None:
            vs = set(f_vars(g))
            stack = [v for v in vs if self.infos[v].definition is not None]
            while stack:
                v = stack.pop()
                d = self.infos[v].definition
                if d is None or d[0] not in ("floor", "round", "sig"):
                    continue
                for q in self.defs.get(v, ()):
                    for y in f_vars(q):
                        if y not in vs:
                            vs.add(y)
                            stack.append(y)
            self._reached[g] = vs
        return vs

    def _close_defs(self, v, want):
        stack = [v]
        while stack:
            x = stack.pop()
            if x in want and x != v:
                continue
            want.add(x)
            for d in self.defs.get(x, ()):
                for y in f_vars(d):
                    if y not in want:
                        stack.append(y)

    def query(self, f, budget=None):
        """status of pc & f; a sat model is recorded (completed by an existing model when there is one)"""
        if time.time() - self.t0 > self.limits.path_seconds:
            raise PathLimit("path time")
        lits = self.slice(f) + [f]
        st, m = solver.check(self.infos, self.defs, lits, budget or self.limits.query_budget)
        return st, m

    def full_model(self, base):
        """complete a slice model to the whole path condition"""
        env = dict(base)
        for g in self.pc:
            vs = self._reach(g)
            if vs and not vs & env.keys():
                st, m = solver.check(self.infos, self.defs, self.slice(g), self.limits.query_budget)
                if st == "sat":
                    for k, v in m.items():
                        env.setdefault(k, v)
        self.complete(env)
        return env

    def complete(self, env):
        for i, vi in enumerate(self.infos):
            if i not in env and vi.definition is None:
                env[i] = self.default_value(i)
        for i, vi in enumerate(self.infos):
            if vi.definition is not None and i not in env:
                env[i] = self.eval_def(vi.definition, env)
        return env

    def default_value(self, i):
        vi = self.infos[i]
        lo, hi = vi.lo, vi.hi
        if lo is not None and hi is not None:
            return lo if vi.isint else (lo + hi) / 2
        if lo is not None:
            return lo + 1
        if hi is not None:
            return hi - 1
        return Fraction(1)

    def eval_num(self, x, env):
        n = x.num.eval(env)
        for q, e in x.den:
            n = n / q.eval(env) ** e
        return n

    def eval_def(self, d, env):
        k = d[0]
        if k == "sqrt":
            v = d[1].eval(env)
            r = sym.frac_sqrt(v)
            return r if r is not None else sym.approx_sqrt(max(v, Fraction(0)))
        if k in ("cos", "sin"):
            a = float(self.eval_num(d[1], env)) * math.pi / 180
            return Fraction(sym._math_cos(a) if k == "cos" else sym._math_sin(a))
        if k == "floor":
            return Fraction(math.floor(self.eval_num(d[1], env)))
        if k == "sig":
            return Fraction("%.*g" % (d[2], float(self.eval_num(d[1], env))))
        if k == "round":
            return Fraction(str(round(float(self.eval_num(d[1], env)), d[2])))
        return Fraction(math.pi)

    def take(self, n, tag):
        """n-ary structural decision"""
        pos = len(self.taken)
        if pos < len(self.prefix):
            k = self.prefix[pos]
            if not (0 <= k < n):
                raise Divergence("choice out of range")
            self.taken.append(k)
            return k
        for k in range(n - 1, 0, -1):
            self.alts.append(self.taken + [k])
        self.taken.append(0)
        return 0

    def decide(self, f):
        f = self.simplify(f)
        if f is TRUE:
            self.stats["decided_free"] += 1
            return True
        if f is FALSE:
            self.stats["decided_free"] += 1
            return False
        pos = len(self.taken)
        if pos < len(self.prefix):
            k = self.prefix[pos]
            if k in (2, 3):  # recorded as implied by the path condition
                self.taken.append(k)
                self.assert_implied(f if k == 2 else f_not(f))
                return k == 2
            if k not in (0, 1):
                raise Divergence("branch expected")
            self.taken.append(k)
            self.assert_lit(f if k == 0 else f_not(f))
            return k == 0
        if pos > self.limits.max_decisions:
            raise PathLimit("decisions")
        nf = f_not(f)
        can_t = can_f = None
        for m in self.models:
            v = self.holds(f, m)
            if v is True:
                can_t = True
            elif v is False:
                can_f = True
            if can_t and can_f:
                break
        newm = []
        if can_t is None:
            st, m = self.query(f)
            can_t = st != "unsat"
            if st == "unknown":
                self.unknown_branches += 1
            if m is not None:
                newm.append(m)
        if can_f is None:
            if not can_t:
                can_f = True
            else:
                st, m = self.query(nf)
                can_f = st != "unsat"
                if st == "unknown":
                    self.unknown_branches += 1
                if m is not None:
                    newm.append(m)
        if can_t and can_f:
            self.branches += 1
            self.alts.append(self.taken + [1])
            self.taken.append(0)
            self._keep(newm, f)
            self.assert_lit(f)
            return True
        if can_t:
            self.taken.append(2)
            self.assert_implied(f)
            self._keep(newm, f)
            return True
        self.taken.append(3)
        self.assert_implied(nf)
        self._keep(newm, nf)
        return False

    def assert_implied(self, f):
        """a literal that follows from the path condition: remembered for sign knowledge, not sent to the solver"""
        f = self.simplify(f)
        if f[0] == "a":
            self.signs[f[1]] = self.signs.get(f[1], ALL) & f[2]

    def _keep(self, ms, f):
        for m in ms:
            env = dict(m)
            base = self.models[-1] if self.models else None
            if base:
                for k, v in base.items():
                    env.setdefault(k, v)
            try:
                self.complete(env)
                ok = all(f_eval(g, env, EPS) for g in self.pc) and f_eval(f, env, EPS)
            except Exception:
                ok = False
            if ok:
                self.models.append(env)
        if len(self.models) > 6:
            self.models = self.models[-6:]

    def assume(self, c):
        f = self.simplify(to_f(c))
        if f is TRUE:
            return
        if f is FALSE:
            raise Abort()
        pos = len(self.taken)
        if pos < len(self.prefix):
            if self.prefix[pos] not in (4, 5):
                raise Divergence("assume expected")
            self.taken.append(self.prefix[pos])
            self.assert_lit(f)
            return
        ok = False
        for m in self.models:
            if self.holds(f, m):
                ok = True
                break
        if not ok:
            st, m = self.query(f)
            if st == "unsat":
                raise Abort()
            if st == "unknown":
                self.unknown_branches += 1
            self.taken.append(4)
            self._keep([m] if m else [], f)
        else:
            self.taken.append(4)
        self.assert_lit(f)

    # ------------------------------------------------------------------ concretisation
    def wide(self, x):
        lo, hi = x.num.interval(self.bounds)
        return lo is None or hi is None or hi - lo > 5000

    def concretise_int(self, x):
        lo, hi = x.num.interval(self.bounds)
        if lo is None or hi is None or hi - lo > 5000:
            raise Unsupported("unbounded symbolic integer used as a concrete one: %s" % x.show())
        for v in range(math.ceil(lo), math.floor(hi) + 1):
            if self.decide(atom(x.num.sub(Poly.const(v)), EQ)):
                return v
        raise Abort()

    def concretise_real(self, x):
        """one model value only: the run says so and claims nothing about the others"""
        self.flags.add("concretised")
        pos = len(self.taken)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            if not isinstance(v, Fraction):
                raise Divergence("concretisation expected")
        else:
            env = None
            for m in self.models:
                env = m
            if env is None:
                st, m = self.query(atom(x.num, ALL) if False else f_or(atom(x.num, GE), atom(x.num, LT)))
                env = self.full_model(m or {})
            env = self.complete(dict(env))
            v = self.eval_num(x, env)
        self.taken.append(v)
        self.assert_lit(atom((x - v).num, EQ))
        return float(v)

    # ------------------------------------------------------------------ obligations
    def check(self, label, c):
        self.obligations.append((label, f_not(to_f(c))))


def _raw_square(i):
    return Poly({((i, 2),): Fraction(1)})
