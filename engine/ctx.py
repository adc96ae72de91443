"""The harness interface, in its symbolic and its concrete version."""
import math
import os
import shutil
import tempfile
from fractions import Fraction

from . import sym

INF = float("inf")
ENGINE = os.path.dirname(os.path.realpath(__file__)) + os.sep


class BaseCtx:
    scratch_root = None

    def flag(self, name):
        return self.choice(name, [False, True])

    def tmp(self):
        d = tempfile.mkdtemp(prefix="sx_", dir=self.scratch_root)
        self._tmps.append(d)
        return d

    def cleanup(self):
        for d in self._tmps:
            shutil.rmtree(d, ignore_errors=True)
        self._tmps = []

    def attempt(self, fn, *a, **k):
        """(value, exception) of a call"""
        try:
            return fn(*a, **k), None
        except Exception as e:
            if self.symbolic and isinstance(e, (LookupError, AttributeError, AssertionError, NameError)):
                tb = e.__traceback__
                while tb.tb_next:
                    tb = tb.tb_next
                if tb.tb_frame.f_code.co_filename.startswith(ENGINE):
                    raise sym.Unsupported("engine failure: %s: %s" % (type(e).__name__, e))
            return None, e

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def eq_seq(self, label, a, b, tol=1e-6):
        if len(a) != len(b):
            self.check(label, False)
        else:
            for x, y in zip(a, b):
                self.eq(label, x, y, tol)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, st):
        self.st = st
        self._tmps = []

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return self.st.real(name, None if lo is None else sym.nice(lo), None if hi is None else sym.nice(hi), lo_open,
                            hi_open)

    def int(self, name, lo, hi):
        return self.st.int(name, lo, hi)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.st.choice(name, len(options))]

    def assume(self, c):
        self.st.assume(c)

    def check(self, label, c):
        self.st.check(label, c)

    def cover(self, label):
        self.st.covers.add(label)

    def by_equality(self):
        """the case uses no concrete integers beside the unknown ones: sets and dictionaries compare instead of enumerating"""
        self.st.by_equality = True

    def And(self, *cs):
        return sym.mk_bool(sym.f_and(*[sym.to_f(c) for c in cs]))

    def Or(self, *cs):
        return sym.mk_bool(sym.f_or(*[sym.to_f(c) for c in cs]))

    def Not(self, c):
        return sym.mk_bool(sym.f_not(sym.to_f(c)))

    def eq(self, label, a, b, tol=1e-6):
        d = _special(a, b)
        if d is not None:
            self.check(label, d)
            return
        d = sym.lift(a) - b if sym.lift(a) is not None else None
        if d is None:
            self.check(label, False)
            return
        self.check(label, self.And(d <= tol, d >= -tol))

    def le(self, label, a, b, tol=1e-6):
        if a == INF or b == INF or a != a or b != b:
            self.check(label, not (a != a or b != b) and (b == INF))
            return
        self.check(label, sym.lift(a) - b <= tol)

    def same(self, a, b):
        """exact equality as a formula (numbers)"""
        r = sym.lift(a) == b
        return r

    def text(self, x):
        if isinstance(x, sym.SymNum):
            c = x.const()
            if c is None:
                return self.st.token(x)
            return repr(float(c)) if not x.isint else str(int(c))
        return str(x)

    def number(self, s):
        """the number a piece of text denotes"""
        y = self.st.parse_text(s)
        return float(s) if y is None else y


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, values, mode="float"):
        self.values = values
        self.mode = mode
        self.violations = []
        self.covers = set()
        self.counts = {}
        self._tmps = []
        self.checked = 0

    def _get(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        key = name if n == 0 else "%s~%d" % (name, n)
        if key not in self.values:
            raise KeyError("replay input %s missing" % key)
        return self.values[key]

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = Fraction(self._get(name))
        if self.mode == "fraction":
            return v
        return float(v)

    def int(self, name, lo, hi):
        return int(self._get(name))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name))]

    def assume(self, c):
        if not c:
            raise sym.Abort()

    def check(self, label, c):
        self.checked += 1
        if not c:
            self.violations.append(label)

    def cover(self, label):
        self.covers.add(label)

    def by_equality(self):
        pass

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def eq(self, label, a, b, tol=1e-6):
        d = _special(a, b)
        if d is not None:
            self.check(label, d)
            return
        try:
            d = abs(a - b)
        except TypeError:
            self.check(label, False)
            return
        self.check(label, d <= 0.5 * tol + 1e-9 * max(abs(a), abs(b)))

    def le(self, label, a, b, tol=1e-6):
        if a != a or b != b:
            self.check(label, False)
            return
        if a == INF or b == INF:
            self.check(label, b == INF)
            return
        self.check(label, a - b <= 0.5 * tol + 1e-9 * max(abs(a), abs(b)))

    def same(self, a, b):
        return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))

    def text(self, x):
        return repr(float(x)) if isinstance(x, Fraction) else repr(x) if isinstance(x, float) else str(x)

    def number(self, s):
        return float(s)


def _special(a, b):
    """comparison when one side is None, infinite or not a number; None if both are ordinary"""
    if a is None or b is None:
        return a is b
    for x in (a, b):
        if isinstance(x, float) and (math.isnan(x)):
            return False
    ia = isinstance(a, float) and math.isinf(a)
    ib = isinstance(b, float) and math.isinf(b)
    if ia or ib:
        return ia and ib and a == b
    return None
