"""Symbolic values, formulas and the per-path symbolic state.

The real code of the repository is executed by the ordinary Python interpreter with these values in place of
numbers. Every branch on a symbolic condition asks the solver which sides are feasible under the path condition;
one side is taken, the other is handed back as a new decision prefix that is re-executed from the start.
"""
import builtins
import itertools
import math as _math
from fractions import Fraction

from . import poly as P
from .poly import Poly

real_float = builtins.float
real_int = builtins.int
real_isinstance = builtins.isinstance

INF = real_float("inf")

CUR = None  # current PathState


class Abort(BaseException):
    """the path violates an assumption and is dropped"""


class PathLimit(BaseException):
    """a resource bound of the exploration was hit: the run is inconclusive, never a success"""


class Divergence(BaseException):
    """re-execution took another course than recorded (internal error)"""


class Unsupported(BaseException):
    """the code did something with a symbolic value that the encoding cannot represent"""


# ---------------------------------------------------------------------------------------------- formulas
TRUE = ("T",)
FALSE = ("F",)
LT = frozenset((-1,))
LE = frozenset((-1, 0))
EQ = frozenset((0,))
NE = frozenset((-1, 1))
GT = frozenset((1,))
GE = frozenset((0, 1))
ALL = frozenset((-1, 0, 1))
_flip = {s: frozenset(-x for x in s) for s in (LT, LE, EQ, NE, GT, GE, ALL)}


def _sgn(x):
    return (x > 0) - (x < 0)


def atom(p, allowed):
    if p.is_const():
        return TRUE if _sgn(p.const_value()) in allowed else FALSE
    q, k = p.monic()
    if k < 0:
        allowed = _flip[allowed]
    return ("a", q, allowed)


def f_not(f):
    k = f[0]
    if k == "T":
        return FALSE
    if k == "F":
        return TRUE
    if k == "a":
        return ("a", f[1], ALL - f[2])
    if k == "and":
        return f_or(*[f_not(x) for x in f[1]])
    return f_and(*[f_not(x) for x in f[1]])


def f_and(*fs):
    out = []
    for f in fs:
        if f[0] == "F":
            return FALSE
        if f[0] == "T":
            continue
        if f[0] == "and":
            out.extend(f[1])
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else ("and", tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f[0] == "T":
            return TRUE
        if f[0] == "F":
            continue
        if f[0] == "or":
            out.extend(f[1])
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else ("or", tuple(out))


def f_vars(f):
    if f[0] == "a":
        return f[1].vars()
    if f[0] in ("and", "or"):
        return frozenset().union(*[f_vars(x) for x in f[1]])
    return frozenset()


def f_eval(f, env, eps):
    """True/False under env; None when a value is too close to zero to call with approximate values"""
    k = f[0]
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "a":
        v = f[1].eval(env)
        if eps and v != 0 and abs(v) < eps:
            return None
        if eps and v == 0 and 0 in f[2] and len(f[2]) == 1:
            return True
        return _sgn(v) in f[2]
    vals = [f_eval(x, env, eps) for x in f[1]]
    if k == "and":
        if False in vals:
            return False
        return None if None in vals else True
    if True in vals:
        return True
    return None if None in vals else False


def f_show(f, names):
    k = f[0]
    if k in "TF":
        return "true" if k == "T" else "false"
    if k == "a":
        op = {LT: "<", LE: "<=", EQ: "==", NE: "!=", GT: ">", GE: ">="}.get(f[2], "?")
        return "%s %s 0" % (f[1].show(names), op)
    return "(" + (" & " if k == "and" else " | ").join(f_show(x, names) for x in f[1]) + ")"


# ---------------------------------------------------------------------------------------------- numbers
def nice(x):
    """the rational a float literal stands for: 0.1 -> 1/10, 1/24 -> 1/24"""
    if real_isinstance(x, (real_int, Fraction)):
        return Fraction(x)
    x = real_float(x)
    if x != x or x in (INF, -INF):
        raise Unsupported("non-finite constant %r" % x)
    r = repr(x)
    if len(r.replace("-", "").replace(".", "").lstrip("0")) <= 12:
        return Fraction(r)
    f = Fraction(x)
    g = f.limit_denominator(100000)
    if abs(f - g) <= abs(f) * Fraction(1, 10 ** 15):
        return g
    return f


def is_num(x):
    return real_isinstance(x, (real_int, real_float, Fraction)) or type(x).__module__ == "numpy" and hasattr(x, "item")


def _isinf(x):
    return real_isinstance(x, real_float) and x in (INF, -INF)


def lift(x):
    if real_isinstance(x, SymNum):
        return x
    if real_isinstance(x, SymBool):
        return x.as_num()
    if real_isinstance(x, bool):
        x = real_int(x)
    if type(x).__module__ == "numpy" and hasattr(x, "item") and not getattr(x, "ndim", 0):
        x = x.item()
        if real_isinstance(x, SymNum):
            return x
    if real_isinstance(x, (real_int, Fraction, real_float)):
        return SymNum(Poly.const(nice(x)), (), real_isinstance(x, real_int))
    return None


def _fmul(a, b):
    d = dict(a)
    for q, e in b:
        d[q] = d.get(q, 0) + e
    return tuple(sorted(d.items(), key=lambda it: repr(sorted(it[0].t.items()))))


def den_poly(den):
    r = Poly.const(1)
    for q, e in den:
        r = r.mul(q.pow(e))
    return r


def make(num, den, isint=False):
    """cancel common factors and build the number"""
    if den:
        if num.is_zero():
            den = ()
        else:
            out = []
            for q, e in den:
                while e:
                    if len(num.t) > 600:
                        break
                    r = num.divexact(q)
                    if r is None:
                        break
                    num = r
                    e -= 1
                if e:
                    out.append((q, e))
            den = tuple(out)
    return SymNum(num, den, isint)


class SymNum:
    """num / prod(den), every den factor known positive on the current path"""
    __slots__ = ("num", "den", "isint", "nn")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, num, den=(), isint=False):
        self.num = num
        self.den = den
        self.isint = isint
        self.nn = False  # built as a sum of squares

    # -- helpers
    def const(self):
        if not self.den and self.num.is_const():
            return self.num.const_value()
        return None

    def key(self):
        return (self.num, self.den)

    # -- arithmetic
    def _add(self, o, sign):
        if self.den == o.den:
            return make(self.num.add(o.num if sign > 0 else o.num.neg()), self.den, self.isint and o.isint)
        d1, d2 = dict(self.den), dict(o.den)
        l = dict(d1)
        for q, e in d2.items():
            l[q] = max(l.get(q, 0), e)
        m1 = Poly.const(1)
        m2 = Poly.const(1)
        for q, e in l.items():
            if e - d1.get(q, 0):
                m1 = m1.mul(q.pow(e - d1.get(q, 0)))
            if e - d2.get(q, 0):
                m2 = m2.mul(q.pow(e - d2.get(q, 0)))
        n2 = o.num.mul(m2)
        n = self.num.mul(m1).add(n2 if sign > 0 else n2.neg())
        return make(n, _fmul(tuple(l.items()), ()), False)

    def __add__(self, o):
        if _isinf(o):
            return o
        o = lift(o)
        if o is None:
            return NotImplemented
        r = self._add(o, 1)
        if (self.nn or (self.const() or -1) >= 0 or self.num.is_zero()) and \
                (o.nn or (o.const() or -1) >= 0 or o.num.is_zero()) and r is not self:
            r.nn = True
        return r

    __radd__ = __add__

    def __sub__(self, o):
        if _isinf(o):
            return -o
        o = lift(o)
        return NotImplemented if o is None else self._add(o, -1)

    def __rsub__(self, o):
        if _isinf(o):
            return o
        o = lift(o)
        return NotImplemented if o is None else o._add(self, -1)

    def __mul__(self, o):
        if _isinf(o):
            if CUR.decide(atom(self.num, EQ)):
                return real_float("nan")
            return o if CUR.decide(atom(self.num, GT)) else -o
        if real_isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        o = lift(o)
        if o is None:
            return NotImplemented
        r = make(self.num.mul(o.num), _fmul(self.den, o.den) if o.den else self.den, self.isint and o.isint)
        r.nn = self is o or (self.nn and o.nn) or (self.num == o.num and self.den == o.den)
        return r

    __rmul__ = __mul__

    def _inv(self):
        """1/self; forks on zero and sign"""
        c = self.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError("division by zero")
            return SymNum(Poly.const(1 / c))
        if CUR.decide(atom(self.num, EQ)):
            raise ZeroDivisionError("float division by zero")
        n = self.num
        mc = n.mono_content()
        rest = n.div_mono(mc)
        fac = []
        sign = 1
        for v, e in mc:
            q = Poly.var(v)
            if not CUR.decide(atom(q, GT)):
                q = q.neg()
                if e % 2:
                    sign = -sign
            fac.append((q, e))
        q, k = rest.monic()
        if not q.is_const():
            if not CUR.decide(atom(q, GT)):
                q = q.neg()
                sign = -sign
            fac.append((q, 1))
        num = den_poly(self.den).scale(sign / k)
        return make(num, _fmul(tuple(fac), ()))

    def __truediv__(self, o):
        if _isinf(o):
            return SymNum(Poly.const(0))
        o = lift(o)
        if o is None:
            return NotImplemented
        c = o.const()
        if c is not None and c != 0:
            return SymNum(self.num.scale(1 / c), self.den)
        return self * o._inv()

    def __rtruediv__(self, o):
        if _isinf(o):
            if CUR.decide(atom(self.num, EQ)):
                raise ZeroDivisionError("float division by zero")
            return o if CUR.decide(atom(self.num, GT)) else -o
        o = lift(o)
        if o is None:
            return NotImplemented
        return o * self._inv()

    def __neg__(self):
        return SymNum(self.num.neg(), self.den, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        if CUR.decide(atom(self.num, LT)):
            return -self
        return self

    def __pow__(self, n):
        n2 = lift(n)
        if n2 is None:
            return NotImplemented
        c = n2.const()
        if c is None:
            raise Unsupported("symbolic exponent")
        if c.denominator == 1:
            if c >= 0:
                r = make(self.num.pow(real_int(c)), tuple((q, e * real_int(c)) for q, e in self.den if c), self.isint)
                r.nn = c.numerator % 2 == 0 or self.nn
                return r
            return self._inv() ** real_int(-c)
        if c.denominator == 2:
            return sym_sqrt(self, False) ** c.numerator
        raise Unsupported("exponent %s" % c)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def _floor(self):
        c = self.const()
        if c is not None:
            return _math.floor(c)
        if self.isint:
            return self
        st = CUR
        r = st.floor_cache.get(self.key())
        if r is None:
            q = st.aux_int("floor", self)
            r = SymNum(Poly.var(q), (), True)
            st.floor_cache[self.key()] = r
        return r

    def __floor__(self):
        return self._floor()

    def __ceil__(self):
        return -((-self)._floor())

    def __trunc__(self):
        if self.isint:
            return self
        if CUR.decide(atom(self.num, LT)):
            return self.__ceil__()
        return self._floor()

    def __int__(self):
        return (self.__trunc__() + 0).__index__()

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        c = o.const()
        if c is None or c == 0:
            if c == 0:
                raise ZeroDivisionError("integer modulo by zero")
            raise Unsupported("symbolic modulus")
        r = lift((self / o)._floor())
        if not (self.isint and o.isint):
            r = SymNum(r.num, r.den, False)
        return r

    def __mod__(self, o):
        r = self // o
        return self - r * o

    def __rfloordiv__(self, o):
        o = lift(o)
        return lift((o / self)._floor())

    def __rmod__(self, o):
        return lift(o) - lift(o).__truediv__(self)._floor() * self

    def __divmod__(self, o):
        return self // o, self % o

    def __round__(self, nd=None):
        if self.isint:
            return self
        return CUR.rounded(self, nd or 0, nd is None)

    # -- comparisons
    def _cmp(self, o, allowed):
        if real_isinstance(o, real_float) and o != o:
            return allowed == NE
        if _isinf(o):
            return (-1 if o > 0 else 1) in allowed
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.den == o.den:
            d = self.num.sub(o.num)
        else:
            d = self._add(o, -1).num
        f = atom(d, allowed)
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        return SymBool(f)

    def __lt__(self, o):
        return self._cmp(o, LT)

    def __le__(self, o):
        return self._cmp(o, LE)

    def __gt__(self, o):
        return self._cmp(o, GT)

    def __ge__(self, o):
        return self._cmp(o, GE)

    def __eq__(self, o):
        r = self._cmp(o, EQ)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, NE)
        return True if r is NotImplemented else r

    def __bool__(self):
        return CUR.decide(atom(self.num, NE))

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        if self.isint and not CUR.by_equality:
            return hash(self.__index__())
        return 990017

    # -- conversions
    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return real_int(c)
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CUR.concretise_int(self)

    def __float__(self):
        c = self.const()
        if c is not None:
            return real_float(c)
        return CUR.concretise_real(self)

    def __complex__(self):
        return complex(self.__float__())

    def is_integer(self):
        return self == self._floor()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def sqrt(self):
        return sym_sqrt(self, True)

    def cos(self):
        return sym_trig(self)[0]

    def sin(self):
        return sym_trig(self)[1]

    def arccos(self):
        return sym_acos(self)

    def radians(self):
        return sym_radians(self)

    def degrees(self):
        return sym_degrees(self)

    deg2rad = radians
    rad2deg = degrees

    def floor(self):
        return self._floor()

    def ceil(self):
        return self.__ceil__()

    def rint(self):
        return self.__round__()

    def isnan(self):
        return False

    def isfinite(self):
        return True

    # -- text
    def __format__(self, spec):
        c = self.const()
        if self.isint:
            if c is None and spec in ("", "d") and CUR.wide(self):
                return CUR.format(self, "")
            return format(self.__index__(), spec)
        if c is not None:
            return format(real_float(c), spec)
        return CUR.format(self, spec)

    def __str__(self):
        return self.__format__("")

    def __repr__(self):
        if CUR is None:
            return "<sym>"
        return self.__format__("")

    def show(self):
        names = CUR.name_of if CUR else str
        s = self.num.show(names)
        if self.den:
            s = "(%s)/(%s)" % (s, "*".join("(%s)^%d" % (q.show(names), e) for q, e in self.den))
        return s


def _by_element(f):
    """the operator applied to every element of an array"""
    def op(self, o):
        r = f(self, o)
        if r is NotImplemented and type(o).__module__ == "numpy" and getattr(o, "ndim", 0):
            import numpy
            return numpy.frompyfunc(lambda e: f(self, lift(e)), 1, 1)(o)
        return r
    return op


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "lt", "le", "gt", "ge"):
    setattr(SymNum, "__%s__" % _n, _by_element(SymNum.__dict__["__%s__" % _n]))


class SymBool:
    __slots__ = ("f",)
    __array_ufunc__ = None

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CUR.decide(self.f)

    def as_num(self):
        return SymNum(Poly.const(1 if CUR.decide(self.f) else 0), (), True)

    def __and__(self, o):
        return mk_bool(f_and(self.f, to_f(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(f_or(self.f, to_f(o)))

    __ror__ = __or__

    def __xor__(self, o):
        g = to_f(o)
        return mk_bool(f_or(f_and(self.f, f_not(g)), f_and(f_not(self.f), g)))

    def __invert__(self):
        return mk_bool(f_not(self.f))

    def __eq__(self, o):
        return bool(self) == (bool(o) if real_isinstance(o, SymBool) else o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return real_int(bool(self))

    __int__ = __index__

    def __float__(self):
        return real_float(bool(self))

    def __add__(self, o):
        return self.as_num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_num() - o

    def __rsub__(self, o):
        return o - self.as_num()

    def __mul__(self, o):
        return self.as_num() * o

    __rmul__ = __mul__

    def __repr__(self):
        return repr(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def mk_bool(f):
    if f[0] == "T":
        return True
    if f[0] == "F":
        return False
    return SymBool(f)


def to_f(c):
    if real_isinstance(c, SymBool):
        return c.f
    if real_isinstance(c, SymNum):
        return atom(c.num, NE)
    return TRUE if c else FALSE


# ---------------------------------------------------------------------------------------------- irrational functions
def _poly_sqrt(p):
    """q with q*q == p (leading-term algorithm) or None"""
    if p.is_zero():
        return p
    if len(p.t) > 60:
        return None
    rem = p
    q = Poly({})
    first = None
    for _ in range(12):
        if rem.is_zero():
            return q
        lm = max(rem.t, key=_lexkey(p))
        c = rem.t[lm]
        if first is None:
            if any(e % 2 for _, e in lm) or c < 0:
                return None
            r = frac_sqrt(c)
            if r is None:
                return None
            first = Poly({tuple((v, e // 2) for v, e in lm): r})
            q = first
        else:
            (fm, fc), = first.t.items()
            d = dict(lm)
            for v, e in fm:
                if d.get(v, 0) < e:
                    return None
                d[v] -= e
            t = Poly({tuple(sorted((v, e) for v, e in d.items() if e)): c / (2 * fc)})
            if any(m in q.t for m in t.t):
                return None
            q = q.add(t)
        rem = p.sub(q.mul(q))
    return None


def _lexkey(p):
    allv = sorted(p.vars())

    def key(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in allv)

    return key


def frac_sqrt(c):
    if c < 0:
        return None
    a = _math.isqrt(c.numerator)
    b = _math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def approx_sqrt(c, digits=40):
    s = 10 ** (2 * digits)
    return Fraction(_math.isqrt(c.numerator * s // c.denominator), 10 ** digits)


def sym_sqrt(x, domain_error):
    st = CUR
    x = lift(x)
    if not x.nn and st.decide(atom(x.num, LT)):
        if domain_error:
            raise ValueError("math domain error")
        raise Unsupported("square root of a negative number")
    # sqrt(N / prod q^e) = sqrt(N * prod q^(e odd)) / prod q^ceil(e/2)
    n = x.num
    den = []
    for q, e in x.den:
        if e % 2:
            n = n.mul(q)
        den.append((q, (e + 1) // 2))
    den = tuple(den)
    if n.is_zero():
        return SymNum(Poly.const(0))
    q = _poly_sqrt(n)
    if q is not None:
        r = SymNum(q)
        if q.is_const():
            return make(q, den)
        known = st.sign_set(q)
        if known <= GE:
            return make(q, den)
        if known <= LE:
            return make(q.neg(), den)
        if not x.nn:
            return make(abs(r).num, den)
        return make(Poly.var(st.sqrt_atom(n)), den)
    # pull even powers out of the monomial content
    mc = n.mono_content()
    ev = tuple((v, e - e % 2) for v, e in mc if e >= 2)
    out = Poly.const(1)
    if ev:
        n = n.div_mono(ev)
        for v, e in ev:
            a = SymNum(Poly.var(v))
            if e // 2 % 2 and st.sign_set(a.num) <= LE and not st.sign_set(a.num) <= GE:
                a = -a
            elif e // 2 % 2 and not st.sign_set(a.num) <= GE:
                a = SymNum(Poly.var(st.sqrt_atom(a.num.mul(a.num)))) if x.nn else abs(a)
            out = out.mul(a.num.pow(e // 2))
    k = n.t[n.lead()]
    r = frac_sqrt(abs(k))
    if r is not None and r != 1:
        n = n.scale(1 / abs(k))
        out = out.scale(r)
    s = st.sqrt_atom(n)
    return make(out.mul(Poly.var(s)), den)


PI = 3.141592653589793


def _deg_of(x):
    """degrees (SymNum or Fraction) of an angle in radians"""
    if real_isinstance(x, SymNum):
        c = x.const()
        if c is None:
            return x * SymNum(Poly.const(180)) / CUR.pi()
        x = real_float(c)
    d = real_float(x) * 180.0 / PI
    f = Fraction(d).limit_denominator(3600)
    if abs(real_float(f) - d) < 1e-9:
        return f
    return Fraction(d)


_TAB = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}


def sym_trig(x):
    """(cos, sin) of an angle in radians"""
    d = _deg_of(x)
    if real_isinstance(d, SymNum):
        c = d.const()
        if c is None:
            return CUR.trig_atom(d)
        d = c
    d = d % 360
    # reduce to [0, 90) so that angles a quarter turn apart share one atom
    k = real_int(d // 90)
    r = d - 90 * k
    if r == 0:
        c, s = lift(1), lift(0)
    elif r == 60:
        c, s = lift(Fraction(1, 2)), CUR.const_sqrt(3) / 2
    elif r == 30:
        c, s = CUR.const_sqrt(3) / 2, lift(Fraction(1, 2))
    elif r == 45:
        c = s = CUR.const_sqrt(2) / 2
    else:
        c, s = CUR.trig_atom(lift(r))
    for _ in range(k):
        c, s = -s, c
    return c, s


def sym_radians(x):
    x = lift(x)
    c = x.const()
    if c is not None:
        return _math_radians(real_float(c))
    return x * CUR.pi() / 180


def sym_degrees(x):
    x = lift(x)
    r = x * 180 / CUR.pi()
    return r


_math_radians = _math.radians
_math_acos = _math.acos
_math_atan2 = _math.atan2
_math_cos = _math.cos
_math_sin = _math.sin


def sym_acos(x):
    """acos of a value recognised as +-cos of a known angle; result in radians as deg*pi/180"""
    x = lift(x)
    st = CUR
    c = x.const()
    if c is not None and c in (0, 1, -1):
        return {0: 90, 1: 0, -1: 180}[real_int(c)] * st.pi() / 180
    if st.decide(f_or(atom(x.num.sub(den_poly(x.den)), GT), atom(x.num.add(den_poly(x.den)), LT))):
        raise ValueError("math domain error")
    if c is not None:
        return lift(Fraction(_deg_of(_math_acos(real_float(c))))) * st.pi() / 180
    cands = []
    for deg, (cc, ss) in st.known_angles():
        if (x - cc).num.is_zero():
            cands.append(deg)
        if (x + cc).num.is_zero():
            cands.append(180 - deg)
        if (x - ss).num.is_zero():
            cands.append(90 - deg)
        if (x + ss).num.is_zero():
            cands.append(90 + deg)
    for d in cands:
        d = lift(d)
        if st.decide(f_and(atom(d.num, GE), atom((d - 180).num, LE))):
            return d * st.pi() / 180
        e = 360 - d
        if st.decide(f_and(atom(e.num, GE), atom((e - 180).num, LE))):
            return e * st.pi() / 180
        e = -d
        if st.decide(f_and(atom(e.num, GE), atom((e - 180).num, LE))):
            return e * st.pi() / 180
    raise Unsupported("acos of an unrecognised value")


def sym_atan2(y, x):
    """the angle of a vector recognised as a multiple of the direction of a known angle, in radians"""
    y, x = lift(y), lift(x)
    st = CUR
    if y.const() is not None and x.const() is not None:
        return _math_atan2(real_float(y.const()), real_float(x.const()))

    def turned(d):
        while st.decide(atom((d - 180).num, GT)):
            d = d - 360
        while st.decide(atom((d + 180).num, LE)):
            d = d + 360
        return d * st.pi() / 180

    if st.decide(f_and(atom(x.num, EQ), atom(y.num, EQ))):
        return 0.0
    for deg, (cc, ss) in [(lift(0), (lift(1), lift(0))), (lift(90), (lift(0), lift(1)))] + st.known_angles():
        if ss.const() == 5:
            continue
        if (x * ss - y * cc).num.is_zero():
            return turned(lift(deg) if st.decide(atom((x * cc + y * ss).num, GT)) else lift(deg) + 180)
        if (x * cc - y * ss).num.is_zero():
            return turned(90 - lift(deg) if st.decide(atom((x * ss + y * cc).num, GT)) else 270 - lift(deg))
        if (x * ss + y * cc).num.is_zero():
            return turned(-lift(deg) if st.decide(atom((x * cc - y * ss).num, GT)) else 180 - lift(deg))
        if (x * cc + y * ss).num.is_zero():
            return turned(90 + lift(deg) if st.decide(atom((y * cc - x * ss).num, GT)) else lift(deg) - 90)
    raise Unsupported("atan2 of an unrecognised direction")
