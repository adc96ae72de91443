"""Exact multivariate polynomials over the rationals, the term language of the symbolic executor.

A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of (variable index, exponent).
Variables may carry a rewriting rule for their square (sqrt atoms: s^2 -> radicand, sine atoms: s^2 -> 1-c^2);
rules live in RULES, which is reset at the start of every path.
"""
from fractions import Fraction

ZERO = Fraction(0)
ONE = Fraction(1)

RULES = {}  # var index -> Poly equal to var**2


def reset_rules():
    RULES.clear()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ("t", "_h", "_vars")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._vars = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def var(i):
        return Poly({((i, 1),): ONE})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), ZERO)

    def is_zero(self):
        return not self.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def vars(self):
        if self._vars is None:
            self._vars = frozenset(v for m in self.t for v, _ in m)
        return self._vars

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def add(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            x = d.get(m)
            if x is None:
                d[m] = c
            else:
                x = x + c
                if x:
                    d[m] = x
                else:
                    del d[m]
        return Poly(d)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return Poly({})
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        if not self.t or not o.t:
            return Poly({})
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = c1 * c2
                x = d.get(m)
                d[m] = c if x is None else x + c
        p = Poly({m: c for m, c in d.items() if c})
        if RULES:
            p = p.reduce()
        return p

    def reduce(self):
        """apply the square rules until none applies"""
        cur = self
        for _ in range(64):
            hit = None
            for m in cur.t:
                for v, e in m:
                    if e >= 2 and v in RULES:
                        hit = (m, v, e)
                        break
                if hit:
                    break
            if not hit:
                return cur
            m, v, e = hit
            c = cur.t[m]
            rest = tuple((w, x) for w, x in m if w != v)
            if e % 2:
                rest = mono_mul(rest, ((v, 1),))
            base = Poly({rest: c})
            r = RULES[v]
            for _ in range(e // 2):
                base = base.mul(r)
            d = dict(cur.t)
            del d[m]
            cur = Poly(d).add(base)
        return cur

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def lead(self):
        """leading monomial under (degree, lexicographic) order"""
        return max(self.t, key=lambda m: (sum(e for _, e in m), m))

    def monic(self):
        """(q, k): self = k*q, k > 0 or < 0 and q has leading coefficient 1"""
        k = self.t[self.lead()]
        return (self if k == 1 else self.scale(1 / k)), k

    def mono_content(self):
        """greatest monomial dividing every term"""
        it = iter(self.t)
        g = dict(next(it))
        for m in it:
            if not g:
                break
            dm = dict(m)
            g = {v: min(e, dm[v]) for v, e in g.items() if v in dm}
        return tuple(sorted(g.items()))

    def div_mono(self, g):
        if not g:
            return self
        gd = dict(g)
        out = {}
        for m, c in self.t.items():
            out[tuple((v, e - gd.get(v, 0)) for v, e in m if e - gd.get(v, 0))] = c
        return Poly(out)

    def divexact(self, o):
        """quotient if o divides self exactly, else None"""
        if not self.t:
            return self
        if o.is_const():
            return self.scale(1 / o.const_value())
        if not o.vars() <= self.vars():
            return None
        if len(o.t) == 1:
            (m, c), = o.t.items()
            g = dict(self.mono_content())
            for v, e in m:
                if g.get(v, 0) < e:
                    return None
            return self.div_mono(m).scale(1 / c)
        # lexicographic order division
        allv = sorted(self.vars())

        def key(m):
            d = dict(m)
            return tuple(d.get(v, 0) for v in allv)

        lo = max(o.t, key=key)
        co = o.t[lo]
        dlo = dict(lo)
        rem = dict(self.t)
        q = {}
        steps = 0
        while rem:
            steps += 1
            if steps > 400:
                return None
            lm = max(rem, key=key)
            dm = dict(lm)
            for v, e in dlo.items():
                if dm.get(v, 0) < e:
                    return None
            qm = tuple((v, e - dlo.get(v, 0)) for v, e in lm if e - dlo.get(v, 0))
            qc = rem[lm] / co
            q[qm] = qc
            for m, c in o.t.items():
                mm = mono_mul(qm, m)
                x = rem.get(mm, ZERO) - qc * c
                if x:
                    rem[mm] = x
                else:
                    rem.pop(mm, None)
        return Poly(q)

    def eval(self, env):
        tot = ZERO
        for m, c in self.t.items():
            x = c
            for v, e in m:
                x = x * env[v] ** e
            tot += x
        return tot

    def subs_const(self, v, val):
        if v not in self.vars():
            return self
        d = {}
        for m, c in self.t.items():
            x = c
            rest = []
            for w, e in m:
                if w == v:
                    x = x * val ** e
                else:
                    rest.append((w, e))
            rest = tuple(rest)
            d[rest] = d.get(rest, ZERO) + x
        return Poly({m: c for m, c in d.items() if c})

    def interval(self, bounds):
        """(lo, hi) enclosure over the box `bounds` (index -> (lo|None, hi|None)); None = unbounded"""
        lo = hi = ZERO
        for m, c in self.t.items():
            a, b = ONE, ONE  # interval of the monomial
            for v, e in m:
                l, h = bounds.get(v, (None, None))
                if e % 2 == 0:
                    if l is not None and l >= 0:
                        x = (l ** e, None if h is None else h ** e)
                    elif h is not None and h <= 0:
                        x = (h ** e, None if l is None else l ** e)
                    else:
                        mx = None if (l is None or h is None) else max(l ** e, h ** e)
                        x = (ZERO, mx)
                else:
                    x = (None if l is None else l ** e, None if h is None else h ** e)
                a, b = _imul(a, b, x[0], x[1])
            if c > 0:
                a, b = (None if a is None else a * c), (None if b is None else b * c)
            else:
                a, b = (None if b is None else b * c), (None if a is None else a * c)
            lo = None if (lo is None or a is None) else lo + a
            hi = None if (hi is None or b is None) else hi + b
        return lo, hi

    def show(self, names):
        if not self.t:
            return "0"
        out = []
        for m in sorted(self.t):
            c = self.t[m]
            s = "*".join(names(v) + ("^%d" % e if e > 1 else "") for v, e in m)
            out.append((str(c) + ("*" + s if s else "")) if c != 1 or not s else s)
        return " + ".join(out)


def _imul(a, b, c, d):
    """[a,b]*[c,d] with None = infinite"""
    if a is not None and a == 0 and b is not None and b == 0:
        return ZERO, ZERO
    if c is not None and c == 0 and d is not None and d == 0:
        return ZERO, ZERO
    if a is not None and b is not None and c is not None and d is not None:
        p = (a * c, a * d, b * c, b * d)
        return min(p), max(p)
    # some side infinite: handle the nonnegative case, otherwise give up
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, (None if (b is None or d is None) else b * d)
    return None, None
