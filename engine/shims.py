"""What the repository's modules see while they run on symbolic values.

Nothing of the repository is rewritten: its modules are imported from the working tree as they are; only the
names `float` and `int` in their namespaces, some functions of `math`, logging and matplotlib are replaced.
"""
import builtins
import importlib
import importlib.machinery
import logging
import math
import numbers
import operator
import os
import pkgutil
import statistics
import sys
import tempfile
import types
import weakref

from . import sym
from .sym import SymNum, SymBool, real_isinstance

REPO = os.environ.get("SX_REPO", "/repo")


def stub_matplotlib():
    class _Any(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return _Any(name)

        def __call__(self, *a, **k):
            return _Any("r")

    for name in ("matplotlib", "matplotlib.pyplot"):
        m = _Any(name)
        m.__path__ = []
        sys.modules[name] = m
    sys.modules["matplotlib"].pyplot = sys.modules["matplotlib.pyplot"]


def prepare_import():
    sys.dont_write_bytecode = True
    stub_matplotlib()
    import networkx, numpy, pandas  # noqa: with their own cached bytecode
    import scipy.optimize  # noqa
    # the repository itself is always compiled from its current sources, never from stale bytecode
    sys.pycache_prefix = tempfile.gettempdir() + "/sx_nopyc_%d" % os.getpid()  # never created
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if type(x) is SymNum:
            return not x.isint
        return real_isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if real_isinstance(x, SymNum):
            return SymNum(x.num, x.den, False)
        if real_isinstance(x, SymBool):
            return x.as_num() * 1.0
        if real_isinstance(x, str) and sym.CUR is not None:
            y = sym.CUR.parse_text(x)
            if y is not None:
                return SymNum(y.num, y.den, False)
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if type(x) is SymNum:
            return x.isint
        return real_isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(builtins.int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if real_isinstance(x, SymNum):
            return sym.lift(x.__trunc__())
        if real_isinstance(x, SymBool):
            return x.as_num()
        if real_isinstance(x, str) and sym.CUR is not None and not a:
            y = sym.CUR.parse_text(x)
            if y is not None:
                if not y.isint:
                    raise ValueError("invalid literal for int() with base 10: %r" % x)
                return y
        return builtins.int(x, *a)


def _wrap1(orig, symf):
    def f(x, *rest):
        if real_isinstance(x, (SymNum, SymBool)) or any(real_isinstance(r, SymNum) for r in rest):
            return symf(sym.lift(x), *rest)
        return orig(x, *rest)
    return f


_installed = False


def patch_math():
    global _installed
    if _installed:
        return
    _installed = True
    o = {n: getattr(math, n) for n in
         ("sqrt", "cos", "sin", "acos", "radians", "degrees", "floor", "ceil", "trunc", "isinf", "isnan", "isfinite",
          "fabs", "hypot", "isclose", "fsum", "pow", "dist", "atan2", "tan", "prod", "copysign", "fmod")}

    def trig(which):
        base = o["cos" if which == 0 else "sin"]

        def f(x):
            if sym.CUR is None:
                return base(x)
            if real_isinstance(x, SymNum) or x != 0:
                return sym.sym_trig(x)[which]
            return base(x)
        return f

    math.sqrt = lambda x: sym.sym_sqrt(x, True) if real_isinstance(x, SymNum) else o["sqrt"](x)
    math.cos = trig(0)
    math.sin = trig(1)
    math.acos = _wrap1(o["acos"], sym.sym_acos)
    math.radians = _wrap1(o["radians"], sym.sym_radians)
    math.degrees = _wrap1(o["degrees"], sym.sym_degrees)
    math.floor = _wrap1(o["floor"], lambda x: x.__floor__())
    math.ceil = _wrap1(o["ceil"], lambda x: x.__ceil__())
    math.trunc = _wrap1(o["trunc"], lambda x: x.__trunc__())
    math.isinf = _wrap1(o["isinf"], lambda x: False)
    math.isnan = _wrap1(o["isnan"], lambda x: False)
    math.isfinite = _wrap1(o["isfinite"], lambda x: True)
    math.fabs = _wrap1(o["fabs"], abs)
    math.atan2 = lambda y, x: sym.sym_atan2(y, x) if real_isinstance(y, SymNum) or real_isinstance(x, SymNum) else o["atan2"](y, x)
    math.pow = lambda a, b: a ** b if real_isinstance(a, SymNum) or real_isinstance(b, SymNum) else o["pow"](a, b)

    math.copysign = lambda a, b: (abs(a) if b >= 0 else -abs(a)) if real_isinstance(a, SymNum) or real_isinstance(b, SymNum) else o["copysign"](a, b)
    math.fmod = lambda a, b: a - math.trunc(a / b) * b if real_isinstance(a, SymNum) or real_isinstance(b, SymNum) else o["fmod"](a, b)

    def hypot(*xs):
        if any(real_isinstance(x, SymNum) for x in xs):
            return sym.sym_sqrt(sym.lift(sum(x * x for x in xs)), True)
        return o["hypot"](*xs)
    math.hypot = hypot

    def dist(p, q):
        p, q = list(p), list(q)
        if any(real_isinstance(x, SymNum) for x in p + q):
            return hypot(*[a - b for a, b in zip(p, q)])
        return o["dist"](p, q)
    math.dist = dist

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if real_isinstance(a, SymNum) or real_isinstance(b, SymNum):
            d = abs(a - b)
            m = abs(a)
            if abs(b) > m:
                m = abs(b)
            return bool(sym.mk_bool(sym.f_or(sym.to_f(d <= rel_tol * m), sym.to_f(d <= abs_tol))))
        return o["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    math.isclose = isclose

    def fsum(xs):
        xs = list(xs)
        return sum(xs) if any(real_isinstance(x, SymNum) for x in xs) else o["fsum"](xs)
    math.fsum = fsum

    def prod(xs, *, start=1):
        xs = list(xs)
        if any(real_isinstance(x, SymNum) for x in xs):
            r = start
            for x in xs:
                r = r * x
            return r
        return o["prod"](xs, start=start)
    math.prod = prod

    def mean(orig):
        def f(xs, *a, **k):
            xs = list(xs)
            if any(real_isinstance(x, SymNum) for x in xs) and not a and not k:
                return sum(xs) / len(xs)
            return orig(xs, *a, **k)
        return f
    statistics.mean = mean(statistics.mean)
    statistics.fmean = mean(statistics.fmean)


_counter = [0]


def reset_hash_counter():
    _counter[0] = 0


def _stable_hash(self):
    """object hash that is the same in every re-execution of a path (allocation order instead of address)"""
    h = self.__dict__.get("_sx_hash")
    if h is None:
        _counter[0] += 1
        h = self.__dict__["_sx_hash"] = _counter[0] * 7919
    return h


def sidermit_modules():
    return [m for n, m in list(sys.modules.items()) if n == "sidermit" or n.startswith("sidermit.")]


def import_repo(symbolic):
    prepare_import()
    if symbolic:
        patch_math()
    os.environ.setdefault("MPLBACKEND", "Agg")
    pkg = importlib.import_module("sidermit")
    assert os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO) + os.sep), pkg.__file__
    for mi in pkgutil.walk_packages(pkg.__path__, "sidermit."):
        importlib.import_module(mi.name)
    logging.disable(logging.CRITICAL)
    if not symbolic:
        return
    for m in sidermit_modules():
        dress(m)
    patch_import()


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return real_isinstance(x, builtins.type)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.type)


class TypeShim(builtins.type, metaclass=_TypeMeta):
    """type(x) of a number is what the module knows as int or float"""

    def __new__(cls, *a, **k):
        if len(a) != 1 or k:
            return builtins.type(*a, **k)
        t = builtins.type(a[0])
        if t is SymNum:
            return IntShim if a[0].isint else FloatShim
        if t is SymBool:
            return bool
        return IntShim if t is builtins.int else FloatShim if t is builtins.float else t

    def __init__(self, *a, **k):
        pass


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return real_isinstance(x, builtins.set)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.set)

    def __eq__(cls, o):
        return o is cls or o is builtins.set

    def __hash__(cls):
        return hash(builtins.set)


def _unknown(x):
    return type(x) is SymNum and x.const() is None


class SetShim(builtins.set, metaclass=_SetMeta):
    """a set whose unknown numbers are compared one by one, instead of by their hashes"""

    def __init__(self, xs=()):
        builtins.set.__init__(self)
        self.extras = []
        self.update(xs)

    def __contains__(self, x):
        if _unknown(x):
            return any(real_isinstance(y, (builtins.int, builtins.float, SymNum)) and bool(x == y) for y in self)
        return builtins.set.__contains__(self, x) or any(bool(y == x) for y in self.extras)

    def __iter__(self):
        yield from builtins.set.__iter__(self)
        yield from list(self.extras)

    def __len__(self):
        return builtins.set.__len__(self) + len(self.extras)

    def add(self, x):
        if x not in self:
            if _unknown(x):
                self.extras.append(x)
            else:
                builtins.set.add(self, x)

    def update(self, *os):
        for o in os:
            for x in list(o):
                self.add(x)

    def discard(self, x):
        builtins.set.difference_update(self, [y for y in builtins.set.__iter__(self) if _same(x, y)])
        self.extras = [y for y in self.extras if not _same(x, y)]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if self.extras:
            return self.extras.pop()
        return builtins.set.pop(self)

    def clear(self):
        builtins.set.clear(self)
        self.extras = []

    def copy(self):
        return SetShim(self)

    __copy__ = copy

    def __reduce__(self):
        return SetShim, (list(self),)

    def union(self, *os):
        r = SetShim(self)
        r.update(*os)
        return r

    def intersection(self, *os):
        os = [SetShim(o) for o in os]
        return SetShim(x for x in self if all(x in o for o in os))

    def difference(self, *os):
        os = [SetShim(o) for o in os]
        return SetShim(x for x in self if not any(x in o for o in os))

    def symmetric_difference(self, o):
        o = SetShim(o)
        return self.difference(o).union(o.difference(self))

    def issubset(self, o):
        o = SetShim(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in list(o))

    def isdisjoint(self, o):
        return not any(x in self for x in list(o))

    def intersection_update(self, *os):
        self._become(self.intersection(*os))

    def difference_update(self, *os):
        self._become(self.difference(*os))

    def symmetric_difference_update(self, o):
        self._become(self.symmetric_difference(o))

    def _become(self, o):
        kept = list(o)
        self.clear()
        self.update(kept)

    def __eq__(self, o):
        return len(self) == len(o) and self.issubset(o) if real_isinstance(o, (builtins.set, builtins.frozenset)) else False

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def _same(x, y):
    if _unknown(x) or _unknown(y):
        return all(real_isinstance(z, (builtins.int, builtins.float, SymNum)) for z in (x, y)) and bool(x == y)
    return x is y or x == y


def _setop(name, method, into=None):
    def f(self, o):
        if not real_isinstance(o, (builtins.set, builtins.frozenset)):
            return NotImplemented
        return getattr(self, method)(o)

    def g(self, o):
        if not real_isinstance(o, (builtins.set, builtins.frozenset)):
            return NotImplemented
        return getattr(SetShim(o), method)(self)

    def h(self, o):
        if not real_isinstance(o, (builtins.set, builtins.frozenset)):
            return NotImplemented
        getattr(self, into)(o)
        return self
    setattr(SetShim, "__%s__" % name, f)
    if into:
        setattr(SetShim, "__r%s__" % name, g)
        setattr(SetShim, "__i%s__" % name, h)


_setop("or", "union", "update")
_setop("and", "intersection", "intersection_update")
_setop("sub", "difference", "difference_update")
_setop("xor", "symmetric_difference", "symmetric_difference_update")
_setop("le", "issubset")
_setop("ge", "issuperset")
SetShim.__lt__ = lambda self, o: self <= o and len(self) < len(o)
SetShim.__gt__ = lambda self, o: self >= o and len(self) > len(o)


class NumpyProxy(types.ModuleType):
    """numpy for a module of the repository: elementwise functions also take symbolic numbers"""

    def __init__(self, real):
        types.ModuleType.__init__(self, "numpy")
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        real = getattr(self.__dict__["_real"], name)
        f = _ELEMENTWISE.get(name)
        if name == "linalg":
            lin = NumpyProxy(real)
            lin.__dict__["norm"] = lambda x, *a, **k: real.norm(x, *a, **k) if a or k or \
                not any(real_isinstance(y, SymNum) for y in x) else math.hypot(*x)
            return lin
        np = self.__dict__["_real"]
        if name in _FILLED or name in ("array", "asarray"):
            return lambda *a, **k: _object_array(np, name, real, a, k)
        if name == "allclose":
            return lambda a, b, **k: builtins.bool(np.all(self.isclose(a, b)))
        if name == "fromiter":
            return lambda xs, dtype=None, *a, **k: self.array(list(xs), dtype=dtype)
        if f is None:
            return real

        def call(*a, **k):
            arrays = [np.asarray(x, dtype=object) if real_isinstance(x, (list, tuple, SymNum)) else x for x in a]
            if not any(real_isinstance(x, np.ndarray) and x.dtype == object for x in a) and \
                    not any(real_isinstance(x, np.ndarray) and x.dtype == object and
                            any(real_isinstance(y, SymNum) for y in x.ravel()) for x in arrays):
                return real(*a, **k)
            r = np.frompyfunc(f, len(a), 1)(*arrays)
            return r.item() if real_isinstance(r, np.ndarray) and r.ndim == 0 else r
        return Elementwise(real, call)


class Elementwise:
    """an elementwise function of numpy: called as above; reduce, accumulate and the rest are numpy's own"""

    def __init__(self, real, call):
        self.real, self.call = real, call

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def __getattr__(self, name):
        return getattr(self.real, name)


_FILLED = {"zeros": 0.0, "ones": 1.0, "empty": 0.0, "full": None}


def _object_array(np, name, real, a, k):
    """arrays of floats that may have to hold symbolic numbers"""
    k = dict(k)
    at = {"full": 2}.get(name, 1)
    dt = a[at] if len(a) > at else k.get("dtype")
    if dt is FloatShim or dt is IntShim:
        dt = builtins.float if dt is FloatShim else builtins.int
        a = a[:at]
        k["dtype"] = dt
    floats = dt is None or dt is builtins.float or dt is np.float64
    if name in _FILLED:
        if not floats or sym.CUR is None or name == "full" and not real_isinstance(a[1] if len(a) > 1 else k.get("fill_value"), (builtins.float, SymNum)):
            return real(*a, **k)
        r = np.empty(a[0] if a else k["shape"], dtype=object)
        r.fill(_FILLED[name] if name != "full" else a[1] if len(a) > 1 else k["fill_value"])
        return r
    if floats and a and sym.CUR is not None:
        r = np.asarray(a[0], dtype=object)
        if any(real_isinstance(y, SymNum) for y in r.ravel()):
            return r.copy() if name == "array" else r
    return real(*a, **k)


def _smax(a, b):
    return a if a >= b else b


_ELEMENTWISE = {"sqrt": lambda x: math.sqrt(x), "cos": lambda x: math.cos(x), "sin": lambda x: math.sin(x),
                "radians": lambda x: math.radians(x), "deg2rad": lambda x: math.radians(x), "degrees": lambda x: math.degrees(x),
                "rad2deg": lambda x: math.degrees(x), "arccos": lambda x: math.acos(x), "arctan2": lambda y, x: math.atan2(y, x), "hypot": lambda x, y: math.hypot(x, y),
                "abs": abs, "absolute": abs, "fabs": abs, "maximum": _smax, "minimum": lambda a, b: a if a <= b else b,
                "sign": lambda x: (x > 0) * 1 - (x < 0) * 1, "floor": lambda x: math.floor(x), "ceil": lambda x: math.ceil(x), "isclose": lambda a, b: abs(a - b) <= 1e-8 + 1e-5 * abs(b),
                "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv, "true_divide": operator.truediv,
                "floor_divide": operator.floordiv, "mod": operator.mod, "remainder": operator.mod, "power": operator.pow, "float_power": operator.pow,
                "negative": operator.neg, "square": lambda x: x * x, "reciprocal": lambda x: 1 / x, "less": operator.lt, "less_equal": operator.le, "greater": operator.gt,
                "greater_equal": operator.ge, "equal": operator.eq, "not_equal": operator.ne, "fmax": _smax, "fmin": lambda a, b: a if a <= b else b,
                "isfinite": lambda x: math.isfinite(x), "isinf": lambda x: math.isinf(x), "isnan": lambda x: math.isnan(x)}
_PROXIED = set(_ELEMENTWISE) | set(_FILLED) | {"array", "asarray", "allclose", "fromiter"}
numbers.Real.register(SymNum)


def patch_import():
    """numpy imported inside a function of the repository is what its modules see too"""
    real = builtins.__import__

    def f(name, globals=None, locals=None, fromlist=(), level=0):
        m = real(name, globals, locals, fromlist, level)
        if name == "numpy" and level == 0 and globals is not None and str(globals.get("__name__")).split(".")[0] == "sidermit":
            return NumpyProxy(m)
        return m
    builtins.__import__ = f


def dress(m):
    """what a module of the repository sees instead of float, int, type, numpy and address-based hashes"""
    m.__dict__["float"] = FloatShim
    m.__dict__["int"] = IntShim
    m.__dict__["type"] = TypeShim
    m.__dict__["set"] = SetShim
    numpy = sys.modules["numpy"]
    proxy = NumpyProxy(numpy)
    for k, v in list(m.__dict__.items()):
        name = getattr(v, "__name__", None)
        if v is numpy:
            m.__dict__[k] = proxy
        elif real_isinstance(name, str) and name in _PROXIED and getattr(numpy, name) is v:
            m.__dict__[k] = getattr(proxy, name)
    for v in list(m.__dict__.values()):
        if real_isinstance(v, type) and getattr(v, "__module__", "").startswith("sidermit") and \
                not issubclass(v, BaseException) and v.__hash__ is object.__hash__ and v.__eq__ is object.__eq__ \
                and type(v) is type and "__slots__" not in v.__dict__:
            v.__hash__ = _stable_hash


_code = {}


def fresh(symbolic):
    """the repository's modules loaded once more, sharing no state with those in use: {name: object}"""
    kept = {n: m for n, m in sys.modules.items() if n == "sidermit" or n.startswith("sidermit.")}
    names = sorted(kept)
    loader = importlib.machinery.SourceFileLoader
    get_code = loader.get_code

    def cached(self, name):
        if name not in kept:
            return get_code(self, name)
        if name not in _code:
            _code[name] = get_code(self, name)
        return _code[name]
    for n in names:
        del sys.modules[n]
    loader.get_code = cached
    try:
        out = {}
        for n in names:
            importlib.import_module(n)
        logging.disable(logging.CRITICAL)
        for m in sidermit_modules():
            if symbolic:
                dress(m)
            if hasattr(m, "__file__") and not m.__file__.endswith("__init__.py"):
                out.update({k: v for k, v in vars(m).items() if not k.startswith("_")})
        return out
    finally:
        loader.get_code = get_code
        for n in sidermit_modules():
            sys.modules.pop(n.__name__, None)
        sys.modules.update(kept)


class Trace:
    """which functions and lines of the repository ran symbolically (sys.monitoring)"""
    TOOL = 3

    def __init__(self):
        self.funcs = {}
        self.lines = {}
        self.on = False

    def start(self):
        mon = sys.monitoring
        root = os.path.realpath(REPO) + "/sidermit"
        try:
            mon.use_tool_id(self.TOOL, "sx")
        except ValueError:
            return

        def on_start(code, off):
            fn = code.co_filename
            if fn.startswith(root):
                self.funcs.setdefault((fn[len(root) - 8:], code.co_qualname), set())
            return mon.DISABLE

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(root):
                self.lines.setdefault((fn[len(root) - 8:], code.co_qualname), set()).add(line)
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.PY_START, on_start)
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.PY_START | mon.events.LINE)
