"""Descriptors of contract parameters, concretisation of models, equality."""
import math
import random
from fractions import Fraction

import z3

from . import core
from .core import SNum, SBool, SStr, Sym


class NS(object):
    """Arguments of a contract, by name."""

    def __init__(self, /, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "NS(%s)" % ", ".join("%s=%r" % kv for kv in sorted(self.__dict__.items()))

    def __deepcopy__(self, memo):
        import copy
        return NS(**{k: copy.deepcopy(v, memo) for k, v in self.__dict__.items()})


def model_number(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise ValueError("no value for %s" % e)


def concretize(x, model):
    if isinstance(x, SNum):
        v = model_number(model, x.e)
        return int(v) if x.k == "i" else float(v)
    if isinstance(x, SBool):
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, SStr):
        return model.eval(x.e, model_completion=True).as_string()
    if isinstance(x, NS):
        return NS(**{k: concretize(v, model) for k, v in x.__dict__.items()})
    if isinstance(x, list):
        return [concretize(v, model) for v in x]
    if isinstance(x, tuple):
        return tuple(concretize(v, model) for v in x)
    if isinstance(x, dict):
        return {k: concretize(v, model) for k, v in x.items()}
    if hasattr(x, "__concretize__"):
        return x.__concretize__(model)
    return x


def pin(x):
    """A concrete value as constants of the solver, for exact evaluation."""
    if isinstance(x, bool) or x is None or isinstance(x, (str, int)):
        return x
    if isinstance(x, float):
        if not math.isfinite(x):
            return x
        f = Fraction(x)
        return SNum(z3.Q(f.numerator, f.denominator), "r")
    if isinstance(x, NS):
        return NS(**{k: pin(v) for k, v in x.__dict__.items()})
    if isinstance(x, list):
        return [pin(v) for v in x]
    if isinstance(x, tuple):
        return tuple(pin(v) for v in x)
    if isinstance(x, dict):
        return {k: pin(v) for k, v in x.items()}
    if hasattr(x, "__pin__"):
        return x.__pin__()
    return x


# ------------------------------------------------------------ descriptors

class Desc(object):
    def sym(self, E, name):
        raise NotImplementedError

    def rand(self, rng, pool):
        raise NotImplementedError


class Real(Desc):
    """A finite real in [lo, hi] (ends excluded with lo_open/hi_open)."""

    def __init__(self, lo=None, hi=None, lo_open=False, hi_open=False, extra=(), grid=None):
        self.lo, self.hi, self.lo_open, self.hi_open, self.extra, self.grid = lo, hi, lo_open, hi_open, extra, grid

    def sym(self, E, name):
        v = E.real("a." + name)
        if self.lo is not None:
            E.assume(v > self.lo if self.lo_open else v >= self.lo)
        if self.hi is not None:
            E.assume(v < self.hi if self.hi_open else v <= self.hi)
        return v

    def _ok(self, v):
        if self.lo is not None and (v < self.lo or (self.lo_open and v <= self.lo)):
            return False
        if self.hi is not None and (v > self.hi or (self.hi_open and v >= self.hi)):
            return False
        return True

    def rand(self, rng, pool):
        for _ in range(50):
            c = rng.random()
            lo = self.lo if self.lo is not None else -1000.0
            hi = self.hi if self.hi is not None else 1000.0
            if c < 0.30 and pool:
                v = float(rng.choice(pool))
                d = rng.choice([0, 0, 0, 1e-3, -1e-3, 0.25, -0.25, 1.0, -1.0, 0.0625, -0.0625])
                v += d
            elif c < 0.40 and self.extra:
                v = float(rng.choice(self.extra))
            elif c < 0.50:
                v = float(rng.choice([lo, hi, (lo + hi) / 2.0]))
                v += rng.choice([0, 0, 0.5, -0.5, 1e-3, -1e-3])
            elif c < 0.65:
                v = float(rng.randint(int(math.ceil(lo)), max(int(math.ceil(lo)), int(math.floor(hi)))))
                if rng.random() < 0.5:
                    v += rng.choice([0.5, -0.5, 0.25, -0.25, 0.125])
            elif c < 0.85:
                v = round(rng.uniform(lo, hi), rng.choice([0, 1, 1, 2, 3]))
            else:
                v = rng.uniform(lo, hi)
            if self.grid:
                v = round(v / self.grid) * self.grid
            if self._ok(v):
                return v
        return float(self.lo if self.lo is not None and not self.lo_open else (lo + hi) / 2.0)


class Split(Real):
    """A real in [lo, hi], as whole part and fraction (easier where floors are taken)."""

    def sym(self, E, name):
        y, g = E.int("a." + name + ".whole"), E.real("a." + name + ".part")
        E.assume(And(g >= 0, g < 1, y >= math.floor(self.lo), y <= math.floor(self.hi)))
        v = y + g
        E.assume(And(v >= self.lo, v <= self.hi))
        return v


class Int(Desc):
    def __init__(self, lo=None, hi=None, extra=()):
        self.lo, self.hi, self.extra = lo, hi, extra

    def sym(self, E, name):
        v = E.int("a." + name)
        if self.lo is not None:
            E.assume(v >= self.lo)
        if self.hi is not None:
            E.assume(v <= self.hi)
        return v

    def rand(self, rng, pool):
        lo = self.lo if self.lo is not None else -3000
        hi = self.hi if self.hi is not None else 3000
        for _ in range(30):
            c = rng.random()
            if c < 0.3 and pool:
                v = int(rng.choice(pool)) + rng.choice([0, 0, 1, -1])
            elif c < 0.4 and self.extra:
                v = rng.choice(self.extra)
            elif c < 0.55:
                v = rng.choice([lo, hi, lo + 1, hi - 1])
            else:
                v = rng.randint(lo, hi)
            if lo <= v <= hi:
                return v
        return rng.randint(lo, hi)


class Enum(Desc):
    """One of the given concrete values, each its own case."""

    def __init__(self, *values):
        self.values = list(values)

    def sym(self, E, name):
        return self.values[E.choose(len(self.values))]

    def rand(self, rng, pool):
        return rng.choice(self.values)


class Cases(Desc):
    """An int in [lo, hi], each value its own case."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def sym(self, E, name):
        return self.lo + E.choose(self.hi - self.lo + 1)

    def rand(self, rng, pool):
        return rng.randint(self.lo, self.hi)


class OneOf(Desc):
    def __init__(self, *descs):
        self.descs = list(descs)

    def sym(self, E, name):
        return self.descs[E.choose(len(self.descs))].sym(E, name)

    def rand(self, rng, pool):
        return rng.choice(self.descs).rand(rng, pool)


class Const(Desc):
    def __init__(self, v):
        self.v = v

    def sym(self, E, name):
        return self.v

    def rand(self, rng, pool):
        return self.v


class Opt(Desc):
    """None, or the descriptor's."""

    def __init__(self, d, p=0.15):
        self.d, self.p = d, p

    def sym(self, E, name):
        if E.choose(2):
            return None
        return self.d.sym(E, name)

    def rand(self, rng, pool):
        return None if rng.random() < self.p else self.d.rand(rng, pool)


class IntSet(Desc):
    """An int out of a finite set, kept symbolic."""

    def __init__(self, *values):
        self.values = values

    def sym(self, E, name):
        v = E.int("a." + name)
        E.assume(z3.Or([v.e == k for k in self.values]))
        return v

    def rand(self, rng, pool):
        return rng.choice(self.values)


class Bool(Desc):
    def sym(self, E, name):
        return E.bool("a." + name)

    def rand(self, rng, pool):
        return rng.random() < 0.5


class Str(Desc):
    """Any string; the samples are drawn from the given ones."""

    def __init__(self, *samples, **kw):
        self.samples = samples or ("", "SHIP     ", "ABC")
        self.maxlen = kw.get("maxlen")

    def sym(self, E, name):
        v = SStr(E.fresh("a." + name, z3.StringSort()))
        if self.maxlen is not None:
            E.assume(z3.Length(v.e) <= self.maxlen)
        return v

    def rand(self, rng, pool):
        return rng.choice(self.samples)


class Tup(Desc):
    def __init__(self, *descs):
        self.descs = descs

    def sym(self, E, name):
        return [d.sym(E, "%s.%d" % (name, i)) for i, d in enumerate(self.descs)]

    def rand(self, rng, pool):
        return [d.rand(rng, pool) for d in self.descs]


class Lst(Desc):
    """A list of n elements, n in lens (each length its own case): bounded."""

    def __init__(self, d, lens):
        self.d, self.lens = d, list(lens)

    def sym(self, E, name):
        n = self.lens[E.choose(len(self.lens))]
        return [self.d.sym(E, "%s.%d" % (name, i)) for i in range(n)]

    def rand(self, rng, pool):
        n = rng.choice(self.lens)
        return [self.d.rand(rng, pool) for _ in range(n)]


class Rec(Desc):
    """A record: an NS of the given descriptors."""

    def __init__(self, **descs):
        self.descs = descs

    def sym(self, E, name):
        return NS(**{k: d.sym(E, "%s.%s" % (name, k)) for k, d in self.descs.items()})

    def rand(self, rng, pool):
        return NS(**{k: d.rand(rng, pool) for k, d in self.descs.items()})


class Dict(Desc):
    def __init__(self, **descs):
        self.descs = descs

    def sym(self, E, name):
        return {k: d.sym(E, "%s.%s" % (name, k)) for k, d in self.descs.items()}

    def rand(self, rng, pool):
        return {k: d.rand(rng, pool) for k, d in self.descs.items()}


class Fn(Desc):
    """Custom: functions for the symbolic and the random value."""

    def __init__(self, sym, rand):
        self._s, self._r = sym, rand

    def sym(self, E, name):
        return self._s(E, name)

    def rand(self, rng, pool):
        return self._r(rng, pool)


# -------------------------------------------------- logic for specifications

def And(*xs):
    es = []
    for x in xs:
        if isinstance(x, Sym) or isinstance(x, z3.ExprRef):
            es.append(x if isinstance(x, z3.ExprRef) else core.boolexpr(x))
        elif not x:
            return False
    if not es:
        return True
    return core.mkb(z3.simplify(z3.And(es)))


def Or(*xs):
    es = []
    for x in xs:
        if isinstance(x, Sym) or isinstance(x, z3.ExprRef):
            es.append(x if isinstance(x, z3.ExprRef) else core.boolexpr(x))
        elif x:
            return True
    if not es:
        return False
    return core.mkb(z3.simplify(z3.Or(es)))


def Not(x):
    e = core.boolexpr(x)
    return (not x) if e is None else core.mkb(z3.simplify(z3.Not(e)))


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if not isinstance(c, Sym):
        return a if c else b
    return core.ite(c, a, b)


def Abs(x):
    return abs(x)


def Min(a, b):
    return Ite(b < a, b, a)


def Max(a, b):
    return Ite(b > a, b, a)


def Floor(x):
    if isinstance(x, SNum):
        return SNum(core.rfloor(core.real(x.e, x.k)), "i")
    return math.floor(x)


def Trunc(x):
    return core.toint(x)


class Raised(object):
    """Outcome: an exception of the named class."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Raised(%s)" % self.name


TOL = 1e-9


def close(a, b, tol=None):
    """Equality: exact on symbols, up to rounding on floats."""
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a == b
    if isinstance(a, float) or isinstance(b, float) or isinstance(a, Fraction) or isinstance(b, Fraction) or \
            type(a).__module__ == "numpy" or type(b).__module__ == "numpy":
        fa, fb = float(a), float(b)
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        t = TOL if tol is None else tol
        return abs(fa - fb) <= t * max(1.0, abs(fa), abs(fb))
    return a == b


def eq(a, b, tol=None):
    """Structural equality of results."""
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised) and (a.name == b.name or "*" in (a.name, b.name))
    if a is None or b is None:
        return a is None and b is None
    if "Text" in (type(a).__name__, type(b).__name__):
        return a == b
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return a == b
        return False
    if isinstance(a, NS) and isinstance(b, NS):
        a, b = a.__dict__, b.__dict__
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return And(*[eq(a[k], b[k], tol) for k in a])
    if hasattr(a, "tolist") and not core.is_num(a):
        a = a.tolist()
    if hasattr(b, "tolist") and not core.is_num(b):
        b = b.tolist()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return And(*[eq(x, y, tol) for x, y in zip(a, b)])
    if core.is_num(a) and core.is_num(b):
        for x, y in ((a, b), (b, a)):
            f = core.nonfinite(x)
            if f is not None and isinstance(y, Sym):
                return False
        return close(a, b, tol)
    return bool(a == b)


def pair(a, b):
    """numbers for contract code: exact division of two reals without forks"""
    return core.truediv(a, b)


_rng = random
