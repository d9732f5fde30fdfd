"""Shared vocabulary of the specifications."""
import math
from pyvc import core
from pyvc.contract import Contract
from pyvc.values import *
from pyvc.facade import LoopSpec


class Specs(list):
    def add(self, *a, **k):
        c = Contract(*a, **k)
        self.append(c)
        return c


def b(x):
    return Ite(x, 1, 0)


def isleap(y):
    return And(y % 4 == 0, Or(y % 100 != 0, y % 400 == 0))


LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def pick(i, xs):
    """xs[i] for a possibly symbolic index within range (else some element)"""
    if not isinstance(i, core.Sym):
        return xs[min(max(int(i), 0), len(xs) - 1)]
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = Ite(i == j, xs[j], r)
    return r


def mlen(y, m):
    """Length of month m (1-12) of year y in the Gregorian calendar."""
    return pick(m - 1, [31, Ite(isleap(y), 29, 28)] + LEN[2:])


def cum365(m):
    return pick(m - 1, [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334])


def ordinal(y, m, d):
    """Day number of the proleptic Gregorian calendar (1 January of year 1 is 1)."""
    y1 = y - 1
    return 365 * y1 + y1 // 4 - y1 // 100 + y1 // 400 + cum365(m) + Ite(And(m > 2, isleap(y)), 1, 0) + d


def validdate(y, m, d):
    return And(m >= 1, m <= 12, d >= 1, d <= mlen(y, m))


def fn(name, x):
    """erf, exp, sqrt ... of a possibly symbolic number"""
    if isinstance(x, core.Sym):
        return core.engine().fn(name, x)
    return getattr(math, name)(x)


def fn2(name, x, y):
    if isinstance(x, core.Sym) or isinstance(y, core.Sym):
        return core.engine().fn2(name, x, y)
    return getattr(math, name)(x, y)


def sin(x):
    return fn("sin", x)


def cos(x):
    return fn("cos", x)


def div(x, y):
    """x / y; of no particular value for y = 0"""
    if core.is_sym(x) or core.is_sym(y):
        a, b_ = core.lift(x), core.lift(y)
        return core.SNum(core.real(*a) / core.real(*b_), "r")
    return float(x) / y


def anchor(name, *xs):
    """the function's value at constants, as lemma"""
    E = core.engine()
    if E is not None and not getattr(E, "exact", False):
        from pyvc import functions
        for x in xs:
            functions.anchor(E, name, x)
    return True


def rounded(r, x, scale):
    """r is x rounded to a multiple of 1/scale"""
    if core.has_sym([r, x]):
        k = r * scale
        d = k - x * scale
        return And(core.SNum(*core.lift(core.tofloat(k))).is_integer() if core.is_sym(k) else float(k).is_integer(),
                   d <= 0.5, d >= -0.5)
    k = r * scale
    e = 1e-9 * max(1.0, abs(k))
    return abs(k - round(k)) <= e and abs(k - x * scale) <= 0.5 + e


def lemma(cond, name, given=None):
    """an intermediate fact: proved here (from the given facts alone), then used"""
    E = core.engine()
    if E is None or getattr(E, "exact", False):
        return True
    if E.prove(cond, name, aux=True) if given is None else E.prove_from(given, cond, name):
        E.assume(cond if not isinstance(cond, bool) else core.z3.BoolVal(cond))
    return True
