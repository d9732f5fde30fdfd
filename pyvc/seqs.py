"""Lists of unbounded length: a z3 array and a length."""
import z3

from . import core, values
from .core import SNum, Unsupported, lift, real, mk
from .values import Desc, Raised


def _i(x):
    l = lift(x)
    if l is None or l[1] != "i":
        raise TypeError("list indices must be integers or slices, not float")
    return l[0]


class Arr(object):
    """A total array of ints or reals; facts hold of every element."""

    def __init__(self, name, kind, facts, sorted_=False):
        E = core.engine()
        self.kind = kind
        self.name = E.name(name)
        self.e = z3.Array(self.name, z3.IntSort(), z3.IntSort() if kind == "i" else z3.RealSort())
        self.sum = z3.Function("sum." + self.name, z3.IntSort(), z3.IntSort() if kind == "i" else z3.RealSort())
        self.facts = facts
        self.sorted = sorted_
        self.seen = []
        self.sums = False
        self.version = None

    def at(self, i):
        E = core.engine()
        i = z3.simplify(i)
        v = z3.Select(self.e, i)
        if not any(i.eq(j) for j in self.seen):
            for f in self.facts:
                E.assume(f(SNum(v, self.kind)))
            if self.sorted:
                for j in self.seen:
                    w = z3.Select(self.e, j)
                    E.assume(z3.And(z3.Implies(i <= j, v <= w), z3.Implies(j <= i, w <= v)))
            self.seen.append(i)
            E.assume(self.sum(z3.simplify(i + 1)) == self.sum(i) + v)
        return SNum(v, self.kind)

    def psum(self, k):
        """sum of the elements before k"""
        E = core.engine()
        if not self.sums:
            self.sums = True
            E.assume(self.sum(z3.IntVal(0)) == 0)
        return SNum(self.sum(z3.simplify(k)), self.kind)


class SymSeq(object):
    """A list: elements lo .. lo+n-1 of an array."""

    def __init__(self, arr, n, lo=0):
        self.arr, self.n, self.lo = arr, n, lo

    def __deepcopy__(self, memo):
        return SymSeq(self.arr, self.n, self.lo)

    def slen(self):
        return self.n

    def __len__(self):
        return int(self.n)

    def __bool__(self):
        return core.engine().branch(_i(self.n) > 0)

    def sget(self, i):
        return self.arr.at(_i(self.lo + i))

    def __getitem__(self, i):
        E = core.engine()
        n = self.n
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("slice with a step of an unbounded list")

            def lim(v, d):
                if v is None:
                    return d
                if E.branch(_i(v) < 0):
                    v = v + n
                    if E.branch(_i(v) < 0):
                        return 0
                if E.branch(_i(v) > _i(n)):
                    return n
                return v
            a, b = lim(i.start, 0), lim(i.stop, n)
            if E.branch(_i(b) < _i(a)):
                b = a
            return SymSeq(self.arr, b - a, self.lo + a)
        e = _i(i)
        if E.branch(z3.Or(e >= _i(n), e < -_i(n))):
            raise IndexError("list index out of range")
        return self.sget(i if not E.branch(e < 0) else i + n)

    def __iter__(self):
        if not isinstance(self.n, SNum):
            return iter([self.sget(k) for k in range(self.n)])
        raise Unsupported("loop over an unbounded list without an invariant")

    def sort(self):
        if not (isinstance(self.lo, int) and self.lo == 0):
            raise Unsupported("sort of a slice")
        self.arr = sorted_of(self.arr)

    def copy(self):
        return SymSeq(self.arr, self.n, self.lo)

    def total(self):
        """sum of the elements; for a sorted list, within length times its ends"""
        E = core.engine()
        lo, hi = _i(self.lo), _i(self.lo + self.n)
        r = self.arr.psum(hi) - self.arr.psum(lo)
        if self.arr.sorted:
            a, b = self.arr.at(lo), self.arr.at(hi - 1)
            n = self.n
            E.assume(values.Implies(n >= 1, values.And(r >= n * a, r <= n * b)))
        return r

    def __concretize__(self, model):
        n = values.concretize(self.n, model) if isinstance(self.n, SNum) else self.n
        if n > 40:
            raise ValueError("long list")
        lo = self.lo if isinstance(self.lo, int) else values.concretize(self.lo, model)
        return [values.concretize(SNum(z3.Select(self.arr.e, z3.IntVal(lo + k)), self.arr.kind), model)
                for k in range(n)]


class FnSeq(object):
    """A sequence of n elements given by a function of the index; its elements may be of any kind."""
    __ghost__ = True

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __deepcopy__(self, memo):
        return self

    def slen(self):
        return self.n

    def __len__(self):
        return int(self.n)

    def sget(self, i):
        return self.f(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a function sequence")
        E = core.engine()
        e, n = _i(i), _i(self.n)
        if E.branch(z3.Or(e >= n, e < -n)):
            raise IndexError("list index out of range")
        return self.f(i if not E.branch(e < 0) else i + self.n)

    def __iter__(self):
        if not isinstance(self.n, SNum):
            return iter([self.f(k) for k in range(self.n)])
        raise Unsupported("loop over an unbounded list without an invariant")


def sorted_of(arr):
    if arr.sorted:
        return arr
    E = core.engine()
    key = ("sorted", arr.name)
    if key not in E.memo:
        E.memo[key] = Arr("sorted." + arr.name, arr.kind, arr.facts, True)
    return E.memo[key]


class Seq(Desc):
    """A list of any length (at least lo) of reals or ints within bounds."""

    def __init__(self, d, lo=0, sample=range(0, 13), sorted_=False):
        self.d, self.lo, self.sample, self.sorted = d, lo, [n for n in sample if n >= lo], sorted_

    def sym(self, E, name):
        n = E.int("a." + name + ".len")
        E.assume(n >= self.lo)
        d = self.d
        facts = []
        if d.lo is not None:
            facts.append(lambda v: (v > d.lo) if getattr(d, "lo_open", False) else (v >= d.lo))
        if d.hi is not None:
            facts.append(lambda v: (v < d.hi) if getattr(d, "hi_open", False) else (v <= d.hi))
        kind = "i" if isinstance(d, values.Int) else "r"
        return SymSeq(Arr("a." + name, kind, facts, self.sorted), n)

    def rand(self, rng, pool):
        n = rng.choice(self.sample)
        r = [self.d.rand(rng, pool) for _ in range(n)]
        if n and rng.random() < 0.3:
            r = [rng.choice(r) for _ in r]
        return sorted(r) if self.sorted else r


def order(x):
    """The list in order."""
    if isinstance(x, SymSeq):
        y = x.copy()
        y.sort()
        return y
    return sorted(x)


def total(x, lo=0, hi=None):
    hi = values_len(x) if hi is None else hi
    if isinstance(x, SymSeq):
        return SymSeq(x.arr, hi - lo, x.lo + lo).total()
    r = 0.0
    for v in x[lo:hi]:
        r = r + v
    return r


def values_len(x):
    return x.slen() if hasattr(x, "slen") else len(x)


def std(x):
    """Standard deviation of a non-empty list: a function of the array and the
    slice, between nothing and the range of the (sorted) values."""
    if isinstance(x, SymSeq):
        E = core.engine()
        f = z3.Function("std." + x.arr.name, z3.IntSort(), z3.IntSort(), z3.RealSort())
        r = SNum(f(z3.simplify(_i(x.lo)), z3.simplify(_i(x.n))), "r")
        E.approx = True
        E.assume(r >= 0)
        if x.arr.sorted:
            E.assume(r <= x.arr.at(_i(x.lo + x.n) - 1) - x.arr.at(_i(x.lo)))
        return r
    import numpy as np
    if any(isinstance(v, core.Sym) for v in x):
        from . import facade
        return facade.n_std(list(x))
    return float(np.std(x))


def cut(x, lo, hi):
    """x[lo:hi] for 0 <= lo <= hi <= len(x)"""
    if isinstance(x, SymSeq):
        return SymSeq(x.arr, hi - lo, x.lo + lo)
    return x[lo:hi]


class Ghost(object):
    """What a list built by a loop held before the current iteration, as its first element: its length, its last
    element and whether it contains given things; the rest of the list is what the iteration appended."""
    __symbolic__ = True

    def __init__(self, n, last=None, **facts):
        self.n, self.last = n, last
        self.__dict__.update(facts)

    def __deepcopy__(self, memo):
        return self


def ghost(xs):
    """(ghost or None, elements appended since)"""
    if len(xs) and isinstance(xs[0], Ghost):
        return xs[0], list(xs[1:])
    return None, list(xs)


def glen(xs):
    g, new = ghost(xs)
    return len(new) if g is None else g.n + len(new)


def ghas(xs, x, fact="has"):
    """whether the list contains x"""
    g, new = ghost(xs)
    r = values.Or(*[y == x for y in new])
    return r if g is None else values.Or(r, getattr(g, fact))


def glast(xs, default=None):
    g, new = ghost(xs)
    return new[-1] if new else (g.last if g is not None else default)


def gascending(xs):
    g, new = ghost(xs)
    prev = g.last if g is not None else None
    out = []
    for i, x in enumerate(new):
        if prev is not None:
            c = x > prev
            out.append(values.Or(g.n == 0, c) if g is not None and i == 0 else c)
        prev = x
    return values.And(*out)
