"""Large arrays of a fixed shape as functions of the cell: reading and writing one cell, the cells that are not zero,
and arithmetic on those."""
import z3

from . import core
from .core import SNum, Unsupported, lift
from .values import And, Ite


def simp(i):
    return z3.simplify(lift(i)[0])


class Grid(object):
    """fn(*cell) -> number; `written` counts the assignments"""
    __symbolic__ = True
    __ghost__ = True

    def __init__(self, shape, fn):
        self.shape, self.fn = tuple(shape), fn

    def __deepcopy__(self, memo):
        return Grid(self.shape, self.fn)

    def index(self, k, axis):
        l = lift(k)
        if l is None or l[1] != "i":
            raise IndexError("only integers are valid indices")
        n = self.shape[axis]
        E = core.engine()
        e = l[0]
        if E.branch(z3.Or(e >= n, e < -n)):
            raise IndexError("index out of bounds for axis with size %d" % n)
        return SNum(e + n, "i") if E.branch(e < 0) else SNum(e, "i")

    def cell(self, key):
        return tuple(self.index(k, j) for j, k in enumerate(key))

    def __getitem__(self, key):
        if isinstance(key, Occupied):
            return Picked(self.fn, key)
        if isinstance(key, tuple):
            if len(key) != len(self.shape):
                raise Unsupported("part of a large array")
            return self.fn(*self.cell(key))
        if isinstance(key, slice):
            raise Unsupported("part of a large array")
        return Row(self, (key,))

    def __setitem__(self, key, value):
        old = self.fn
        if isinstance(key, Occupied):
            if not isinstance(value, Picked) or value.occ is not key:
                raise Unsupported("assignment to the cells that are not zero")
            self.fn = lambda *c: Ite(key.at(*c), value.fn(*c), old(*c))
            return
        if not isinstance(key, tuple) or len(key) != len(self.shape):
            raise Unsupported("part of a large array")
        here = self.cell(key)
        value = core.tofloat(value)
        self.fn = lambda *c: Ite(And(*[a == x for a, x in zip(c, here)]), value, old(*c))

    def snonzero(self):
        return core.engine().memo["nonzero"](self)


class Row(object):
    __symbolic__ = True

    def __init__(self, g, key):
        self.g, self.key = g, key

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("part of a large array")
        key = self.key + (k if isinstance(k, tuple) else (k,))
        return self.g[key] if len(key) == len(self.g.shape) else Row(self.g, key)

    def __setitem__(self, k, v):
        self.g[self.key + (k if isinstance(k, tuple) else (k,))] = v


class Occupied(tuple):
    """what np.nonzero answers: the cells, in some order, each once (as a tuple of sequences of indices)"""
    __symbolic__ = True

    def __new__(cls, seqs, at):
        t = tuple.__new__(cls, seqs)
        t.at = at
        return t


class Picked(object):
    """a grid's values at the cells that are not zero"""
    __symbolic__ = True

    def __init__(self, fn, occ):
        self.fn, self.occ = fn, occ

    def _with(self, o, f):
        if isinstance(o, Picked):
            if o.occ is not self.occ:
                raise Unsupported("cells of different arrays")
            return Picked(lambda *c: f(self.fn(*c), o.fn(*c)), self.occ)
        return Picked(lambda *c: f(self.fn(*c), o), self.occ)

    def __add__(self, o):
        return self._with(o, lambda x, y: x + y)

    def __sub__(self, o):
        return self._with(o, lambda x, y: x - y)

    def __mul__(self, o):
        return self._with(o, lambda x, y: x * y)

    def __truediv__(self, o):
        # each of the cells divided by is one that is not zero: no division by zero is at stake
        if not isinstance(o, Picked) or o.occ is not self.occ or o.fn is not self.occ.fn:
            raise Unsupported("division of some cells")
        return self._with(o, lambda x, y: SNum(core.real(*lift(x)) / core.real(*lift(y)), "r"))
