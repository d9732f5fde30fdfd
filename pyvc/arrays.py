"""numpy arrays of unbounded length, as functions of the index: cell(j) is (nan, value).

Statements about all indices are kept as facts and used at the indices that matter ("mentioned" ones); whole-array
functions (cumsum, median, mean ...) are handed to the specification, which says what the array must hold and
answers with its own name for the result."""
import math
import z3

from . import core, seqs, values
from .core import SNum, SBool, Unsupported, lift, mkb
from .values import And, Or, Not, Implies, Ite


def b(x):
    return x if isinstance(x, z3.ExprRef) else core.boolexpr(x) if core.boolexpr(x) is not None else z3.BoolVal(bool(x))


# ------------------------------------------------------ facts about all indices

def _reg(tag):
    return core.engine().memo.setdefault(("facts", tag), ([], []))


def mention(i, tag="i"):
    """index i matters: the facts are used there"""
    seen, facts = _reg(tag)
    e = z3.simplify(lift(i)[0])
    if any(e.eq(x) for x in seen):
        return
    seen.append(e)
    E = core.engine()
    for f in list(facts):
        E.assume(b(f(SNum(e, "i"))))


def forall(f, tag="i"):
    """f(i) holds for all i"""
    seen, facts = _reg(tag)
    facts.append(f)
    E = core.engine()
    for e in list(seen):
        E.assume(b(f(SNum(e, "i"))))


def valid(c):
    """whether c holds here for every value of the symbols"""
    E = core.engine()
    return E.decide(b(c))[0] == "discharged"


def generic(name="g"):
    """an arbitrary index"""
    return core.engine().int(name)


def clamp_slice(s, n):
    E = core.engine()

    def lim(v, d):
        if v is None:
            return d
        if E.branch(b(v < 0)):
            v = v + n
            if E.branch(b(v < 0)):
                return 0
        if E.branch(b(v > n)):
            return n
        return v
    a, z = lim(s.start, 0), lim(s.stop, n)
    if E.branch(b(z < a)):
        z = a
    return a, z


class Ghostly(object):
    __ghost__ = True
    __symbolic__ = True
    __array_ufunc__ = None
    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s of an unbounded array" % name)

    def __iter__(self):
        raise Unsupported("loop over an unbounded array without an invariant")

    def __concretize__(self, model):
        raise ValueError("an unbounded array is not made concrete")

    def __bool__(self):
        raise Unsupported("truth of an unbounded array")


def parts(x):
    """(nan, value) of a number"""
    if x is None:
        return True, 0.0
    if hasattr(x, "miss"):
        return x.miss, x.val
    f = core.nonfinite(x)
    if f is not None:
        if math.isnan(f):
            return True, 0.0
        raise Unsupported("infinite element of an unbounded array")
    return False, x


class SymArr(Ghostly):
    def __init__(self, n, fn, kind="r"):
        self.n, self.fn, self.kind = n, fn, kind

    def __deepcopy__(self, memo):
        return SymArr(self.n, self.fn, self.kind)

    def copy(self):
        return SymArr(self.n, self.fn, self.kind)

    def slen(self):
        return self.n

    def __len__(self):
        return int(self.n)

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def cell(self, j):
        return self.fn(j)

    def index(self, i):
        E = core.engine()
        if not core.is_intlike(i):
            raise IndexError("only integers, slices and arrays are valid indices")
        if E.branch(b(Or(i >= self.n, i < -self.n))):
            raise IndexError("index is out of bounds")
        if E.branch(b(i < 0)):
            i = i + self.n
        mention(i)
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step == -1 and i.start is None and i.stop is None:
                return self.flip()
            if i.step not in (None, 1):
                raise Unsupported("slice with a step")
            lo, hi = clamp_slice(i, self.n)
            return View(self, lo, hi - lo)
        if isinstance(i, SymMask):
            return Masked(self, i)
        if isinstance(i, tuple) or hasattr(i, "dtype") and getattr(i, "shape", ()) != ():
            raise Unsupported("index of an unbounded array")
        return self.get(self.index(i))

    def get(self, i):
        nan, x = self.cell(i)
        if nan is False:
            return x
        return float("nan") if core.engine().branch(b(nan)) else x

    def sget(self, i):
        mention(i)
        return self.get(i)

    def __iter__(self):
        raise Unsupported("loop over an unbounded array without an invariant")

    def __setitem__(self, i, x):
        nan, v = parts(x)
        if isinstance(v, Ghostly) or not core.is_num(v):
            raise Unsupported("assignment to an unbounded array")
        v = core.tofloat(v) if self.kind == "r" and core.is_sym(v) else (float(v) if self.kind == "r" else v)
        old = self.fn
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) != (None, None, None):
                raise Unsupported("assignment to a slice")
            self.fn = lambda j: (nan, v)
            return
        if isinstance(i, SymMask):
            m = i.fn

            def masked(j):
                on, x0 = old(j)
                return Ite(m(j), nan, on), Ite(m(j), v, x0)
            self.fn = masked
            return
        i = self.index(i)

        def new(j):
            on, x0 = old(j)
            return Ite(j == i, nan, on), Ite(j == i, v, x0)
        self.fn = new

    def flip(self):
        f, n = self.fn, self.n
        return SymArr(n, lambda j: f(n - 1 - j), self.kind)

    def map2(self, o, op, rev=False):
        f = self.fn
        if isinstance(o, SymArr):
            if not valid(o.n == self.n):
                raise Unsupported("arrays of different lengths")
            g = o.fn
        else:
            c = parts(o)
            g = lambda j: c

        def h(j):
            (m1, x), (m2, y) = f(j), g(j)
            return Or(m1, m2), (op(y, x) if rev else op(x, y))
        return SymArr(self.n, h, self.kind if self.kind == "r" or isinstance(o, SymArr) and o.kind == "r"
                      or not core.is_intlike(o) and not isinstance(o, SymArr) else "i")

    def __add__(self, o):
        return self.map2(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self.map2(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self.map2(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        return self.map2(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SymArr) or core.is_sym(o) or o == 0:
            raise Unsupported("division of an array")
        return self.map2(o, lambda x, y: core.truediv(x, y))

    def __pow__(self, k):
        if k not in (2, 2.0) or core.is_sym(k):
            raise Unsupported("power of an array")
        f = self.fn
        return SymArr(self.n, lambda j: (f(j)[0], f(j)[1] * f(j)[1]), self.kind)

    def sqrt(self):
        f = self.fn

        def g(j):
            nan, x = f(j)
            return Or(nan, x < 0), root(x)
        return SymArr(self.n, g)

    def __neg__(self):
        return self.map2(-1, lambda x, y: x * y)

    def __abs__(self):
        f = self.fn
        return SymArr(self.n, lambda j: (f(j)[0], abs(f(j)[1])), self.kind)

    def compare(self, o, op):
        r = self.map2(o, lambda x, y: op(x, y))
        f = r.fn
        ne = op(0, 1) and op(1, 0)      # only "different" holds of not-a-number

        def g(j):
            nan, c = f(j)
            return Or(nan, c) if ne else And(Not(nan), c)
        return SymMask(self.n, g)

    def __lt__(self, o):
        return self.compare(o, lambda x, y: x < y)

    def __le__(self, o):
        return self.compare(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self.compare(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self.compare(o, lambda x, y: x >= y)

    def __eq__(self, o):
        return self.compare(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self.compare(o, lambda x, y: x != y)

    __hash__ = None

    def isnan(self):
        f = self.fn
        return SymMask(self.n, lambda j: f(j)[0])


class View(SymArr):
    """arr[lo:lo+n]"""

    def __init__(self, base, lo, n):
        f = base.fn
        SymArr.__init__(self, n, lambda j: f(lo + j), base.kind)
        self.base, self.lo = base, lo

    def __setitem__(self, i, x):
        raise Unsupported("assignment to part of an array")

    def __deepcopy__(self, memo):
        return self


class SymMask(Ghostly):
    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __deepcopy__(self, memo):
        return self

    def slen(self):
        return self.n

    def _with(self, o, op):
        if not isinstance(o, SymMask):
            raise Unsupported("mask with something else")
        if not valid(o.n == self.n):
            raise Unsupported("masks of different lengths")
        f, g = self.fn, o.fn
        return SymMask(self.n, lambda j: op(f(j), g(j)))

    def __and__(self, o):
        return self._with(o, And)

    def __or__(self, o):
        return self._with(o, Or)

    __mul__ = __and__

    def __invert__(self):
        f = self.fn
        return SymMask(self.n, lambda j: Not(f(j)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = clamp_slice(i, self.n)
            f = self.fn
            return SymMask(hi - lo, lambda j: f(lo + j))
        i = SymArr.index(self, i)
        return self.fn(i)

    def sget(self, i):
        mention(i)
        return self.fn(i)

    def sany(self):
        """exists j: a witness, or the fact that there is none"""
        E = core.engine()
        some = E.branch(E.bool("any").e)
        f, n = self.fn, self.n
        if some:
            w = E.int("witness")
            E.assume(b(And(w >= 0, w < n)))
            E.assume(b(f(w)))
            mention(w)
            E.memo.setdefault("witnesses", []).append(w)
        else:
            forall(lambda j: Implies(And(j >= 0, j < n), Not(f(j))))
        if not E.feasible():
            raise core.PathEnd()
        return some

    def sall(self):
        return not (~self).sany()

    def end(self, last):
        """the last (first) index where the mask holds; IndexError if none"""
        E = core.engine()
        f, n = self.fn, self.n
        key = "_last" if last else "_first"
        if key in self.__dict__:
            return self.__dict__[key]
        if not self.sany():
            raise IndexError("index is out of bounds for axis 0 with size 0")
        L = E.int("last" if last else "first")
        E.assume(b(And(L >= 0, L < n)))
        E.assume(b(f(L)))
        if last:
            forall(lambda j: Implies(And(j > L, j < n), Not(f(j))))
        else:
            forall(lambda j: Implies(And(j >= 0, j < L), Not(f(j))))
        mention(L)
        self.__dict__[key] = L
        E.memo.setdefault("ends", []).append(L)
        return L


class Masked(Ghostly):
    """arr[mask]"""

    def __init__(self, arr, m):
        if not valid(arr.n == m.n):
            raise Unsupported("mask of another length")
        self.arr, self.m = arr, m

    def __deepcopy__(self, memo):
        return self

    def __len__(self):
        raise Unsupported("length of a selection")

    def slen(self):
        raise Unsupported("length of a selection")

    def __getitem__(self, i):
        if isinstance(i, (SNum, slice)) or i not in (0, -1):
            raise Unsupported("index of a selection")
        return self.arr.get(self.m.end(i == -1))


SQRT = z3.Function("square root", z3.RealSort(), z3.RealSort())


def root(x):
    """the square root, as a function with its defining facts"""
    E = core.engine()
    e = z3.simplify(core.real(*lift(x)))
    known = E.memo.setdefault("roots", [])
    if not any(e.eq(k) for k in known):
        known.append(e)
        E.assume(z3.Implies(e >= 0, SQRT(e) >= 0))
    return SNum(SQRT(e), "r")


def plainly(c):
    """valid whatever the path"""
    s = z3.Solver()
    s.set("timeout", 300)
    s.add(z3.Not(b(c)))
    return s.check() == z3.unsat


def valid_by_roots(c, cheap=None):
    """valid, knowing what square roots are if need be (cheap: True only without the path, False only with it)"""
    if cheap is not False and plainly(c):
        return True
    if cheap:
        return False
    if valid(c):
        return True
    es = core.engine().memo.get("roots", [])
    if not es or len(es) > 12:
        return False
    ax = [z3.Implies(e >= 0, core.product(SQRT(e), SQRT(e)) == e) for e in es]
    ax += [z3.Implies(z3.And(e >= 0, f >= 0), z3.And((SQRT(e) > SQRT(f)) == (e > f), (SQRT(e) == SQRT(f)) == (e == f)))
           for i, e in enumerate(es) for f in es[:i]]
    return valid(z3.Implies(z3.And(*ax), b(c)))


def origin(arr, U):
    """Where a window of U-indexed content lies: (lo, direction) so that cell j is about U(lo + j) or, backwards,
    U(lo + n - 1 - j)."""
    j = z3.FreshInt("probe")
    x = arr.fn(SNum(j, "i"))
    x = b(x) if isinstance(arr, SymMask) else lift(x[1])[0]
    found, todo = None, [x]
    while todo and found is None:
        t = todo.pop()
        if z3.is_app(t) and t.num_args() and t.decl().eq(U):
            found = t.arg(0)
        todo.extend(t.children())
    if found is None:
        return None
    at = [z3.simplify(z3.substitute(found, (j, z3.IntVal(k)))) for k in (0, 1)]
    d = z3.simplify(at[1] - at[0])
    if not z3.is_int_value(d) or abs(d.as_long()) != 1:
        return None
    lo = SNum(at[0], "i")
    return (lo, 1) if d.as_long() == 1 else (SNum(z3.simplify(lift(lo - (arr.n - 1))[0]), "i"), -1)


def windows(arr, U, named, within, given):
    """(name, lo) of the first content the array holds a window of; else None"""
    o = located(arr, U, within)
    if o is None:
        return None
    for cheap in (True, False):
        for name, fn in named:
            lo = window(arr, U, fn, within, given, cheap, o)
            if lo is not None:
                return name, lo
    return None


def located(arr, U, within):
    o = origin(arr, U)
    return o if o is not None and valid(And(o[0] >= 0, o[0] + arr.n <= within)) else None


def window(arr, U, fn, within, given=lambda i: True, cheap=None, o=None):
    """lo such that the array (or mask) holds fn of the indices lo .. lo + n - 1, in either order; else None.
    The window lies within 0 .. within - 1, where given holds of each index."""
    o = o or located(arr, U, within)
    if o is None:
        return None
    lo, d = o
    at = (lambda j: lo + j) if d == 1 else (lambda j: lo + arr.n - 1 - j)
    return lo if (sameb if isinstance(arr, SymMask) else same)(arr, lambda j: fn(at(j)), given=lambda j: given(at(j)), cheap=cheap) else None


def sameb(m, fn, cheap=None, given=lambda j: True):
    j = generic()
    x, y = b(m.fn(j)), b(fn(j))
    return valid_by_roots(z3.Implies(b(And(j >= 0, j < m.n, given(j))), x == y), cheap)


def recognise(op, arr, *more):
    """the specification's name for a whole-array function of this array"""
    f = core.engine().memo.get("recognise")
    r = f(op, arr, *more) if f is not None else None
    if r is None:
        raise Unsupported("%s of an array that is not what the specification takes it of" % op)
    return r


def same(arr, fn, n=None, cheap=None, given=lambda j: True):
    """arr holds fn(j) at every index j, for all values of the symbols"""
    j = generic()
    if n is not None and not valid(arr.n == n):
        return False
    nan, x = arr.cell(j)
    m, y = fn(j)
    return valid_by_roots(Implies(And(j >= 0, j < arr.n, given(j)), And(Or(And(nan, m), And(Not(nan), Not(m))), Or(m, x == y))), cheap)


def filled(**arrays):
    """For a loop that fills arrays: name -> content(i, j) of cell j after i iterations.
    (havoc entries, invariant): the invariant says so of an arbitrary cell."""
    def hav(f):
        def h(E, v, s, name=None):
            a = v.__dict__[name]
            i = s.now
            a.fn = lambda j: f(i, j)
            return a
        return h
    havoc = {n: (lambda E, v, s, n=n, h=hav(f): h(E, v, s, n)) for n, f in arrays.items()}

    def inv(v, s):
        E = core.engine()
        j = E.memo.setdefault("cell", None)
        if j is None:
            j = E.memo["cell"] = E.int("cell")
        out = []
        for n, f in arrays.items():
            a = v.__dict__.get(n)
            if not isinstance(a, SymArr):
                raise Unsupported("%s is not an array" % n)
            nan, x = a.cell(j)
            m, y = f(s.i, j)
            out.append(("%s so far" % n, Implies(And(j >= 0, j < a.n),
                                                 And(Or(And(nan, m), And(Not(nan), Not(m))), Or(m, x == y)))))
        return out
    return havoc, inv
