"""Symbolic values, path exploration and obligations.

Everything here is the verification-condition generator: the code under
verification runs (instrumented, see instr.py) on the symbolic values below;
each run is one path, each path yields obligations that the solvers must
discharge for every value of the symbols.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param("model.completion", True)


class Control(BaseException):
    """Engine control flow; never caught by the code under verification."""


class PathEnd(Control):
    """This path is finished (infeasible, or cut after a loop invariant)."""


class Unsupported(Control):
    """The code uses something the encoder does not cover: no verdict."""


class OutOfTime(Control):
    pass


E = None  # the engine of the current exploration


def set_engine(e):
    global E
    E = e


def engine():
    return E


# --------------------------------------------------------------- values

class Sym:
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _q(fr):
    return z3.Q(fr.numerator, fr.denominator)


def is_num(x):
    if isinstance(x, (SNum, SBool, int, Fraction)):
        return True
    if isinstance(x, float):
        return True
    return type(x).__module__ == "numpy" and getattr(getattr(x, "dtype", None), "kind", "") in "iubf" \
        and getattr(x, "shape", None) == ()


def lift(x):
    """A finite number as (z3 expression, kind); None when it is none."""
    if isinstance(x, SNum):
        return x.e, x.k
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), "i"
    if isinstance(x, bool):
        return z3.IntVal(int(x)), "i"
    if isinstance(x, int):
        return z3.IntVal(x), "i"
    if isinstance(x, Fraction):
        return _q(x), "r"
    if isinstance(x, float):
        if math.isfinite(x):
            return _q(Fraction(x)), "r"
        return None
    if type(x).__module__ == "numpy" and getattr(x, "shape", None) == ():
        kind = x.dtype.kind
        if kind in "iub":
            return z3.IntVal(int(x)), "i"
        if kind == "f" and math.isfinite(float(x)):
            return _q(Fraction(float(x))), "r"
    return None


def nonfinite(x):
    """The float value of a concrete nan or infinity, else None."""
    try:
        if isinstance(x, float) or (type(x).__module__ == "numpy" and x.dtype.kind == "f" and x.shape == ()):
            f = float(x)
            return None if math.isfinite(f) else f
    except AttributeError:
        pass
    return None


def real(e, k):
    return z3.ToReal(e) if k == "i" else e


def is_intlike(x):
    if isinstance(x, SNum):
        return x.k == "i"
    if isinstance(x, (SBool, int)):
        return True
    dtype = getattr(x, "dtype", None)
    return dtype is not None and getattr(dtype, "kind", "") in "iub"


def ifloordiv(a, b):
    """Python floor division of two z3 integers (b != 0)."""
    if z3.is_int_value(b):
        return a / b if b.as_long() > 0 else (-a) / z3.IntVal(-b.as_long())
    return z3.If(b > 0, a / b, (-a) / (-b))


def rfloor(e):
    """floor of a real expression, with integer summands taken out of it"""
    return _floor(z3.simplify(e, som=True), 4)


def _whole(t):
    """integer expression equal to the real summand t, or None"""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and \
            t.arg(0).denominator_as_long() == 1 and z3.is_app_of(t.arg(1), z3.Z3_OP_TO_REAL):
        return z3.IntVal(t.arg(0).numerator_as_long()) * t.arg(1).arg(0)
    return None


def _floor(e, depth):
    if depth and z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), _floor(z3.simplify(e.arg(1), som=True), depth - 1),
                     _floor(z3.simplify(e.arg(2), som=True), depth - 1))
    if not z3.is_add(e):
        w = _whole(e)
        return z3.ToInt(e) if w is None else w
    whole, rest = [], []
    for t in e.children():
        w = _whole(t)
        if w is None and z3.is_rational_value(t):
            n = t.numerator_as_long() // t.denominator_as_long()
            whole.append(z3.IntVal(n))
            rest.append(t - n)
        elif w is None:
            rest.append(t)
        else:
            whole.append(w)
    if depth:
        for i, t in enumerate(rest):
            c, k = t, 1
            if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
                k, c = t.arg(0), t.arg(1)
            if z3.is_app_of(c, z3.Z3_OP_ITE):
                def alt(j):
                    return _floor(z3.simplify(z3.Sum([k * c.arg(j)] + rest[:i] + rest[i + 1:]), som=True), depth - 1)
                r = z3.If(c.arg(0), alt(1), alt(2))
                return z3.Sum([r] + whole)
    if not rest:
        return z3.Sum(whole)
    return z3.Sum([z3.ToInt(z3.simplify(z3.Sum(rest)))] + whole)


def rtrunc(e):
    return z3.If(e >= 0, rfloor(e), -rfloor(-e))


def mk(e, k):
    if k == "i" and z3.is_int_value(e):
        return e.as_long()
    return SNum(e, k)


def elementwise(f, x):
    r = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        r[i] = f(x[i])
    if r.size and all(isinstance(v, (bool, np.bool_)) for v in r.ravel()):
        return r.astype(bool)
    return r


MUL = z3.Function("product", z3.RealSort(), z3.RealSort(), z3.RealSort())


def product(a, b):
    """a * b; of two reals that are no constants, where a specification asks for it, as an opaque function"""
    if E is None or E.memo.get("products") != "opaque" or a.sort() != z3.RealSort() or b.sort() != z3.RealSort():
        return a * b
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_rational_value(a) or z3.is_rational_value(b):
        return a * b
    x, y = a.decl().name(), b.decl().name()
    if y < x or (x == y and not a.eq(b) and str(b) < str(a)):
        a, b = b, a
    p = MUL(a, b)
    if a.eq(b):
        known = E.memo.setdefault("squares", [])
        if not any(p.eq(q) for q in known):
            known.append(p)
            E.assume(p >= 0)
    return p


class SNum(Sym):
    """A symbolic int ('i', unbounded) or float ('r', a real number)."""
    __slots__ = ("e", "k", "t")

    def __init__(self, e, k, t=None):
        self.e = e
        self.k = k
        self.t = t  # python/numpy type this value stands for, if not int/float

    # arithmetic
    def _bin(self, other, f, rev=False):
        o = lift(other)
        if o is None:
            if isinstance(other, np.ndarray) and other.ndim:
                return elementwise(lambda x: self._bin1(x, f, rev), other)
            nf = nonfinite(other)
            if nf is not None:
                return None
            return NotImplemented
        a, b = (o, (self.e, self.k)) if rev else ((self.e, self.k), o)
        if a[1] == "i" and b[1] == "i":
            return mk(f(a[0], b[0]), "i")
        return SNum(f(real(*a), real(*b)), "r")

    def _bin1(self, x, f, rev):
        r = self._bin(x, f, rev)
        if r is None:
            raise Unsupported("array with nan or infinity, and a symbol")
        if r is NotImplemented:
            raise TypeError("unsupported operand of an array and a number")
        return r

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        return float(o) if r is None else r

    def __radd__(self, o):
        r = self._bin(o, lambda a, b: a + b, True)
        return float(o) if r is None else r

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        return -float(o) if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: a - b, True)
        return float(o) if r is None else r

    def _mul(self, o, rev):
        r = self._bin(o, product, rev)
        if r is None:
            f = float(o)
            if math.isnan(f):
                return f
            if E.branch(self.e == 0):
                return float("nan")
            return f if E.branch(self.e > 0) else -f
        return r

    def __mul__(self, o):
        return self._mul(o, False)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._mul(o, True)

    def __neg__(self):
        return mk(-self.e, self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.e >= 0, self.e, -self.e), self.k)

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return SStr.opaque()
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    # comparison
    def _cmp(self, other, f, name):
        o = lift(other)
        if o is None:
            if isinstance(other, np.ndarray) and other.ndim:
                def one(x):
                    r = self._cmp(x, f, name)
                    if r is NotImplemented:
                        if name in ("eq", "ne"):
                            return name == "ne"
                        raise TypeError("comparison of an array and a number")
                    return r
                return elementwise(one, other)
            nf = nonfinite(other)
            if nf is not None:
                if math.isnan(nf):
                    return name == "ne"
                return {"lt": nf > 0, "le": nf > 0, "gt": nf < 0, "ge": nf < 0,
                        "eq": False, "ne": True}[name]
            return NotImplemented
        a, b = (self.e, self.k), o
        if a[1] == b[1]:
            return mkb(f(a[0], b[0]))
        return mkb(f(real(*a), real(*b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "lt")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "le")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, "gt")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, "ge")

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, "ne")
        return True if r is NotImplemented else r

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    # conversion
    def __bool__(self):
        return E.branch(self.e != 0)

    def __index__(self):
        if self.k != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return E.concretize_int(self.e)

    def __int__(self):
        # builtin int() needs a real int; the int facade gives toint()
        v = toint(self)
        return v if isinstance(v, int) else E.concretize_int(v.e)

    def __float__(self):
        raise Unsupported("float() of a symbolic number outside the facade")

    def __round__(self, nd=None):
        return pyround(self, nd or 0)

    def __floor__(self):
        return mk(self.e, "i") if self.k == "i" else SNum(rfloor(self.e), "i")

    def __ceil__(self):
        return mk(self.e, "i") if self.k == "i" else SNum(-rfloor(-self.e), "i")

    def __trunc__(self):
        return toint(self)

    def __repr__(self):
        return "<sym %s>" % self.e

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    # numpy scalar look-alikes
    @property
    def real(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        return mkb(z3.BoolVal(True) if self.k == "i" else z3.IsInt(self.e))


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def _n(self):
        return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), "i")

    def __and__(self, o):
        b = boolexpr(o)
        return NotImplemented if b is None else mkb(z3.And(self.e, b))

    def __or__(self, o):
        b = boolexpr(o)
        return NotImplemented if b is None else mkb(z3.Or(self.e, b))

    def __xor__(self, o):
        b = boolexpr(o)
        return NotImplemented if b is None else mkb(z3.Xor(self.e, b))

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __invert__(self):  # numpy's logical not; python's ~bool is not used in the code
        return mkb(z3.Not(self.e))

    def __eq__(self, o):
        b = boolexpr(o)
        if b is not None:
            return mkb(self.e == b)
        return self._n() == o

    def __ne__(self, o):
        b = boolexpr(o)
        if b is not None:
            return mkb(self.e != b)
        return self._n() != o

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __repr__(self):
        return "<symbool %s>" % self.e

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__


def _num_op(name):
    def f(self, o):
        return getattr(self._n(), name)(o)
    return f


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow "
           "lt le gt ge").split():
    setattr(SBool, "__%s__" % _n, _num_op("__%s__" % _n))
SBool.__neg__ = lambda self: -self._n()
SBool.__abs__ = lambda self: self._n()


def mkb(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def boolexpr(x):
    """z3 expression of a truth value, None when x is not a bool."""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if type(x).__name__ in ("bool_", "bool") and type(x).__module__ == "numpy":
        return z3.BoolVal(bool(x))
    return None


class SStr(Sym):
    """A symbolic string (z3 String), of python length len(e)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def opaque():
        return SStr(E.fresh("str", z3.StringSort()))

    @staticmethod
    def _l(o):
        if isinstance(o, SStr):
            return o.e
        if isinstance(o, str):
            return z3.StringVal(o)
        return None

    def __eq__(self, o):
        b = self._l(o)
        return False if b is None else mkb(self.e == b)

    def __ne__(self, o):
        b = self._l(o)
        return True if b is None else mkb(self.e != b)

    def __lt__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else mkb(self.e < b)

    def __le__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else mkb(self.e <= b)

    def __gt__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else mkb(b < self.e)

    def __ge__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else mkb(b <= self.e)

    def __add__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else SStr(z3.Concat(self.e, b))

    def __radd__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else SStr(z3.Concat(b, self.e))

    def __contains__(self, o):
        b = self._l(o)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand")
        return bool(mkb(z3.Contains(self.e, b)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def slen(self):
        return mk(z3.Length(self.e), "i")

    def __bool__(self):
        return E.branch(z3.Length(self.e) != 0)

    def __getattr__(self, name):
        raise Unsupported("str.%s on a symbolic string" % name)

    def __getitem__(self, i):
        raise Unsupported("subscript of a symbolic string")

    def __repr__(self):
        return "<symstr>"

    def __str__(self):
        return "<symstr>"


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=4):
    if isinstance(x, Sym) or getattr(x, "__symbolic__", False):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(has_sym(v, depth - 1) for v in x)
    if depth and isinstance(x, dict):
        return any(has_sym(v, depth - 1) for v in x.values())
    return False


# ------------------------------------------------------------ arithmetic

def truediv(a, b):
    """Real division."""
    if not is_sym(a) and not is_sym(b):
        return a / b
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        fa, fb = nonfinite(a), nonfinite(b)
        if fa is None and fb is None:
            return NotImplemented
        if (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb)):
            return float("nan")
        if fb is not None:
            return 0.0
        if E.branch(lb[0] == 0):
            raise ZeroDivisionError("float division by zero")
        return fa if E.branch(lb[0] > 0) else -fa
    d = real(*lb)
    if E.branch(d == 0):
        raise ZeroDivisionError("division by zero")
    return SNum(real(*la) / d, "r")


def floordiv(a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        if nonfinite(a) is not None or nonfinite(b) is not None:
            return float("nan")
        return NotImplemented
    if E.branch(lb[0] == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if la[1] == "i" and lb[1] == "i":
        return mk(ifloordiv(la[0], lb[0]), "i")
    return SNum(z3.ToReal(rfloor(real(*la) / real(*lb))), "r")


def mod(a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        if nonfinite(a) is not None or nonfinite(b) is not None:
            return float("nan")
        return NotImplemented
    if E.branch(lb[0] == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if la[1] == "i" and lb[1] == "i":
        return mk(la[0] - lb[0] * ifloordiv(la[0], lb[0]), "i")
    x, y = real(*la), real(*lb)
    return SNum(x - y * z3.ToReal(rfloor(x / y)), "r")


def power(a, b):
    if not is_sym(a) and not is_sym(b):
        return a ** b
    if isinstance(b, int) or (isinstance(b, float) and b.is_integer()):
        n = int(b)
        if abs(n) <= 12:
            r = 1
            for _ in range(abs(n)):
                r = r * a
            if isinstance(b, float) and is_sym(r):
                r = SNum(real(*lift(r)), "r")
            return truediv(1, r) if n < 0 else r
    if isinstance(b, float) and b == 0.5:
        return E.fn("sqrt", a)
    return E.fn2("pow", a, b)


def toint(x):
    """int(x)"""
    if isinstance(x, SBool):
        return x._n()
    if isinstance(x, SNum):
        return SNum(x.e, "i") if x.k == "i" else mk(rtrunc(x.e), "i")
    return int(x)


def tofloat(x):
    if isinstance(x, SBool):
        x = x._n()
    if isinstance(x, SNum):
        return SNum(real(x.e, x.k), "r")
    if isinstance(x, Fraction):
        return x
    return float(x)


def pyround(x, nd=0):
    """round(): halves away from zero, a float, as the shim does it."""
    e = real(*lift(x))
    s = 10 ** nd if nd >= 0 else Fraction(1, 10 ** -nd)
    y = e * s
    r = z3.If(y >= 0, z3.ToInt(y + z3.Q(1, 2)), -z3.ToInt(-y + z3.Q(1, 2)))
    return SNum(z3.ToReal(r) / s, "r")


def ite(c, a, b):
    """a if c else b without a fork when both are numbers of one kind."""
    ce = boolexpr(c)
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkb(z3.If(ce, boolexpr(a), boolexpr(b)))
    la = lift(a) if is_num(a) else None
    lb = lift(b) if is_num(b) else None
    if la is not None and lb is not None:
        if la[1] == lb[1]:
            return mk(z3.If(ce, la[0], lb[0]), la[1])
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return SStr(z3.If(ce, SStr._l(a), SStr._l(b)))
    return a if E.branch(ce) else b


def smin(a, b):
    return ite(b < a, b, a)


def smax(a, b):
    return ite(b > a, b, a)


# --------------------------------------------------------------- engine

class Obligation:
    __slots__ = ("name", "status", "backend", "model", "cond", "path", "aux", "approx", "secs", "args", "detail")

    def __init__(self, name, status, backend, secs, aux=False, approx=False, args=None, detail=None):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.aux, self.approx, self.args, self.detail = aux, approx, args, detail


PI = math.pi


class Engine:
    """Depth-first exploration of all paths of one contract, by re-execution."""

    def __init__(self, deadline=None, feas_ms=400, prove_ms=8000, max_paths=20000, cvc5_ms=8000, stop_on_fail=1):
        self.deadline = deadline
        self.feas_ms, self.prove_ms, self.max_paths, self.cvc5_ms = feas_ms, prove_ms, max_paths, cvc5_ms
        self.obligations = []
        self.pending = []
        self.paths = 0
        self.solver_s = 0.0
        self.entered = {}
        self.lines = set()
        self.stop_on_fail = stop_on_fail
        self.fails = 0
        self.cache = {}
        self.notes = []
        self.current = None      # the world in which modules live
        self.args = None         # symbolic arguments of the run, for models
        self.callees = {}        # contracts used at call sites

    # --- running
    def run(self, prefix, fn):
        self.prefix, self.pos, self.trace = prefix, 0, []
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", self.feas_ms)
        self.pc = []
        self.counter = {}
        self.fns = {}
        self.memo = {}
        self.approx = False      # an over-approximation (axiomatised function, havoc) was used
        self.args = None
        self.steps = 0
        self.frames = []
        self.paths += 1
        set_engine(self)
        return fn()

    def explore(self, fn):
        """Runs fn on every path; True when all paths were seen."""
        self.pending = [[]]
        while self.pending:
            if self.deadline and time.time() > self.deadline:
                raise OutOfTime()
            if self.paths >= self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            try:
                self.run(self.pending.pop(), fn)
            except PathEnd:
                pass
            if self.stop_on_fail and self.fails >= self.stop_on_fail:
                return False
        return True

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.e
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)

    def feasible(self, c=None):
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime()
        t = time.time()
        self.solver.push()
        if c is not None:
            self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.solver_s += time.time() - t
        return r != z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            self.pos += 1
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if not t and not f:
                raise PathEnd()
            if t and f:
                d = 1
                self.pending.append(self.trace + [0])
            else:
                d = 3 if t else 2    # forced
        self.trace.append(d)
        if d == 1:
            self.assume(c)
        elif d == 0:
            self.assume(z3.Not(c))
        return d in (1, 3)

    def choose(self, n):
        """One of n cases, all explored."""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            self.pos += 1
            d = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [k])
        self.trace.append(d)
        return d

    def concretize_int(self, e, limit=400):
        """A concrete value of e: one path per feasible value."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            self.pos += 1
            vals = []
            self.solver.push()
            t = time.time()
            while True:
                r = self.solver.check()
                if r == z3.unsat:
                    break
                if r != z3.sat or len(vals) >= limit:
                    self.solver.pop()
                    raise Unsupported("cannot enumerate the values of an index")
                v = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(e != v)
            self.solver_s += time.time() - t
            self.solver.pop()
            if not vals:
                raise PathEnd()
            vals.sort()
            d = ("v", vals[0])
            for v in reversed(vals[1:]):
                self.pending.append(self.trace + [("v", v)])
        self.trace.append(d)
        self.assume(e == d[1])
        return d[1]

    # --- symbols
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def fresh(self, base, sort):
        return z3.Const(self.name(base), sort)

    def real(self, base="r"):
        return SNum(self.fresh(base, z3.RealSort()), "r")

    def int(self, base="i"):
        return SNum(self.fresh(base, z3.IntSort()), "i")

    def bool(self, base="b"):
        return SBool(self.fresh(base, z3.BoolSort()))

    # --- axiomatised functions: each application is a constant, with the
    # axioms of functions.py instantiated for it
    def fn(self, name, x):
        from . import functions
        return functions.apply(self, name, x)

    def fn2(self, name, x, y):
        from . import functions
        return functions.apply2(self, name, x, y)

    # --- obligations
    def prove(self, cond, name, aux=False, detail=None):
        """Obligation: cond holds here for every value of the symbols."""
        if isinstance(cond, SBool):
            c = cond.e
        elif isinstance(cond, z3.ExprRef):
            c = cond
        else:
            c = z3.BoolVal(bool(cond))
        t = time.time()
        status, backend, model = self.decide(c)
        o = Obligation(name, status, backend, time.time() - t, aux, self.approx)
        self.solver_s += o.secs
        self.obligations.append(o)
        if status != "discharged":
            self.fails += 1
            o.detail = detail
            if status == "refuted":
                o.model = model
                o.path = list(self.pc)
                o.args = self.model_args(model)
                o.cond = c
        return status == "discharged"

    def prove_from(self, given, cond, name):
        """Obligation: cond follows from the given facts, each of which holds here."""
        given = [z3.simplify(boolexpr(g) if not isinstance(g, z3.ExprRef) else g) for g in given]
        for g in given:
            if not any(g.eq(p) or (z3.is_and(p) and any(g.eq(q) for q in p.children())) for p in self.pc):
                if not self.prove(g, name + " (given)", aux=True):
                    return False
        pc, self.pc = self.pc, given
        try:
            return self.prove(cond, name, aux=True)
        finally:
            self.pc = pc

    def model_args(self, model):
        from .values import concretize
        if self.args is None:
            return None
        try:
            return concretize(self.args, model)
        except Exception as ex:  # the model is then only reported as text
            self.notes.append("model not concretised: %r" % ex)
            return None

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return "discharged", "trivial", None
        neg = z3.Not(c)
        goal = self.pc + [neg]
        key = None
        if self.deadline:
            left = self.deadline - time.time()
            if left < 1:
                raise OutOfTime()
        s = z3.Solver()
        s.set("timeout", int(self.prove_ms))
        s.add(*goal)
        r = s.check()
        if r == z3.unsat:
            return "discharged", "z3", None
        if r == z3.sat:
            return "refuted", "z3", self.nice_model(goal, s.model())
        # other back ends
        try:
            t = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
            t.set("timeout", int(self.prove_ms))
            t.add(*goal)
            r = t.check()
            if r == z3.unsat:
                return "discharged", "z3-nlsat", None
            if r == z3.sat:
                return "refuted", "z3-nlsat", t.model()
        except z3.Z3Exception:
            pass
        r = cvc5_check(goal, self.cvc5_ms)
        if r == "unsat":
            return "discharged", "cvc5", None
        return "unknown", "none", None

    def nice_model(self, goal, model):
        """A model whose reals are short binary fractions when there is one, to be exact floats."""
        consts = set()
        seen = set()

        def walk(e):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.RealSort() \
                    and str(e).startswith("a."):
                consts.add(e)
            for ch in e.children():
                walk(ch)
        for g in goal:
            walk(g)
        if not consts:
            return model
        for scale in (2, 64, 4096):
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*goal)
            for i, c in enumerate(sorted(consts, key=str)):
                k = z3.Int("grid!%d" % i)
                s.add(c * scale == z3.ToReal(k), c <= 2 ** 30, c >= -2 ** 30)
            if s.check() == z3.sat:
                return s.model()
        return model


def cvc5_check(goal, ms):
    """The verdict of cvc5 on the conjunction of goal, given as SMT-LIB."""
    try:
        import cvc5
    except ImportError:
        return "unknown"
    s = z3.Solver()
    s.add(*goal)
    text = s.to_smt2()
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(int(ms)))
        slv.setOption("nl-cov", "true")
        slv.setLogic("ALL")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "vc")
        sm = parser.getSymbolManager()
        out = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            r = str(cmd.invoke(slv, sm)).strip()
            if r in ("sat", "unsat", "unknown"):
                out = r
        return out
    except Exception:
        return "unknown"
