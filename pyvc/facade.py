"""What the instrumented modules see instead of the interpreter's operators,
builtins, numpy, math, datetime and calendar: the same functions, able to take
symbols. On concrete operands they call the originals."""
import builtins
import calendar as real_calendar
import datetime as real_datetime
import math as real_math
import sys
import types
from fractions import Fraction

import numpy as np
import z3

from . import arrays, core, functions, instr, seqs, state, texts
from .core import (SNum, SBool, SStr, Sym, is_sym, has_sym, lift, real, mk, mkb, boolexpr, Unsupported, PathEnd,
                   nonfinite)

py2 = instr.py2compat


# ------------------------------------------------------------- operators

class PV(object):
    ANYEXC = Exception
    round_exact = True

    def __init__(self, world):
        self.world = world

    def enter(self, name, isgen):
        E = core.engine()
        if E is None:
            return
        E.entered[name] = E.entered.get(name, 0) + 1
        E.steps += 1
        if E.steps > 200000:
            raise Unsupported("runaway execution")

    def div(self, a, b):
        if is_sym(a) or is_sym(b):
            if core.is_intlike(a) and core.is_intlike(b):
                return core.floordiv(a, b)
            r = core.truediv(a, b)
            return a / b if r is NotImplemented else r
        return py2._div(a, b)

    def truediv(self, a, b):
        if is_sym(a) or is_sym(b):
            r = core.truediv(a, b)
            return a / b if r is NotImplemented else r
        return a / b

    def mod(self, a, b):
        if isinstance(a, str) and core.engine() is not None and "format" in core.engine().memo:
            r = core.engine().memo["format"](a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, str) and has_sym(b):
            return SStr.opaque()
        return a % b

    def textual(self, a, name):
        """the method join or format of a"""
        if not isinstance(a, str):
            return getattr(a, name)
        if name == "join":
            return lambda xs: (lambda ys: texts.join(a, ys) if any(has_sym(y, 0) for y in ys) else a.join(ys))(list(xs))
        return lambda *x, **kw: texts.fmt(a, x, kw) if any(has_sym(y, 0) for y in list(x) + list(kw.values())) else \
            a.format(*x, **kw)

    def pow(self, a, b):
        if isinstance(a, arrays.Ghostly):
            return a ** b
        if is_sym(a) or is_sym(b):
            return core.power(a, b)
        return a ** b

    def cmp(self, name, a, b):
        if isinstance(a, arrays.Ghostly) or isinstance(b, arrays.Ghostly):
            f = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
            if not isinstance(a, arrays.SymArr):
                a, b, f = b, a, {"Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}
            if not isinstance(a, arrays.SymArr) or name not in f:
                raise Unsupported("comparison of arrays")
            return getattr(a, f[name])(b)
        if isinstance(a, Lazy) or isinstance(b, Lazy):
            if name in ("Is", "IsNot") and (a is None or b is None):
                miss = (b if a is None else a).miss
                return miss if name == "Is" else self.not_(miss)
            raise Unsupported("comparison of a value that may be missing")
        return py2._compare(name, a, b)

    def chain(self, left, *rest):
        acc = None
        n = len(rest) // 3
        for i in range(n):
            op, thunk, ispure = rest[3 * i:3 * i + 3]
            if acc is not None and not ispure:
                if not acc:
                    return False
                acc = None
            if acc is not None:
                try:
                    right = thunk()
                    r = self._one(op, left, right)
                except Exception:
                    if not acc:
                        return False
                    acc = None
                    right = thunk()
                    r = self._one(op, left, right)
            else:
                right = thunk()
                r = self._one(op, left, right)
            if not isinstance(r, (bool, SBool)) and boolexpr(r) is None:
                if i < n - 1 and not r:
                    return r
            elif not isinstance(r, SBool):
                if not r:
                    return r if acc is None else False
                # true: acc unchanged
            else:
                acc = r if acc is None else mkb(z3.And(acc.e, r.e))
            left = right
            last = r
        return last if acc is None else acc

    def _one(self, op, a, b):
        if op == "In":
            return self.contains(a, b)
        if op == "NotIn":
            return self.not_(self.contains(a, b))
        return self.cmp(op, a, b)

    def not_(self, x):
        if isinstance(x, arrays.Ghostly):
            raise Unsupported("truth of an unbounded array")
        if isinstance(x, SBool):
            return mkb(z3.Not(x.e))
        return not x

    def boolop(self, isand, *rest):
        acc = None
        n = len(rest) // 2
        for i in range(n):
            ispure, thunk = rest[2 * i], rest[2 * i + 1]
            lastone = i == n - 1
            if acc is not None:
                ok = False
                if ispure:
                    try:
                        v = thunk()
                        ok = isinstance(v, (bool, SBool)) or boolexpr(v) is not None
                    except Exception:
                        ok = False
                if not ok:
                    if bool(acc) != isand:
                        return not isand
                    acc = None
                    v = thunk()
            else:
                v = thunk()
            if isinstance(v, SBool):
                if acc is None:
                    acc = v
                else:
                    acc = mkb(z3.And(acc.e, v.e) if isand else z3.Or(acc.e, v.e))
                    if not isinstance(acc, SBool):
                        if acc != isand:
                            return acc
                        acc = None
                if lastone:
                    return acc if acc is not None else isand
            else:
                if lastone:
                    if acc is None:
                        return v
                    return acc if bool(v) == isand else (not isand)
                if bool(v) != isand:
                    return v if acc is None else (not isand)
        return acc

    def contains(self, x, coll):
        if isinstance(coll, (SStr,)) or (isinstance(coll, str) and isinstance(x, SStr)):
            e = coll.e if isinstance(coll, SStr) else z3.StringVal(coll)
            y = SStr._l(x)
            if y is None:
                raise TypeError("'in <string>' requires string as left operand")
            return mkb(z3.Contains(e, y))
        if isinstance(coll, (list, tuple)) and has_sym([x, coll], 2):
            es = []
            for y in coll:
                r = (x is y) or (x == y)
                b = boolexpr(r)
                if b is None:
                    b = z3.BoolVal(bool(r))
                es.append(b)
            return mkb(z3.simplify(z3.Or(es))) if es else False
        if isinstance(coll, (dict, set, frozenset)) and (is_sym(x) or isinstance(x, tuple) and has_sym([x], 2)):
            es = [zb(x == y) for y in coll]
            return mkb(z3.simplify(z3.Or(es))) if es else False
        if hasattr(coll, "__scontains__"):
            return coll.__scontains__(x)
        return x in coll

    def merge(self, c, th, el):
        if not isinstance(c, SBool):
            return None
        try:
            a, b = th(), el()
        except Exception:
            return None
        for k in a:
            if core.is_num(a[k]) and core.is_num(b[k]):
                if nonfinite(a[k]) is not None or nonfinite(b[k]) is not None:
                    return None
                if lift(a[k])[1] != lift(b[k])[1]:
                    return None
            elif isinstance(a[k], (str, SStr)) and isinstance(b[k], (str, SStr)):
                pass
            elif a[k] is b[k]:
                pass
            else:
                return None
        return {k: core.ite(c, a[k], b[k]) for k in a}

    def slice(self, a, b, c):
        return slice(a, b, c)

    def getitem(self, a, i):
        if isinstance(i, SBool):
            i = i._n()
        if isinstance(i, SNum):
            if isinstance(a, (list, tuple)):
                return self._listget(a, i)
            if isinstance(a, dict):
                return self._dictget(a, i)
        elif isinstance(a, dict) and (isinstance(i, SStr) or isinstance(i, tuple) and has_sym([i], 2)):
            return self._dictget(a, i)
        elif isobj(i) and isinstance(a, np.ndarray):
            i = mask(i)
        elif isinstance(i, slice) and isinstance(a, (list, tuple, str)) and has_sym([i.start, i.stop, i.step]):
            return self._slice(a, i)
        return a[i]

    def _slice(self, a, s):
        E = core.engine()

        def conc(v):
            if not isinstance(v, SNum):
                return v
            n = len(a)
            if E.branch(v.e > n):
                return n
            if E.branch(v.e < -n):
                return -n if n else 0
            return E.concretize_int(v.e)
        return a[slice(conc(s.start), conc(s.stop), conc(s.step))]

    def _listget(self, a, i):
        if i.k != "i":
            raise TypeError("list indices must be integers or slices, not float")
        E = core.engine()
        n = len(a)
        if E.branch(z3.Or(i.e >= n, i.e < -n)):
            raise IndexError("list index out of range")
        if E.branch(i.e < 0):
            e = i.e + n
        else:
            e = i.e
        vals = list(a)
        kinds = {lift(v)[1] if core.is_num(v) and lift(v) is not None else ("s" if isinstance(v, (str, SStr)) else "?")
                 for v in vals}
        if kinds == {"i"} or kinds == {"r"}:
            k = kinds.pop()
            r = lift(vals[-1])[0]
            for j in range(n - 2, -1, -1):
                r = z3.If(e == j, lift(vals[j])[0], r)
            return mk(z3.simplify(r), k)
        if kinds == {"s"}:
            r = SStr._l(vals[-1])
            for j in range(n - 2, -1, -1):
                r = z3.If(e == j, SStr._l(vals[j]), r)
            return SStr(z3.simplify(r))
        return a[E.concretize_int(e)]

    def _dictget(self, d, k):
        for key in d:
            r = k == key
            if r is True or (isinstance(r, SBool) and core.engine().branch(r.e)):
                return d[key]
        raise KeyError(k)

    def round(self, x, nd=0):
        if is_sym(x):
            return core.pyround(core.SNum(*lift(x)), nd)
        return py2._round(x, nd)

    # loops
    def loop(self, site, it, names):
        return Loop(self.world, site, it, names, sys._getframe(1))

    def wloop(self, site, names):
        return WLoop(self.world, site, names, sys._getframe(1))


def zb(x):
    e = boolexpr(x)
    return z3.BoolVal(bool(x)) if e is None else e


class View(object):
    """Local variables of a frame, for invariants."""

    def __init__(self, d):
        self.__dict__.update(d)

    def __getattr__(self, name):
        raise InvariantUnbound(name)


class InvariantUnbound(core.Control):
    """The invariant names a variable the loop does not have: no verdict."""


class Loop(object):
    """for: plain iteration, or, with an invariant, one arbitrary iteration."""

    def __init__(self, world, site, it, names, frame):
        self.hv = {}
        self.site = site
        self.it = it
        self.names = names
        self.frame = frame
        self.spec = world.loops.get(site)

    def __iter__(self):
        it = self.it
        if self.spec is None:
            return iter(it)
        return self._inv()

    def _inv(self):
        E = core.engine()
        spec, frame = self.spec, self.frame
        seq = as_seq(self.it)
        n = seq_len(seq)
        base = View(frame.f_locals)
        st = LoopState(seq, n, 0, base)
        for name, c in spec.conds(base, st):
            E.prove(c, "%s: invariant %s holds on entry" % (self.site, name), aux=True)
        i = E.int("i." + self.site)
        E.assume(i >= 0)
        E.assume(zb(i <= n))
        st.now = i
        hv = spec.havoc(E, base, st, [x for x in self.names if x in frame.f_locals])
        E.approx = True
        cur = dict(frame.f_locals)
        cur.update(hv)
        v = View(cur)
        for name, c in spec.conds(v, LoopState(seq, n, i, base)):
            E.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
        self.hv = hv
        if E.branch(zb(i < n)):
            x = seq_get(seq, i)
            before = contents(frame.f_locals, hv)
            yield x
            unchanged(self.site, before, spec)
            after = View(frame.f_locals)
            same_kinds(self.site, {k: x for k, x in hv.items() if k not in spec.varies}, frame.f_locals)
            for name, c in spec.conds(after, LoopState(seq, n, i + 1, base)):
                E.prove(c, "%s: invariant %s is preserved" % (self.site, name), aux=True)
            raise PathEnd()
        E.assume(zb(i == n))
        if spec.onexit:
            spec.onexit(v, LoopState(seq, n, i, base))


def contents(d, hv=()):
    """The mutable things the locals reach: an iteration with an invariant may change none the invariant ignores."""
    out, seen = [], set()
    covered = [x for x in dict(hv).values() if isinstance(x, arrays.SymArr)]

    def walk(x, depth, where):
        if id(x) in seen or depth > 5 or isinstance(x, seqs.Arr):
            return
        if isinstance(x, arrays.SymArr):
            if not any(x is y for y in covered):
                out.append((x, x.fn, where))
            return
        if isinstance(x, list):
            if x and isinstance(x[0], seqs.Ghost):
                return
            seen.add(id(x))
            out.append((x, list(x), where))
            for y in x[:50]:
                walk(y, depth + 1, where)
        elif isinstance(x, dict):
            seen.add(id(x))
            out.append((x, dict(x), where))
            for y in list(x.values())[:50]:
                walk(y, depth + 1, where)
        elif isinstance(x, np.ndarray):
            seen.add(id(x))
            out.append((x, x.copy(), where))
        elif isinstance(x, (types.ModuleType, type, types.FunctionType, types.BuiltinFunctionType, Facade, World, Sym)):
            return
        elif hasattr(x, "__dict__") and not getattr(x, "__ghost__", False):
            seen.add(id(x))
            out.append((x.__dict__, dict(x.__dict__), where))
            for y in list(x.__dict__.values()):
                walk(y, depth + 1, where)
    for n, v in d.items():
        if not n.startswith("_pv"):
            walk(v, 0, n)
    return out


def unchanged(site, before, spec):
    for x, old, where in before:
        if where in getattr(spec, "changes", ()):
            continue
        if isinstance(x, arrays.SymArr):
            ok = x.fn is old
        elif isinstance(x, list):
            ok = len(x) == len(old) and all(a is b for a, b in zip(x, old))
        elif isinstance(x, dict):
            ok = set(x) == set(old) and all(x[k] is old[k] for k in x)
        else:
            ok = all(a is b or (not is_sym(a) and not is_sym(b) and a == b) for a, b in zip(x.ravel(), old.ravel()))
        if not ok:
            raise Unsupported("%s: the loop changes %s, of which its invariant says nothing" % (site, where))


def same_kinds(site, hv, now):
    """An iteration must leave each variable within what stood for it."""
    for n, h in hv.items():
        if n not in now or isinstance(h, seqs.SymSeq) or not isinstance(h, Sym):
            continue
        x = now[n]
        ok = (isinstance(h, SBool) and isinstance(x, (bool, SBool, np.bool_))) or \
            (isinstance(h, SStr) and isinstance(x, (str, SStr)))
        if isinstance(h, SNum):
            l = lift(x) if core.is_num(x) else None
            ok = l is not None and (l[1] == h.k or h.k == "r")
        if not ok:
            raise Unsupported("%s: %s changes its type in the loop" % (site, n))


class LoopState(object):
    def __init__(self, seq, n, i, old):
        self.seq, self.n, self.i, self.old = seq, n, i, old


class WLoop(object):
    """while: unrolled as far as feasible, or cut at its invariant."""

    def __init__(self, world, site, names, frame):
        self.hv = {}
        self.site = site
        self.names = names
        self.frame = frame
        self.spec = world.loops.get(site)
        self.exited = False

    def left(self):
        self.exited = True

    def __iter__(self):
        E = core.engine()
        if self.spec is None:
            k = 0
            while True:
                k += 1
                if k > 2000 and E is not None:
                    raise Unsupported("while loop %s without an end in sight" % self.site)
                yield k
        spec, frame = self.spec, self.frame
        base = View(frame.f_locals)
        st = LoopState(None, None, 0, base)
        for name, c in spec.conds(base, st):
            E.prove(c, "%s: invariant %s holds on entry" % (self.site, name), aux=True)
        hv = spec.havoc(E, base, st, [x for x in self.names if x in frame.f_locals])
        E.approx = True
        cur = dict(frame.f_locals)
        cur.update(hv)
        v = View(cur)
        for name, c in spec.conds(v, st):
            E.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
        m0 = spec.measure(v) if spec.measure else None
        self.hv = hv
        before = contents(frame.f_locals, hv)
        yield 0
        unchanged(self.site, before, spec)
        after = View(frame.f_locals)
        same_kinds(self.site, {k: x for k, x in hv.items() if k not in spec.varies}, frame.f_locals)
        for name, c in spec.conds(after, st):
            E.prove(c, "%s: invariant %s is preserved" % (self.site, name), aux=True)
        if m0 is not None:
            m1 = spec.measure(after)
            E.prove(z3.And(zb(m1 < m0), zb(m0 >= 0)), "%s: the measure decreases" % self.site, aux=True)
        raise PathEnd()


class LoopSpec(object):
    """Invariant of a loop: inv(v, s) -> [(name, condition)], with v the locals
    and s the state (s.i iterations done, s.n in all, s.seq, s.old the locals at
    entry); havoc: {local: fresh(E) or None for 'same kind of number'}."""

    def __init__(self, inv, havoc=None, onexit=None, measure=None, keep=(), changes=(), varies=()):
        # changes: locals whose contents the loop changes in ways irrelevant to the rest
        # varies: locals of no one kind, of which the invariant speaks
        self.changes, self.varies = changes, varies
        self.inv, self.hav, self.onexit, self.measure, self.keep = inv, havoc or {}, onexit, measure, keep

    def conds(self, v, s):
        r = self.inv(v, s)
        return r if isinstance(r, list) else [("inv", r)]

    def havoc(self, E, v, s, names):
        out = {}
        for n in list(names) + [k for k in self.hav if k not in names]:
            if n in self.keep:
                continue
            if isinstance(v.__dict__.get(n), list) and self.hav.get(n) is None:
                raise Unsupported("list %s in a loop without a word on it" % n)
            f = self.hav.get(n)
            if f is not None:
                out[n] = f(E, v, s)
                continue
            cur = v.__dict__.get(n)
            if isinstance(cur, (bool, SBool)):
                out[n] = E.bool("h." + n)
            elif core.is_num(cur):
                l = lift(cur)
                out[n] = E.int("h." + n) if l is not None and l[1] == "i" else E.real("h." + n)
            elif isinstance(cur, (str, SStr)):
                out[n] = SStr(E.fresh("h." + n, z3.StringSort()))
            elif n in self.hav:
                out[n] = cur
            else:
                raise Unsupported("loop variable %s of no known kind" % n)
        return out


class Lazy(object):
    """A number that may be missing, handed on as it is: only 'is None' looks at it."""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, miss, val):
        self.miss, self.val = miss, val

    def __deepcopy__(self, memo):
        return self

    def no(self, *a):
        raise Unsupported("use of a value that may be missing")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = no
    __bool__ = __float__ = __int__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __getitem__ = __len__ = no
    __hash__ = None


class NumStr(object):
    """str(x) of a float: equal for equal numbers, and float() gives the number back."""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, x, **at):
        self.x = x
        self.__dict__.update(at)

    def __deepcopy__(self, memo):
        return self

    def __sfloat__(self):
        return self.x

    def __eq__(self, o):
        return isinstance(o, NumStr) and self.x == o.x

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkb(z3.Not(r.e)) if isinstance(r, SBool) else not r

    def __hash__(self):
        return 0


class SymRange(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def slen(self):
        if self.step == 1:
            return core.smax(self.hi - self.lo, 0)
        d = self.hi - self.lo if self.step > 0 else self.lo - self.hi
        n = abs(self.step)
        return core.smax((d + (n - 1)) // n if n > 1 else d, 0)

    def sget(self, i):
        return self.lo + i if self.step == 1 else self.lo + i * self.step

    def __iter__(self):
        i = self.lo
        k = 0
        while (i < self.hi if self.step > 0 else i > self.hi):
            yield i
            i = i + self.step
            k += 1
            if k > 1000:
                raise Unsupported("range without an end in sight")

    def __len__(self):
        return int(self.slen())


def as_seq(it):
    if isinstance(it, (list, tuple)) or hasattr(it, "sget"):
        return it
    if isinstance(it, range):
        return list(it)
    return list(it)


def seq_len(s):
    return s.slen() if hasattr(s, "slen") else len(s)


def seq_get(s, i):
    if hasattr(s, "sget"):
        return s.sget(i)
    if isinstance(i, SNum):
        return PV(None)._listget(list(s), i)
    return s[i]


# -------------------------------------------------------------- builtins

def b_len(x):
    if hasattr(x, "slen"):
        return x.slen()
    if isinstance(x, list) and x and isinstance(x[0], seqs.Ghost):
        return seqs.glen(x)
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


def b_int(x=0, *a):
    if isinstance(x, (SNum, SBool)):
        return core.toint(x)
    if isinstance(x, SStr):
        raise Unsupported("int() of a symbolic string")
    if hasattr(x, "__sint__") and not a:
        return x.__sint__()
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, (SNum, SBool)):
        return core.tofloat(x)
    if isinstance(x, SStr):
        raise Unsupported("float() of a symbolic string")
    if hasattr(x, "__sfloat__"):
        return x.__sfloat__()
    return float(x)


def b_str(x=""):
    if isinstance(x, SStr):
        return x
    if isinstance(x, texts.Text):
        return x
    if isinstance(x, SNum) and core.engine().memo.get("numstr"):
        return NumStr(x)
    if isinstance(x, SNum) and core.engine().memo.get("texts"):
        return texts.of(x)
    if has_sym(x):
        return SStr.opaque()
    return str(x)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return mkb(x.e != 0)
    return bool(x)


def b_range(*a):
    if any(isinstance(x, (SNum, SBool)) for x in a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        for x in (lo, hi, st):
            if not core.is_intlike(x):
                raise TypeError("'float' object cannot be interpreted as an integer")
        if not is_sym(st) and st != 0:
            return SymRange(lo, hi, int(st))
        return range(*[int(x) if isinstance(x, SBool) else x.__index__() for x in a])
    return range(*a)


def _minmax(f, orig):
    def g(*a, **kw):
        if len(a) == 1 and hasattr(a[0], f.__name__) and not kw:
            return getattr(a[0], f.__name__)()
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not has_sym(xs, 1) or kw:
            return orig(*a, **kw)
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


def _smin(a, b):
    c = b < a
    return core.ite(c, b, a) if isinstance(c, SBool) else (b if c else a)


def _smax(a, b):
    c = b > a
    return core.ite(c, b, a) if isinstance(c, SBool) else (b if c else a)


TYPES = {}


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(TYPES.get(id(k), k) for k in ts)
    flat = []
    for k in ts:
        flat += list(k) if isinstance(k, tuple) else [k]
    ts = tuple(flat)
    if isinstance(x, SNum):
        return any(issubclass(x.t or (int if x.k == "i" else float), k) for k in ts)
    if isinstance(x, SBool):
        return any(issubclass(bool, k) for k in ts)
    if isinstance(x, (SStr, texts.Text)):
        return any(issubclass(str, k) for k in ts)
    if isinstance(x, seqs.SymSeq):
        return any(issubclass(list, k) for k in ts)
    return isinstance(x, ts)


class TypeFacade(object):
    def __call__(self, x, *a):
        if a:
            return type(x, *a)
        if isinstance(x, SNum):
            return x.t or (int if x.k == "i" else float)
        if isinstance(x, SBool):
            return bool
        if isinstance(x, SStr):
            return str
        return type(x)


def b_print(*a, **kw):
    return None


def b_open(*a, **kw):
    if core.engine() is not None and "open" in core.engine().memo:
        return core.engine().memo["open"](*a, **kw)
    raise Unsupported("open() in code under verification")


def b_any(xs):
    if hasattr(xs, "sany"):
        return xs.sany()
    xs = list(xs)
    if has_sym(xs, 1):
        return mkb(z3.simplify(z3.Or([boolexpr(b_bool(x)) if boolexpr(b_bool(x)) is not None else z3.BoolVal(bool(x))
                                      for x in xs])))
    return any(xs)


def b_all(xs):
    if hasattr(xs, "sall"):
        return xs.sall()
    xs = list(xs)
    if has_sym(xs, 1):
        return mkb(z3.simplify(z3.And([boolexpr(b_bool(x)) if boolexpr(b_bool(x)) is not None else z3.BoolVal(bool(x))
                                       for x in xs])))
    return all(xs)


def b_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return core.floordiv(a, b), core.mod(a, b)
    return divmod(a, b)


def b_pow(a, b, *c):
    if is_sym(a) or is_sym(b):
        return core.power(a, b)
    return pow(a, b, *c)


class SymEnum(object):
    """enumerate(list of unbounded length)"""

    def __init__(self, seq, start=0):
        self.seq, self.start = seq, start

    def slen(self):
        return seq_len(self.seq)

    def sget(self, i):
        return self.start + i, seq_get(self.seq, i)

    def __iter__(self):
        return enumerate(self.seq, self.start)


def b_enumerate(x, start=0):
    return SymEnum(x, start) if hasattr(x, "sget") else enumerate(x, start)


def b_sorted(x, *a, **kw):
    if isinstance(x, seqs.SymSeq) and not a and not kw:
        return seqs.order(x)
    return sorted(x, *a, **kw)


def b_sum(x, *a):
    if hasattr(x, "ssum") and not a:
        return x.ssum()
    if isinstance(x, seqs.SymSeq):
        return x.total() + (a[0] if a else 0)
    return sum(x, *a)


def b_list(*a):
    if a and isinstance(a[0], seqs.SymSeq):
        return a[0].copy()
    return list(*a)


def make_builtins(world):
    d = dict(vars(builtins))
    d.update(len=b_len, int=b_int, float=b_float, str=b_str, bool=b_bool, range=b_range, min=_minmax(_smin, min),
             max=_minmax(_smax, max), isinstance=b_isinstance, type=TypeFacade(), print=b_print, open=b_open,
             sorted=b_sorted, sum=b_sum, enumerate=b_enumerate, any=b_any, all=b_all, divmod=b_divmod, pow=b_pow, __import__=world.imp)
    for f, t in ((b_int, int), (b_float, float), (b_str, str), (b_bool, bool)):
        TYPES[id(f)] = t
    return d


# ------------------------------------------------------------------ math

class Facade(object):
    def __init__(self, name, original, over):
        self.__dict__["__name__"] = name
        self.__dict__["_orig"] = original
        self.__dict__.update(over)

    def __getattr__(self, n):
        v = getattr(self.__dict__["_orig"], n)
        if isinstance(v, type) or not callable(v):
            self.__dict__[n] = v
            return v

        def guarded(*a, **kw):
            if has_sym(a) or has_sym(kw):
                raise Unsupported("%s.%s on symbols" % (self.__name__, n))
            return v(*a, **kw)
        self.__dict__[n] = guarded
        return guarded


def _m1(name):
    def f(x):
        if is_sym(x):
            return core.engine().fn(name, x)
        return getattr(real_math, name)(x)
    return f


def _n1(mname, npname):
    def f(x, *a, **kw):
        if isinstance(x, arrays.Ghostly):
            if mname != "sqrt" or not isinstance(x, arrays.SymArr):
                raise Unsupported("%s of an unbounded array" % mname)
            return x.sqrt()
        if is_sym(x):
            return functions.apply(core.engine(), mname, x, numpy=True)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return amap(lambda y: f(y), x)
        return getattr(np, npname)(x, *a, **kw)
    return f


def m_isnan(x):
    if isinstance(x, (SNum, SBool)):
        return False
    return real_math.isnan(x)


def m_floor(x):
    if is_sym(x):
        return SNum(*lift(x)).__floor__()
    return real_math.floor(x)


def m_ceil(x):
    if is_sym(x):
        return SNum(*lift(x)).__ceil__()
    return real_math.ceil(x)


def m_trunc(x):
    return core.toint(x) if is_sym(x) else real_math.trunc(x)


def m_fmod(x, y):
    if is_sym(x) or is_sym(y):
        if nonfinite(x) is not None or nonfinite(y) is not None:
            raise Unsupported("fmod of a non-finite number")
        a, b = real(*lift(x)), real(*lift(y))
        if core.engine().branch(b == 0):
            raise ValueError("math domain error")
        q = a / b
        return SNum(a - b * z3.ToReal(core.rtrunc(q)), "r")
    return real_math.fmod(x, y)


def m_two(name):
    def f(x, y):
        if is_sym(x) or is_sym(y):
            return core.engine().fn2(name, x, y)
        return getattr(real_math, name)(x, y)
    return f


def m_radians(x):
    return x * Fraction(real_math.pi) / 180 if is_sym(x) else real_math.radians(x)


def m_degrees(x):
    return x * 180 / Fraction(real_math.pi) if is_sym(x) else real_math.degrees(x)


def m_pow(x, y):
    if is_sym(x) or is_sym(y):
        return core.tofloat(core.power(x, y))
    return real_math.pow(x, y)


def m_fabs(x):
    return core.tofloat(abs(x)) if is_sym(x) else real_math.fabs(x)


def make_math():
    over = {n: _m1(n) for n in ("sin", "cos", "tan", "exp", "log", "sqrt", "erf", "asin", "acos", "atan")}
    over.update(isnan=m_isnan, floor=m_floor, ceil=m_ceil, trunc=m_trunc, fmod=m_fmod, atan2=m_two("atan2"),
                pow=m_pow, fabs=m_fabs, radians=m_radians, degrees=m_degrees,
                isinf=lambda x: False if is_sym(x) else real_math.isinf(x))
    return Facade("math", real_math, over)


# ----------------------------------------------------------------- numpy

class FArr(np.ndarray):
    """A float array of numbers and symbols (dtype object)."""

    def __setitem__(self, key, value):
        if isinstance(key, np.ndarray) and key.dtype == object:
            key = mask(key)
        if isinstance(key, SNum):
            key = key.__index__()
        elif isinstance(key, tuple):
            key = tuple(k.__index__() if isinstance(k, SNum) else k for k in key)
        elif isinstance(key, slice):
            key = _cslice(key)
        if isinstance(value, np.ndarray):
            value = amap(_coerce, value)
        elif isinstance(value, (list, tuple)):
            value = [_coerce(v) for v in value]
        else:
            value = _coerce(value)
        np.ndarray.__setitem__(self, key, value)

    def __getitem__(self, key):
        if isinstance(key, SNum):
            key = key.__index__()
        elif isinstance(key, tuple):
            key = tuple(k.__index__() if isinstance(k, SNum) else k for k in key)
        elif isinstance(key, slice):
            key = _cslice(key)
        elif isinstance(key, np.ndarray) and key.dtype == object:
            key = mask(key)
        return np.ndarray.__getitem__(self, key)


def mask(key):
    return np.array([bool(k) for k in key.ravel()], dtype=bool).reshape(key.shape)


def _cslice(s):
    c = [x.__index__() if isinstance(x, SNum) else x for x in (s.start, s.stop, s.step)]
    return slice(*c)


def _coerce(v):
    if v is None:
        return float("nan")
    if isinstance(v, (SNum, SBool)):
        return core.tofloat(v)
    if isinstance(v, (int, np.integer, np.floating, np.bool_)):
        return float(v)
    return v


def amap(f, a):
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(a.shape):
        out[idx] = f(np.ndarray.__getitem__(a, idx))
    return out.view(FArr)


def _shape(s):
    if isinstance(s, SNum):
        return s.__index__()
    if isinstance(s, (list, tuple)):
        return tuple(x.__index__() if isinstance(x, SNum) else x for x in s)
    return s


def n_zeros(shape, *a, **kw):
    if isinstance(shape, SNum) and not a and not kw and core.engine().memo.get("arrays"):
        return arrays.SymArr(shape, lambda j: (False, 0.0))
    if a or kw:
        return np.zeros(_shape(shape), *a, **kw)
    shape = _shape(shape)
    if np.prod(shape) > 20000:
        return Sparse(shape, 0.0)
    r = np.empty(shape, dtype=object)
    r.fill(0.0)
    return r.view(FArr)


def n_arange(*a, **kw):
    if has_sym(a) and not kw and core.engine().memo.get("arrays"):
        lo, n = (0, a[0]) if len(a) == 1 else (a[0], a[1] - a[0]) if len(a) == 2 else (None, None)
        if n is None or not (core.is_intlike(lo) and core.is_intlike(n)):
            raise Unsupported("np.arange with a step")
        return arrays.SymArr(core.smax(n, 0), lambda j: (False, lo + j), "i")
    if has_sym(a):
        a = [x.__index__() if isinstance(x, SNum) else x for x in a]
    return np.arange(*a, **kw)


def n_empty(shape, *a, **kw):
    if isinstance(shape, SNum) and not a and not kw and core.engine().memo.get("arrays"):
        k = core.engine().name("garbage")
        f, g = z3.Function(k, z3.IntSort(), z3.RealSort()), z3.Function("nan " + k, z3.IntSort(), z3.BoolSort())
        return arrays.SymArr(shape, lambda j: (mkb(g(_e(j))), SNum(f(_e(j)), "r")))
    return n_zeros(shape, *a, **kw)


def n_array(x, *a, **kw):
    if isinstance(x, arrays.SymArr):
        return x.copy()
    if isinstance(x, SymRange) and is_sym(x.slen()) and core.engine().memo.get("arrays"):
        return arrays.SymArr(x.slen(), lambda j: (False, x.sget(j)), "i")
    if isinstance(x, list) and x and isinstance(x[0], seqs.Ghost):
        return x[0].toarray(x)
    if isinstance(x, seqs.SymSeq):
        return x.copy()
    if has_sym(x) and not isinstance(x, np.ndarray):
        flat = np.array(x, dtype=object)
        kinds = {lift(v)[1] if core.is_num(v) and lift(v) is not None else "r" for v in flat.ravel()}
        return amap(lambda v: v if kinds == {"i"} else _coerce(v), flat)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return amap(lambda v: v, x)
    return np.array(x, *a, **kw)


def isobj(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def n_isnan(x):
    if isinstance(x, arrays.SymArr):
        return x.isnan()
    if is_sym(x):
        return False
    if isobj(x):
        out = np.empty(x.shape, dtype=bool)
        for idx in np.ndindex(x.shape):
            v = np.ndarray.__getitem__(x, idx)
            out[idx] = (not is_sym(v)) and real_math.isnan(v)
        return out
    return np.isnan(x)


def n_sum(x, *a, **kw):
    if isinstance(x, arrays.Ghostly) and not a and not kw:
        return arrays.recognise("sum", x)
    if (isinstance(x, (list, tuple)) and has_sym(x)) or isobj(x):
        if a or kw:
            raise Unsupported("np.sum with an axis")
        r = 0 if not isobj(x) or not isinstance(x, FArr) else 0.0
        for v in (x.ravel() if isobj(x) else x):
            r = r + v
        return r
    if hasattr(x, "ssum"):
        return x.ssum()
    if isinstance(x, seqs.SymSeq):
        return x.total()
    return np.sum(x, *a, **kw)


def n_mean(x, *a, **kw):
    if isinstance(x, arrays.Ghostly) and not a and not kw:
        return arrays.recognise("mean", x)
    if hasattr(x, "smean") and not a and not kw:
        return x.smean()
    if isinstance(x, seqs.SymSeq):
        if core.engine().branch(zb(x.slen() == 0)):
            return float("nan")
        return core.truediv(core.tofloat(x.total()), x.slen())
    if (isinstance(x, (list, tuple)) and has_sym(x)) or isobj(x):
        if a or kw:
            raise Unsupported("np.mean with an axis")
        vals = [_coerce(v) for v in (x.ravel() if isobj(x) else x)]
        if not vals:
            return float("nan")
        r = vals[0]
        for v in vals[1:]:
            r = r + v
        return core.truediv(r, len(vals)) if is_sym(r) else r / len(vals)
    return np.mean(x, *a, **kw)


def n_std(x, *a, **kw):
    if isinstance(x, arrays.Ghostly) and not a and not kw:
        return arrays.recognise("std", x)
    if hasattr(x, "smean") and not a and not kw:
        return x.smean()
    if isinstance(x, seqs.SymSeq):
        if core.engine().branch(zb(x.slen() == 0)):
            return float("nan")
        return seqs.std(x)
    if (isinstance(x, (list, tuple)) and has_sym(x)) or isobj(x):
        if a or kw:
            raise Unsupported("np.std with options")
        vals = [_coerce(v) for v in (x.ravel() if isobj(x) else x)]
        m = n_mean(vals)
        s = 0.0
        for v in vals:
            s = s + (v - m) * (v - m)
        v = core.truediv(s, len(vals)) if is_sym(s) else s / len(vals)
        return functions.apply(core.engine(), "sqrt", v, numpy=True)
    return np.std(x, *a, **kw)


def n_median(x, *a, **kw):
    if isinstance(x, arrays.Ghostly) and not a and not kw:
        return arrays.recognise("median", x)
    if (isinstance(x, (list, tuple)) and has_sym(x)) or isobj(x):
        vals = [_coerce(v) for v in (x.ravel() if isobj(x) else x)]
        if any(nonfinite(v) is not None for v in vals):
            return float("nan")
        vals = sorted(vals)
        n = len(vals)
        if n == 0:
            return float("nan")
        if n % 2:
            return vals[n // 2]
        return (vals[n // 2 - 1] + vals[n // 2]) / 2
    return np.median(x, *a, **kw)


def n_any(x, *a, **kw):
    if isinstance(x, arrays.SymMask):
        f = core.engine().memo.get("recognise")
        r = f("any", x) if f is not None else None
        return x.sany() if r is None else r
    if isobj(x) or isinstance(x, (list, tuple)):
        return b_any(x.ravel() if isobj(x) else x)
    return np.any(x, *a, **kw)


def n_all(x, *a, **kw):
    if isinstance(x, arrays.SymMask):
        return x.sall()
    if isobj(x) or isinstance(x, (list, tuple)):
        return b_all(x.ravel() if isobj(x) else x)
    return np.all(x, *a, **kw)


def n_cumsum(x, *a, **kw):
    if isinstance(x, arrays.Ghostly) and not a and not kw:
        return arrays.recognise("cumsum", x)
    if isobj(x) or (isinstance(x, list) and has_sym(x)):
        vals, r = [], 0.0
        for v in (x.ravel() if isobj(x) else x):
            r = r + v
            vals.append(r)
        return n_array(vals) if vals else n_zeros(0)
    return np.cumsum(x, *a, **kw)


def n_lor(a, b):
    if isinstance(a, arrays.SymMask):
        return a | b
    if isobj(a) or isobj(b):
        return np.array([bool(x) or bool(y) for x, y in zip(a.ravel(), b.ravel())], dtype=bool)
    return np.logical_or(a, b)


def n_flip(x, axis=None):
    return x.sflip(axis) if hasattr(x, "sflip") else np.flip(x, axis)


def n_roll(x, shift, axis=None):
    return x.sroll(shift, axis) if hasattr(x, "sroll") else np.roll(x, shift, axis)


def n_flipud(x):
    if isinstance(x, arrays.SymArr):
        return x.flip()
    return np.flipud(x)


def n_nonzero(x):
    if isinstance(x, Sparse):
        return x.nonzero()
    if hasattr(x, "snonzero"):
        return x.snonzero()
    return np.nonzero(x)


def n_abs(x):
    if is_sym(x) or isinstance(x, arrays.SymArr):
        return abs(x)
    return np.abs(x)


def n_where(c, *a):
    if isobj(c):
        c = np.array([bool(k) for k in c.ravel()], dtype=bool).reshape(c.shape)
    return np.where(c, *a)


def n_argmax(x, *a, **kw):
    if hasattr(x, "sargmax"):
        return x.sargmax()
    if isinstance(x, list) and has_sym(x):
        k = 0
        for i in range(1, len(x)):
            if x[i] > x[k]:
                k = i
        return k
    return np.argmax(x, *a, **kw)


class Sparse(object):
    """A large array of which few cells are used."""

    def __init__(self, shape, default, cells=None):
        self.shape, self.default = tuple(shape), default
        self.cells = cells if cells is not None else {}

    def _key(self, key):
        if not isinstance(key, tuple) or len(key) != len(self.shape):
            raise Unsupported("partial index of a large array")
        out = []
        for k, n in zip(key, self.shape):
            if isinstance(k, SNum):
                k = k.__index__()
            if isinstance(k, slice):
                raise Unsupported("slice of a large array")
            k = int(k)
            if not -n <= k < n:
                raise IndexError("index %d is out of bounds for axis with size %d" % (k, n))
            out.append(k % n)
        return tuple(out)

    def __getitem__(self, key):
        return self.cells.get(self._key(key), self.default)

    def __setitem__(self, key, value):
        self.cells[self._key(key)] = _coerce(value)

    def nonzero(self):
        keys = []
        for k in sorted(self.cells):
            v = self.cells[k]
            if isinstance(v, SNum):
                if core.engine().branch(v.e != 0):
                    keys.append(k)
            elif v != 0:
                keys.append(k)
        return tuple(np.array([k[i] for k in keys], dtype=int) for i in range(len(self.shape)))

    def _zip(self, f):
        return Sparse(self.shape, f(self.default), {k: f(v) for k, v in self.cells.items()})

    def ssum(self):
        r = 0.0
        for k in sorted(self.cells):
            r = r + self.cells[k]
        return r


def _n2(name, npname):
    def f(x, y):
        if is_sym(x) or is_sym(y):
            return core.engine().fn2(name, x, y)
        return getattr(np, npname)(x, y)
    return f


def make_numpy():
    over = dict(zeros=n_zeros, arange=n_arange, empty=n_empty, array=n_array, isnan=n_isnan, sum=n_sum, mean=n_mean, std=n_std,
                median=n_median, any=n_any, all=n_all, cumsum=n_cumsum, logical_or=n_lor, flipud=n_flipud, flip=n_flip, roll=n_roll,
                nonzero=n_nonzero, abs=n_abs, absolute=n_abs, where=n_where, argmax=n_argmax,
                arctan2=_n2("atan2", "arctan2"),
                sin=_n1("sin", "sin"), cos=_n1("cos", "cos"), tan=_n1("tan", "tan"), exp=_n1("exp", "exp"),
                log=_n1("log", "log"), sqrt=_n1("sqrt", "sqrt"), arcsin=_n1("asin", "arcsin"),
                arccos=_n1("acos", "arccos"), arctan=_n1("atan", "arctan"),
                fmod=lambda x, y: m_fmod(x, y) if is_sym(x) or is_sym(y) else np.fmod(x, y),
                floor=lambda x: core.tofloat(m_floor(x)) if is_sym(x) else np.floor(x),
                ceil=lambda x: core.tofloat(m_ceil(x)) if is_sym(x) else np.ceil(x),
                radians=lambda x: m_radians(x) if is_sym(x) else np.radians(x),
                deg2rad=lambda x: m_radians(x) if is_sym(x) else np.deg2rad(x),
                degrees=lambda x: m_degrees(x) if is_sym(x) else np.degrees(x),
                rad2deg=lambda x: m_degrees(x) if is_sym(x) else np.rad2deg(x),
                minimum=lambda x, y: _smin(x, y) if is_sym(x) or is_sym(y) else np.minimum(x, y),
                maximum=lambda x, y: _smax(x, y) if is_sym(x) or is_sym(y) else np.maximum(x, y),
                clip=lambda x, lo, hi: _smin(_smax(x, lo), hi) if has_sym([x, lo, hi], 1) else np.clip(x, lo, hi),
                fabs=n_abs)
    return Facade("numpy", np, over)


# ------------------------------------------------------ calendar, datetime

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def z_isleap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def z_mlen(y, m):
    r = z3.IntVal(31)
    for k in range(11):
        n = z3.If(z_isleap(y), z3.IntVal(29), z3.IntVal(28)) if k == 1 else z3.IntVal(LEN[k])
        r = z3.If(m == k + 1, n, r)
    return r


def z_ordinal(y, m, d):
    """Proleptic Gregorian day number, day 1 = 1 January of year 1."""
    cum = z3.IntVal(CUM[11])
    for k in range(11):
        cum = z3.If(m == k + 1, z3.IntVal(CUM[k]), cum)
    y1 = y - 1
    leap = z3.If(z3.And(m > 2, z_isleap(y)), z3.IntVal(1), z3.IntVal(0))
    return 365 * y1 + y1 / 4 - y1 / 100 + y1 / 400 + cum + leap + d


def c_isleap(year):
    if isinstance(year, SNum):
        if year.k == "i":
            return mkb(z_isleap(year.e))
        y = year.e
        return mkb(z3.And(z3.IsInt(y), z_isleap(z3.ToInt(y))))
    if year is None or isinstance(year, str):
        return real_calendar.isleap(year)
    return real_calendar.isleap(year)


def c_leapdays(y1, y2):
    if not is_sym(y1) and not is_sym(y2):
        return real_calendar.leapdays(y1, y2)

    def upto(y):
        y = y - 1
        return core.floordiv(y, 4) - core.floordiv(y, 100) + core.floordiv(y, 400)
    return upto(y2) - upto(y1)


def c_monthrange(y, m):
    if not is_sym(y) and not is_sym(m):
        return real_calendar.monthrange(y, m)
    if core.engine().branch(z3.Or(_e(m) < 1, _e(m) > 12)):
        raise real_calendar.IllegalMonthError(0)
    return core.mod(SNum(z_ordinal(_e(y), _e(m), z3.IntVal(1)), "i") - 1, 7), mk(z3.simplify(z_mlen(_e(y), _e(m))), "i")


def make_calendar():
    return Facade("calendar", real_calendar, dict(isleap=c_isleap, leapdays=c_leapdays, monthrange=c_monthrange))


def _e(x):
    return lift(x)[0]


class SDatetime(object):
    """datetime with symbolic fields: a valid date and a time of day."""
    __symbolic__ = True

    def __init__(self, y, m, d, H=0, M=0, S=0):
        self.year, self.month, self.day, self.hour, self.minute, self.second = y, m, d, H, M, S
        self.microsecond = 0

    def ordinal(self):
        return SNum(z_ordinal(_e(self.year), _e(self.month), _e(self.day)), "i")

    def secs(self):
        return self.hour * 3600 + self.minute * 60 + self.second

    def key(self):
        return self.ordinal() * 86400 + self.secs()

    def __sub__(self, o):
        if isinstance(o, (SDatetime, real_datetime.datetime)):
            return STimedelta(self.key() - _dt(o).key())
        return self + (-o)

    def __rsub__(self, o):
        return STimedelta(_dt(o).key() - self.key())

    def __add__(self, td):
        E = core.engine()
        if isinstance(td, real_datetime.timedelta) and td.seconds == 0 and td.microseconds == 0 and abs(td.days) <= 2:
            y, m, d = self.year, self.month, self.day
            for _ in range(abs(td.days)):
                y, m, d = _step(E, y, m, d, 1 if td.days > 0 else -1)
            return SDatetime(y, m, d, self.hour, self.minute, self.second)
        total = td.tot if isinstance(td, STimedelta) else td.days * 86400 + td.seconds
        k = self.key() + total
        o = core.floordiv(k, 86400)
        s = core.mod(k, 86400)
        y, m, d = E.int("y"), E.int("m"), E.int("d")
        E.approx = True
        E.assume(z3.And(m.e >= 1, m.e <= 12, d.e >= 1, d.e <= z_mlen(y.e, m.e), z_ordinal(y.e, m.e, d.e) == _e(o)))
        if E.branch(z3.Or(y.e < 1, y.e > 9999)):
            raise OverflowError("date value out of range")
        return SDatetime(y, m, d, core.floordiv(s, 3600), core.mod(core.floordiv(s, 60), 60), core.mod(s, 60))

    __radd__ = __add__

    def _cmp(self, o, f):
        if not isinstance(o, (SDatetime, real_datetime.datetime)):
            return NotImplemented
        o = _dt(o)
        return f(self.key(), o.key())

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = None

    def timetuple(self):
        raise Unsupported("timetuple")

    def date(self):
        return SDate(self.year, self.month, self.day)



def _step(E, y, m, d, s):
    if s > 0:
        if E.branch(_e(d) == z_mlen(_e(y), _e(m))):
            if E.branch(_e(m) == 12):
                if E.branch(_e(y) == 9999):
                    raise OverflowError("date value out of range")
                return y + 1, 1, 1
            return y, m + 1, 1
        return y, m, d + 1
    if E.branch(_e(d) == 1):
        if E.branch(_e(m) == 1):
            if E.branch(_e(y) == 1):
                raise OverflowError("date value out of range")
            return y - 1, 12, 31
        return y, m - 1, mk(z3.simplify(z_mlen(_e(y), _e(m) - 1)), "i")
    return y, m, d - 1


class SDate(object):
    """datetime.date with symbolic fields"""
    __symbolic__ = True

    def __init__(self, y, m, d):
        self.year, self.month, self.day = y, m, d

    def isoformat(self):
        f = texts.of
        return f(self.year, "04d") + "-" + f(self.month, "02d") + "-" + f(self.day, "02d")


def _dt(o):
    if isinstance(o, SDatetime):
        return o
    return SDatetime(o.year, o.month, o.day, o.hour, o.minute, o.second)


class STimedelta(object):
    __symbolic__ = True

    def __init__(self, tot):
        self.tot = tot

    @property
    def days(self):
        return core.floordiv(self.tot, 86400)

    @property
    def seconds(self):
        return core.mod(self.tot, 86400)

    def total_seconds(self):
        return core.tofloat(self.tot) if is_sym(self.tot) else float(self.tot)

    def __neg__(self):
        return STimedelta(-self.tot)

    def __add__(self, o):
        if isinstance(o, (SDatetime, real_datetime.datetime)):
            return _dt(o) + self
        return STimedelta(self.tot + (o.tot if isinstance(o, STimedelta) else o.days * 86400 + o.seconds))

    __radd__ = __add__

    def __abs__(self):
        return STimedelta(abs(self.tot))


class DatetimeClass(object):
    def __call__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, *a):
        f = (year, month, day, hour, minute, second, microsecond)
        if not has_sym(f) and not any(isinstance(x, Fraction) for x in f):
            return real_datetime.datetime(year, month, day, hour, minute, second, microsecond, *a)
        for x in f:
            if x is None or not core.is_num(x) or (isinstance(x, SNum) and x.k != "i") or isinstance(x, float):
                raise TypeError("integer argument expected, got something else")
        E = core.engine()
        y, m, d, H, M, S, U = [_e(x) for x in f]
        for c, msg in ((z3.Or(y < 1, y > 9999), "year"), (z3.Or(m < 1, m > 12), "month must be in 1..12")):
            if E.branch(c):
                raise ValueError(msg)
        if E.branch(z3.Or(d < 1, d > z_mlen(y, m))):
            raise ValueError("day is out of range for month")
        if E.branch(z3.Or(H < 0, H > 23)):
            raise ValueError("hour must be in 0..23")
        if E.branch(z3.Or(M < 0, M > 59)):
            raise ValueError("minute must be in 0..59")
        if E.branch(z3.Or(S < 0, S > 59)):
            raise ValueError("second must be in 0..59")
        return SDatetime(year, month, day, hour, minute, second)

    def strptime(self, x, f):
        if not isinstance(x, texts.Text):
            return real_datetime.datetime.strptime(x, f)
        if f != "%Y %m %d":
            raise Unsupported("strptime with %r" % f)
        p = x.p
        if any(isinstance(q, str) and q.strip(" 0123456789") for q in p):
            raise ValueError("time data %r does not match format" % x)
        if not (len(p) == 5 and p[1] == p[3] == " " and all(not isinstance(q, str) and q[0] == "dec" for q in p[::2])):
            raise Unsupported("strptime of %r" % x)
        y, m, d = [q[1] for q in p[::2]]
        if core.engine().branch(z3.Or(y.e < 1000, y.e > 9999)):      # a year is four digits
            raise ValueError("time data does not match format")
        return self(y, m, d)

    def __getattr__(self, n):
        return getattr(real_datetime.datetime, n)


class TimedeltaClass(object):
    def __call__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        f = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not has_sym(f):
            return real_datetime.timedelta(*f)
        if microseconds or milliseconds:
            raise Unsupported("sub-second timedelta")
        return STimedelta((days + 7 * weeks) * 86400 + seconds + minutes * 60 + hours * 3600)

    def __getattr__(self, n):
        return getattr(real_datetime.timedelta, n)


def make_datetime():
    dt, td = DatetimeClass(), TimedeltaClass()
    TYPES[id(dt)] = (real_datetime.datetime, SDatetime)
    TYPES[id(td)] = (real_datetime.timedelta, STimedelta)
    return Facade("datetime", real_datetime, dict(datetime=dt, timedelta=td))


# ---------------------------------------------------------------- modules

class World(object):
    """The modules of /repo, instrumented."""
    symbolic = True

    def __init__(self, loops=None, repo=None):
        self.repo = repo or instr.REPO
        self.loops = loops or {}
        self.mods = {}
        self.pv = PV(self)
        self.fac = {"numpy": make_numpy(), "math": make_math(), "calendar": make_calendar(),
                    "datetime": make_datetime(), "netCDF4": types.ModuleType("netCDF4")}
        self.fac["netCDF4"].Dataset = None
        self.builtins = make_builtins(self)
        self.patches = {}
        self.fresh = {}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        import os
        if name in self.fac:
            return self.fac[name]
        if name == "ConfigParser":
            import configparser
            return configparser
        if os.path.exists(os.path.join(self.repo, name + ".py")):
            return self.load(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        import os
        if name in self.mods:
            return self.mods[name]
        code, _ = instr.code_of(os.path.join(self.repo, name + ".py"))
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_pv_"] = self.pv
        m.__file__ = os.path.join(self.repo, name + ".py")
        self.mods[name] = m
        exec(code, m.__dict__)
        self.fresh[name] = state.Snapshot(m)
        return m

    def refresh(self):
        """what the modules hold now is their state before any call"""
        self.fresh = {n: state.Snapshot(m) for n, m in self.mods.items()}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.load(name)

    def replace(self, qual, stub):
        """Callers of module.function see its contract instead."""
        mod, fn = qual.split(".", 1)
        m = self.load(mod)
        if "." in fn:
            c, f = fn.split(".")
            setattr(getattr(m, c), f, stub)
            return
        old = getattr(m, fn)
        for k in list(self.mods.values()):
            for n, v in list(vars(k).items()):
                if v is old:
                    setattr(k, n, stub)


class RealWorld(object):
    """The modules of /repo as the build runs them."""
    symbolic = False

    def __init__(self):
        if instr.REPO not in sys.path:
            sys.path.insert(0, instr.REPO)
        sys.dont_write_bytecode = True
        self.fresh = {}

    def __getattr__(self, name):
        import importlib
        m = importlib.import_module(name)
        if name not in self.fresh:
            import os
            for k, x in list(sys.modules.items()):
                if k not in self.fresh and os.path.dirname(getattr(x, "__file__", None) or "") == instr.REPO:
                    self.fresh[k] = state.Snapshot(x)
            self.fresh.setdefault(name, None)
        return m
