"""Mathematical functions outside the solvers' theories.

An application f(x) becomes a constant together with instances of the axioms
below (functional consistency with the other applications on the path, ranges,
signs, monotonicity, identities). The axioms hold of the real functions, and
of the C library's up to rounding; they are part of the trusted base.
"""
import math
from fractions import Fraction

import z3

from . import core
from .core import SNum, lift, real, nonfinite

PIQ = Fraction(math.pi)
PI = z3.Q(PIQ.numerator, PIQ.denominator)
HALF = PI / 2

_py = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "log": math.log, "sqrt": math.sqrt,
       "erf": math.erf, "asin": math.asin, "acos": math.acos, "atan": math.atan}


def _const(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def apply(E, name, x, numpy=False):
    if not isinstance(x, core.Sym):
        if isinstance(x, Fraction):
            x = float(x)
        if numpy:
            import numpy as np
            return {"asin": np.arcsin, "acos": np.arccos, "atan": np.arctan}.get(name) and \
                {"asin": np.arcsin, "acos": np.arccos, "atan": np.arctan}[name](x) or getattr(np, name)(x)
        return _py[name](x)
    e = z3.simplify(real(*lift(x)))
    # domain
    if name == "sqrt":
        if not squares(e) and E.branch(e < 0):
            return _domain(numpy, float("nan"))
        if E.memo.get("arrays"):
            from . import arrays
            return arrays.root(x)
    elif name == "log":
        if E.branch(e <= 0):
            if numpy:
                return float("-inf") if E.branch(e == 0) else float("nan")
            raise ValueError("math domain error")
    elif name in ("asin", "acos"):
        if E.branch(z3.Or(e < -1, e > 1)):
            return _domain(numpy, float("nan"))
    c = _const(e)
    if c is not None and (name != "sqrt" or getattr(E, "exact", False)):
        v = _py[name](float(c))
        f = Fraction(v)
        return SNum(z3.Q(f.numerator, f.denominator), "r")
    return SNum(_app(E, name, e), "r")


def squares(e):
    """a sum of products in which every factor comes an even number of times"""
    if z3.is_add(e):
        return all(squares(x) for x in e.children())
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    if z3.is_app(e) and e.decl().eq(core.MUL):
        return e.arg(0).eq(e.arg(1))
    if z3.is_app_of(e, z3.Z3_OP_POWER):
        return z3.is_rational_value(e.arg(1)) and e.arg(1).numerator_as_long() % 2 == 0
    if z3.is_mul(e):
        odd = {}

        def walk(x):
            for y in x.children():
                if z3.is_mul(y):
                    walk(y)
                elif z3.is_rational_value(y):
                    if y.numerator_as_long() < 0:
                        odd[-1] = True
                else:
                    if odd.pop(y.get_id(), None) is None:
                        odd[y.get_id()] = True
        walk(e)
        return not odd
    return False


def _domain(numpy, value):
    if numpy:
        return value
    raise ValueError("math domain error")


def _app(E, name, e):
    for e2, v2 in E.fns.get(name, ()):
        if e.eq(e2):
            return v2
    v = E.fresh("%s" % name, z3.RealSort())
    others = list(E.fns.get(name, ()))
    E.fns.setdefault(name, []).append((e, v))
    ax = []
    if name != "sqrt":
        E.approx = True
    if name == "sqrt":
        ax += [v >= 0, v * v == e]
    elif name == "exp":
        ax += [v > 0, z3.Implies(e == 0, v == 1), z3.Implies(e > 0, v > 1), z3.Implies(e < 0, v < 1), v >= 1 + e]
        for e2, v2 in others:
            ax += [z3.Implies(e < e2, v < v2), z3.Implies(e2 < e, v2 < v), z3.Implies(e == e2, v == v2)]
    elif name == "log":
        ax += [z3.Implies(e == 1, v == 0), z3.Implies(e > 1, v > 0), z3.Implies(e < 1, v < 0), v <= e - 1]
        for e2, v2 in others:
            ax += [z3.Implies(e < e2, v < v2), z3.Implies(e2 < e, v2 < v), z3.Implies(e == e2, v == v2)]
    elif name == "erf":
        ax += [v < 1, v > -1, z3.Implies(e == 0, v == 0), z3.Implies(e > 0, v > 0), z3.Implies(e < 0, v < 0)]
        for e2, v2 in others:
            ax += [z3.Implies(e < e2, v < v2), z3.Implies(e2 < e, v2 < v), z3.Implies(e == e2, v == v2),
                   z3.Implies(e == -e2, v == -v2)]
    elif name in ("sin", "cos"):
        other = "cos" if name == "sin" else "sin"
        w = None
        for e2, v2 in E.fns.get(other, ()):
            if e.eq(e2):
                w = v2
        if w is None:
            w = E.fresh(other, z3.RealSort())
            E.fns.setdefault(other, []).append((e, w))
        s, c = (v, w) if name == "sin" else (w, v)
        ax += [s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1,
               z3.Implies(e == 0, z3.And(s == 0, c == 1)),
               # the doubles nearest pi and pi/2 lie below them
               z3.Implies(z3.And(e > 0, e <= PI), s > 0), z3.Implies(z3.And(e < 0, e >= -PI), s < 0),
               z3.Implies(z3.And(e >= -HALF, e <= HALF), c > 0)]
        for y2, x2, r2, v2 in E.memo.get("polar", ()):
            if v2.eq(e):
                ax += [s * r2 == y2, c * r2 == x2]
        for e2, v2 in E.fns.get("asin", ()):
            if v2.eq(e):
                ax += [s == e2]
        for e2, v2 in E.fns.get("acos", ()):
            if v2.eq(e):
                ax += [c == e2]
        for (e2, s2), (e3, c2) in zip(_pairs(E, "sin"), _pairs(E, "cos")):
            if e2.eq(e):
                continue
            ax += [z3.Implies(e == e2, z3.And(s == s2, c == c2)),
                   z3.Implies(e == -e2, z3.And(s == -s2, c == c2))]
            for k in E.memo.get("turns", ()):
                ax += [z3.Implies(e - e2 == 2 * k * PI, z3.And(s == s2, c == c2))]
    elif name == "asin":
        ax += [v >= -HALF, v <= HALF, z3.Implies(e == 0, v == 0), z3.Implies(e > 0, v > 0), z3.Implies(e < 0, v < 0),
               z3.Implies(e == 1, v == HALF), z3.Implies(e == -1, v == -HALF)]
        for e2, v2 in others:
            ax += [z3.Implies(e < e2, v < v2), z3.Implies(e2 < e, v2 < v), z3.Implies(e == e2, v == v2)]
        for x2, s2 in E.fns.get("sin", ()):
            ax += [z3.Implies(z3.And(e == s2, x2 >= -HALF, x2 <= HALF), v == x2)]
    elif name == "acos":
        ax += [v >= 0, v <= PI, z3.Implies(e == 1, v == 0), z3.Implies(e == -1, v == PI), z3.Implies(e < 1, v > 0),
               z3.Implies(e >= 0, v <= HALF), z3.Implies(e <= 0, v >= HALF)]
        for e2, v2 in others:
            ax += [z3.Implies(e < e2, v > v2), z3.Implies(e2 < e, v2 > v), z3.Implies(e == e2, v == v2)]
    elif name == "atan":
        ax += [v >= -HALF, v <= HALF, z3.Implies(e == 0, v == 0), z3.Implies(e > 0, v > 0), z3.Implies(e < 0, v < 0)]
        for e2, v2 in others:
            ax += [z3.Implies(e < e2, v < v2), z3.Implies(e2 < e, v2 < v), z3.Implies(e == e2, v == v2),
                   z3.Implies(e == -e2, v == -v2)]
    elif name == "tan":
        for e2, v2 in others:
            ax += [z3.Implies(e == e2, v == v2)]
    else:
        raise core.Unsupported("function %s" % name)
    inv = {"exp": "log", "log": "exp"}.get(name)
    for e2, v2 in (E.fns.get(inv, ()) if inv else ()):
        # log(exp(x)) = x, also across equal terms
        ax.append(z3.Implies(e == v2, v == e2))
    for a in ax:
        E.assume(a)
    return v


def _pairs(E, name):
    return sorted(E.fns.get(name, ()), key=lambda p: p[0].get_id())


def apply2(E, name, x, y, numpy=False):
    """atan2 and pow."""
    if not isinstance(x, core.Sym) and not isinstance(y, core.Sym):
        return {"atan2": math.atan2, "pow": math.pow}[name](float(x), float(y))
    if nonfinite(x) is not None or nonfinite(y) is not None:
        raise core.Unsupported("%s with a non-finite operand" % name)
    a, b = z3.simplify(real(*lift(x))), z3.simplify(real(*lift(y)))
    ca, cb = _const(a), _const(b)
    if ca is not None and cb is not None:
        v = {"atan2": math.atan2, "pow": math.pow}[name](float(ca), float(cb))
        f = Fraction(v)
        return SNum(z3.Q(f.numerator, f.denominator), "r")
    E.approx = True
    for a2, b2, v2 in E.fns.get(name, ()):
        if a.eq(a2) and b.eq(b2):
            return SNum(v2, "r")
    v = E.fresh(name, z3.RealSort())
    if name == "atan2":
        E.assume(z3.And(v >= -PI, v <= PI))
        E.assume(z3.Implies(a > 0, z3.And(v >= 0, v <= PI)))
        E.assume(z3.Implies(a < 0, z3.And(v <= 0, v >= -PI)))
        E.assume(z3.Implies(z3.And(a == 0, b >= 0), v == 0))
        E.assume(z3.Implies(z3.And(a == 0, b < 0), v == PI))
        E.assume(z3.Implies(b >= 0, z3.And(v >= -HALF, v <= HALF)))
        E.assume(z3.Implies(z3.And(b > 0, a > 0), v > 0))
        E.assume(z3.Implies(z3.And(b > 0, a < 0), v < 0))
        E.assume(z3.Implies(z3.And(b == 0, a > 0), v == HALF))
        E.assume(z3.Implies(z3.And(b == 0, a < 0), v == -HALF))
        E.assume(z3.Implies(z3.And(b < 0, a > 0), v >= HALF))
        E.assume(z3.Implies(z3.And(b < 0, a < 0), v <= -HALF))
        for a2, b2, v2 in E.fns.get(name, ()):
            E.assume(z3.Implies(z3.And(a == a2, b == b2), v == v2))
            E.assume(z3.Implies(z3.And(a == -a2, b == b2, a != 0), v == -v2))
        if E.memo.get("polar on"):
            r = E.fresh("hyp", z3.RealSort())
            E.assume(z3.And(r >= 0, r * r == a * a + b * b))
            E.memo.setdefault("polar", []).append((a, b, r, v))
    else:
        E.assume(z3.Implies(a > 0, v > 0))
        E.assume(z3.Implies(b == 0, v == 1))
        E.assume(z3.Implies(b == 1, v == a))
        for a2, b2, v2 in E.fns.get(name, ()):
            E.assume(z3.Implies(z3.And(a == a2, b == b2), v == v2))
            # increasing in the exponent for a base above 1
            E.assume(z3.Implies(z3.And(a == a2, a > 1, b < b2), v < v2))
            E.assume(z3.Implies(z3.And(a == a2, a > 1, b > b2), v > v2))
    E.fns.setdefault(name, []).append((a, b, v))
    return SNum(v, "r")


def anchor(E, name, x):
    """The value at a constant, for monotonicity against later applications
    (rounded outwards by the double's relative error)."""
    f = Fraction(x)
    e = z3.Q(f.numerator, f.denominator)
    for e2, v2 in E.fns.get(name, ()):
        if e.eq(e2):
            return
    lo = Fraction(_py[name](float(x)))
    v = E.fresh(name, z3.RealSort())
    err = abs(lo) / 2 ** 50
    a, b = lo - err, lo + err
    E.assume(z3.And(v >= z3.Q(a.numerator, a.denominator), v <= z3.Q(b.numerator, b.denominator)))
    for e2, v2 in E.fns.get(name, ()):
        if name in ("exp", "log", "erf", "asin", "atan"):
            E.assume(z3.And(z3.Implies(e < e2, v < v2), z3.Implies(e2 < e, v2 < v), z3.Implies(e == e2, v == v2)))
    E.fns.setdefault(name, []).append((e, v))
