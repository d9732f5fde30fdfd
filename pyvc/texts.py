"""Texts put together from constants and from texts of symbolic values.

A Text is a row of pieces: constant strings and (function, value), standing for the text which the function (str, a
format, strip, ...) makes of the value. Texts of the same make-up are equal when their values are; texts of different
make-up may or may not be, which is left undecided."""
import string

from . import core, values
from .core import SNum, SStr, Unsupported


class Text(object):
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.p = out

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        raise ValueError("a text")

    def __add__(self, o):
        o = text(o)
        return NotImplemented if o is None else Text(self.p + o.p)

    def __radd__(self, o):
        o = text(o)
        return NotImplemented if o is None else Text(o.p + self.p)

    def __eq__(self, o):
        o = text(o)
        if o is None:
            return False
        if len(o.p) != len(self.p) or any(isinstance(a, str) != isinstance(b, str) for a, b in zip(self.p, o.p)):
            raise Unsupported("texts of different make-up: %r and %r" % (self, o))
        out = []
        for a, b in zip(self.p, o.p):
            if isinstance(a, str):
                if a != b:
                    if len(self.p) == 1:
                        return False
                    raise Unsupported("texts of different make-up: %r and %r" % (self, o))
            elif a[0] != b[0]:
                raise Unsupported("texts of different make-up: %r and %r" % (self, o))
            else:
                out.append(values.eq(a[1], b[1]))
        return values.And(*out)

    def __ne__(self, o):
        return values.Not(self == o)

    def __hash__(self):
        raise Unsupported("hash of a text")

    def __repr__(self):
        return "Text(%s)" % ", ".join(p if isinstance(p, str) else "%s" % (p[0],) for p in self.p)

    def rstrip(self, chars=None):
        """of a text that ends in white space after a number, or is one value"""
        if chars is not None or not self.p:
            raise Unsupported("rstrip of a text")
        last = self.p[-1]
        if not isinstance(last, str):
            return self if last[0] in VISIBLE else Text(self.p[:-1] + [("rstrip", last)])
        if last.strip() or len(self.p) > 1 and self.p[-2][0] in VISIBLE:
            return Text(self.p[:-1] + [last.rstrip()])
        raise Unsupported("rstrip of a text")


# texts without white space
VISIBLE = {"dec", "str", "opt", "iso"}


def text(x):
    if isinstance(x, Text):
        return x
    if isinstance(x, str):
        return Text([x])
    if isinstance(x, SStr):
        return Text([("s", x)])
    return None


def of(x, spec=""):
    """format(x, spec) of a symbolic value"""
    t = text(x)
    if t is not None:
        if spec in ("", "s"):
            return t
    elif isinstance(x, SNum):
        if x.k == "i":
            if spec in ("", "d"):
                return Text([("dec", x)])
            return Text([("dec " + spec.rstrip("d"), x)])
        return Text([("str" if not spec else "format " + spec, x)])
    raise Unsupported("format %r" % spec)


def fmt(f, args, kw):
    out, n = [], 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        if conv or "{" in spec:
            raise Unsupported("format %r" % f)
        if field == "":
            field, n = n, n + 1
        elif field.isdigit():
            field = int(field)
        elif not field.isidentifier():
            raise Unsupported("format %r" % f)
        x = kw[field] if isinstance(field, str) else args[field]
        if core.has_sym(x, 0):
            out += of(x, spec).p
        else:
            out.append(format(x, spec))
    return Text(out)


def join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        t = text(x)
        if t is None:
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        if i:
            out.append(sep)
        out += t.p
    return Text(out)
