"""C17: records decode to what they encode.

Symbolic: a record is any sequence of characters; Text(lo, hi) is its characters lo .. hi-1 (blanks past its end).
int(), float() and isspace() of a piece of it are functions of the piece. Tables are arbitrary tables of fields; the
tables of the code are compared with the documented layout."""
import z3
from .common import *
from . import imma_layout as doc
from pyvc.core import SNum, Unsupported
from pyvc.seqs import FnSeq, Ghost, ghost, glen

CONTRACTS = Specs()
add = CONTRACTS.add
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
M = "IMMA1.IMMA."
LAYOUT, LENGTH = doc.LAYOUT, doc.LENGTH
DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def simp(x):
    return z3.simplify(core.lift(x)[0])


def fi(name, *xs):
    return SNum(z3.Function(name, *([I] * len(xs) + [I]))(*[simp(x) for x in xs]), "i")


def fr(name, *xs):
    return SNum(z3.Function(name, *([I] * len(xs) + [R]))(*[simp(x) for x in xs]), "r")


def fb(name, *xs):
    return core.mkb(z3.Function(name, *([I] * len(xs) + [B]))(*[simp(x) for x in xs]))


class Ghostly(object):
    __ghost__ = True
    __symbolic__ = True

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        raise ValueError("symbolic record")


class Text(Ghostly):
    """characters lo .. hi-1 of the record, with white space at its ends taken off or not"""

    def __init__(self, lo, hi, end=None, bare=False):
        self.lo, self.hi, self.end, self.bare = lo, hi, end, bare     # end: where the record ends, hi if None
        E = core.engine()
        E.assume(Implies(self.blank(), And(lo < hi, Not(self.isnum()), Not(self.isfloat()))))
        E.assume(Implies(Or(self.isnum(), self.isfloat()), lo < hi))
        E.assume(Implies(self.isnum(), And(self.isfloat(), self.fnum() == self.num())))

    def key(self):
        return self.lo, self.hi

    def blank(self):
        return fb("blank", self.lo, self.hi)

    def isnum(self):
        return fb("isnum", self.lo, self.hi)

    def isfloat(self):
        return fb("isfloat", self.lo, self.hi)

    def num(self):
        return fi("num", self.lo, self.hi)

    def fnum(self):
        return fr("fnum", self.lo, self.hi)

    def slen(self):
        if self.bare:
            raise Unsupported("length of a stripped field")
        return self.hi - self.lo

    def __bool__(self):
        return core.engine().branch(core.boolexpr(And(self.hi > self.lo, Not(self.blank())) if self.bare else self.hi > self.lo))

    def isspace(self):
        if self.bare:
            raise Unsupported("isspace() of a stripped field")
        return self.blank()

    def rstrip(self, chars=None):
        if chars == "\n":
            return self                       # the record is one line
        return self.strip(chars)

    def strip(self, chars=None):
        if chars not in (None, " "):
            raise Unsupported("strip(%r)" % (chars,))
        return Text(self.lo, self.hi, self.end, True)

    def __eq__(self, o):
        if isinstance(o, str) and o == "":
            return Or(self.hi <= self.lo, self.blank() if self.bare else False)
        if isinstance(o, Text):
            return And(self.bare == o.bare, self.lo == o.lo, self.hi == o.hi)
        if o is None or isinstance(o, (int, float, SNum)):
            return False
        raise Unsupported("comparison of a field with %r" % (o,))

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def __getitem__(self, s):
        if self.bare or not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsupported("indexing a field")
        E, n = core.engine(), self.hi - self.lo

        def lim(v, d):
            if v is None:
                return d
            if E.branch(core.boolexpr(core.SNum(*core.lift(v)) < 0)):
                v = v + n
                if E.branch(core.boolexpr(v < 0)):
                    return 0
            return v
        a, c = lim(s.start, 0), lim(s.stop, n)
        a = Min(a, n)
        c = Max(Min(c, n), a)
        return Text(self.lo + a, self.lo + c, self.end)

    def __add__(self, o):
        if isinstance(o, str) and not o.strip(" "):
            o = Blanks(len(o))
        if not isinstance(o, Blanks) or self.bare:
            raise Unsupported("text added to the record")
        E = core.engine()
        if self.end is not None and not E.prove(self.hi >= self.end, "only blanks past the end of the record", aux=True):
            raise Unsupported("blanks within the record")
        return Text(self.lo, self.hi + o.n, self.end)

    def ljust(self, w):
        return self + Blanks(Max(w - (self.hi - self.lo), 0))

    def __sint__(self):
        if not core.engine().branch(core.boolexpr(self.isnum())):
            core.engine().memo["malformed"] = self
            raise ValueError("invalid literal for int()")
        return self.num()

    def __sfloat__(self):
        if not core.engine().branch(core.boolexpr(self.isfloat())):
            core.engine().memo["malformed"] = self
            raise ValueError("could not convert string to float")
        return self.fnum()


class Blanks(Ghostly):
    def __init__(self, n):
        self.n = n


class Wide(Ghostly):
    """a format of a given width"""

    def __init__(self, kind, w):
        self.kind, self.w = kind, w

    def __mod__(self, x):
        return format_piece(self.kind, self.w, x)


class Piece(Ghostly):
    """something written: kind number, text, digit or blank; its value; its width (None: as wide as it is)"""

    def __init__(self, kind, val, w):
        self.kind, self.val, self.w = kind, val, w

    def __radd__(self, o):
        if o == "":
            return Out(0, [self])
        raise Unsupported("text before a field")


class Out(Ghostly):
    """fields 0 .. upto-1 as written, and the pieces after"""

    def __init__(self, upto, pieces):
        self.upto, self.pieces = upto, pieces

    def __add__(self, o):
        if isinstance(o, str) and not o.strip(" ") and o:
            o = Piece("blank", None, len(o))
        if isinstance(o, Piece):
            return Out(self.upto, self.pieces + [o])
        raise Unsupported("text after a field")

    def slen(self):
        if self.pieces:
            raise Unsupported("length within a field")
        return fi("offset", self.upto)


def format_piece(kind, w, x):
    if isinstance(x, str) and not x.strip(" ") and kind in ("s", "-s"):
        if w is None:
            return Piece("blank", None, len(x))
        return Blanks(Max(w, len(x))) if core.engine().memo.get("record") else Piece("blank", None, Max(w, len(x)))
    if isinstance(x, (SNum, int)) and kind == "d":
        return Piece("number", core.toint(x) if isinstance(x, SNum) else x, w)
    if isinstance(x, Digit) and kind in ("s", "-s"):
        return Piece("digit", x.t, w)
    if isinstance(x, Held) and kind == "-s":
        return Piece("text", x.i, w)
    if isinstance(x, Held) and kind == "s" and w is None:
        return Piece("text", x.i, w)
    raise Unsupported("%r formatted with %%%s" % (x, kind))


WIDTHS = {"%%%dd": "d", "%%-%ds": "-s", "%%%ds": "s"}
PLAIN = {"%d": "d", "%-s": "-s", "%s": "s"}


def formats(a, x):
    if isinstance(x, tuple) and len(x) == 1:
        x = x[0]
    if a in WIDTHS and isinstance(x, SNum):
        return Wide(WIDTHS[a], x)
    if a in PLAIN and isinstance(x, (SNum, Ghostly)):
        return format_piece(PLAIN[a], None, x)
    if isinstance(x, tuple) and any(isinstance(y, Out) for y in x):
        return Head(a, x)
    if isinstance(x, (Out, Ghostly)):
        raise Unsupported("format %r" % a)
    return NotImplemented


class Head(Ghostly):
    """an attachment written: identity, length, fields"""

    def __init__(self, a, xs):
        self.chars, self.length, self.out = None, None, xs[-1]
        if not isinstance(self.out, Out) or not a.endswith("%s") or any(isinstance(x, Ghostly) for x in xs[:-1]):
            raise Unsupported("format of an attachment")
        if any(isinstance(x, SNum) for x in xs[:-1]):
            if len(xs) != 3 or not a.endswith("%2d%s") or isinstance(xs[0], SNum):
                raise Unsupported("format of an attachment")
            self.chars, self.length = a[:-len("%2d%s")] % xs[0], xs[1]
        else:
            self.chars = a[:-2] % tuple(xs[:-1])


# ------------------------------------------------------------------ tables

def tables_run(W, a):
    m, out = W.IMMA1, {}
    for i in range(100):
        try:
            name, ps, ds = m.getAttachment(i), m.getParameters(i), m.getDefinitions(i)
        except KeyError:
            continue
        out["%02d" % i] = [[p, ds[p][0], (1.0 if ds[p][5] is None and ds[p][6] != 3 else ds[p][5]), ds[p][6]] for p in ps] \
            if name is not None else None
    return out


def tables_spec(a):
    return {k: [[p, w, 1.0 if s is None and e != 3 else s, e] for p, w, s, e in LAYOUT[k][1]] for k in LAYOUT}


add("the tables of fields are the documented layout of every attachment", {}, tables_run,
    ["IMMA1.getAttachment", "IMMA1.getParameters", "IMMA1.getDefinitions"], spec=tables_spec, samples=1, diff=False)


def layout_sound(W, a):
    """of the documented layout: what the contracts below take of a table"""
    bad = []
    for k in LAYOUT:
        fs = LAYOUT[k][1]
        names = [f[0] for f in fs]
        if len(set(names)) != len(names):
            bad.append(k + " names")
        for n, (p, w, s, e) in enumerate(fs):
            if e not in (1, 2, 3) or (w is None and n < len(fs) - 1) or (w is not None and w < 1):
                bad.append(k + p)
            if e == 3 and s is not None or e == 2 and (w != 1 or s != 1.0) or s is not None and not s > 0:
                bad.append(k + p)
        if LENGTH[k] is not None and sum(f[1] for f in fs) + (4 if k != "00" else 0) != LENGTH[k]:
            bad.append(k + " length")
        for j in LAYOUT:
            if j < k and (j, k) not in (("02", "05"), ("03", "06"), ("04", "07")) and set(names) & set(f[0] for f in LAYOUT[j][1]):
                bad.append(j + k + " share a name")      # (those replace one another)
    return bad


add("lemma: names differ, widths add up and kinds fit in the documented layout", {}, layout_sound, [], spec=lambda a: [],
    samples=1, diff=False)


# ----------------------------------------------------------------- base 36

add("base-36 digits: value of a character", dict(c=Enum(*[chr(i) for i in range(32, 127)] + ["\xe9"])),
    lambda W, a: W.IMMA1.decode_base36(a.c), ["IMMA1.decode_base36"],
    post=lambda a, r: r == DIGITS.index(a.c) if a.c in DIGITS else r < 0, samples=300, diff=False)
add("base-36 digits: character of a value, and back", dict(t=Cases(0, 35)),
    lambda W, a: [W.IMMA1.encode_base36(a.t), W.IMMA1.decode_base36(W.IMMA1.encode_base36(a.t))],
    ["IMMA1.encode_base36", "IMMA1.decode_base36"], spec=lambda a: [DIGITS[a.t], a.t], samples=200)


# ------------------------------------------------------------------ decode

class Key(Ghostly):
    def __init__(self, i):
        self.i = i


class Rows(Ghostly):
    """definitions of an arbitrary table"""

    def __getitem__(self, k):
        if not isinstance(k, Key):
            raise KeyError(k)
        core.engine().memo["row"] = k.i
        return Row(k.i)


class Row(Ghostly):
    def __init__(self, i):
        self.i = i

    def __len__(self):
        return 7

    def __iter__(self):
        return iter([self[0], Ghostly(), Ghostly(), Ghostly(), Ghostly(), self[5], self[6]])

    def __getitem__(self, j):
        E = core.engine()
        if j == 0:
            return None if E.branch(core.boolexpr(fb("wnone", self.i))) else fi("width", self.i)
        if j == 5:
            return None if E.branch(core.boolexpr(fb("snone", self.i))) else fr("scale", self.i)
        if j == 6:
            return fi("kind", self.i)
        raise Unsupported("column %r of a table" % (j,))


def table_facts(i, n):
    """a table like the documented ones, at field i of n"""
    E = core.engine()
    w, k = fi("width", i), fi("kind", i)
    E.assume(Implies(And(i >= 0, i < n), And(
        w >= 1, k >= 1, k <= 3, fr("scale", i) > 0, Or(Not(fb("wnone", i)), i == n - 1),
        Implies(k == 3, fb("snone", i)), Implies(k == 2, And(w == 1, Not(fb("wnone", i)), Not(fb("snone", i)), fr("scale", i) == 1)))))
    e = SNum(simp(i), "i")
    E.assume(And(fi("offset", 0) == 0, Implies(e >= 0, fi("offset", e) >= 0)))
    E.assume(Implies(And(e >= 0, Not(fb("wnone", e))), fi("offset", e + 1) == fi("offset", e) + w))


class Slots(Ghostly):
    """the record's values: field k of the table is followed; the others are what was written last"""

    def __init__(self):
        self.upto, self.writes, self.done = 0, [], None

    def __setitem__(self, k, v):
        if not isinstance(k, Key):
            raise Unsupported("value of %r" % (k,))
        self.writes.append((k.i, v))

    def __getitem__(self, k):
        i = k.i
        E = core.engine()
        for j, v in reversed(self.writes):
            if i is j or E.branch(core.boolexpr(core.SNum(*core.lift(i)) == j)):
                return v
        raise Unsupported("value of a field of another turn")

    def slot(self, k):
        E = core.engine()
        for j, v in reversed(self.writes):
            if E.branch(core.boolexpr(core.SNum(*core.lift(k)) == j)):
                return v
        if E.branch(core.boolexpr(core.SNum(*core.lift(k)) < self.upto)):
            return DONE
        return UNSET


DONE, UNSET = "as decoded before", "nothing"


def field_text(i, n, end):
    lo = fi("offset", i)
    hi = Ite(fb("wnone", i), end, lo + fi("width", i))
    return lo, hi


def decoded(i, n, end, x):
    """x is the value of field i"""
    E = core.engine()
    if isinstance(x, str):
        return x == DONE
    lo, hi = field_text(i, n, end)
    blank, kind = fb("blank", lo, hi), fi("kind", i)
    if x is None:
        return blank
    if isinstance(x, Text):
        return And(Not(blank), kind == 3, x.lo == lo, x.hi == hi, not x.bare)
    if not isinstance(x, (SNum, int)):
        return False
    v = Ite(kind == 2, fi("b36", lo, hi), fi("num", lo, hi))
    unit = Or(fb("snone", i), fr("scale", i) == 1)
    return And(Not(blank), Or(kind == 1, kind == 2), Ite(unit, x == v, x == v * fr("scale", i)))


class Table(Desc):
    """any table of fields and any record at least as long; concrete: a documented attachment and its characters"""

    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n >= 1)
        return SymTable(E, n)

    def rand(self, rng, pool):
        att = rng.choice(sorted(LAYOUT))
        return dict(att=int(att), chars=[some_chars(rng, w, s, e) for p, w, s, e in LAYOUT[att][1]])


class SymTable(Ghostly):
    def __init__(self, E, n):
        self.n, self.k = n, E.int("a.k")
        self.end = E.int("a.end")
        E.assume(And(self.k >= 0, self.k < n))


def some_chars(rng, w, s, e, malformed=0.004):
    """what a field may hold"""
    if w is None:
        return rng.choice(["", "free text", " leading", "0123456789"])
    u = rng.random()
    if u < 0.15:
        return " " * w
    if e == 3:
        return "".join(rng.choice(" ABCXYZ0189") for _ in range(w))
    if e == 2:
        return rng.choice(DIGITS) if u < 1 - malformed else rng.choice("a*-")
    if u > 1 - malformed:
        return ("x" * w)
    v = rng.choice([0, 1, 10 ** w - 1, rng.randint(0, 10 ** w - 1), rng.randint(0, 10 ** max(w - 1, 1) - 1)])
    if rng.random() < 0.2 and w > 1:
        v = -rng.randint(0, 10 ** (w - 1) - 1)
    t = ("%d" if rng.random() < 0.7 else "%%0%dd" % w if v >= 0 else "%d") % v
    return t.rjust(w)[:w] if rng.random() < 0.9 else t.ljust(w)[:w]


def value_of(t, w, s, e):
    """the value the characters denote: None when blank, ValueError when no number"""
    if t != "" and not t.strip():
        return None
    if e == 3:
        return t
    v = DIGITS.find(t) if e == 2 else int(t)
    return v if s in (None, 1.0) else v * s


def fields_of(att, chars):
    out = {}
    for (p, w, s, e), t in zip(LAYOUT["%02d" % att][1], chars):
        try:
            out[p] = value_of(t, w, s, e)
        except ValueError:
            return Raised("ValueError")
    return out


def decode_run(W, a):
    t = a.t
    r = W.IMMA1.IMMA()
    if isinstance(t, SymTable):
        E = core.engine()
        table_facts(t.k, t.n)
        r.data = E.memo["slots"] = Slots()
        core.engine().memo["table"] = t
        r.decode(Text(0, t.end), "attachment", FnSeq(t.n, lambda i: Key(i)), Rows())
        return r.data.slot(t.k)
    m = W.IMMA1
    r.decode("".join(t["chars"]), m.getAttachment(t["att"]), m.getParameters(t["att"]), m.getDefinitions(t["att"]))
    return dict(r.data)


def decode_post(a, r):
    t = a.t
    if isinstance(t, SymTable):
        return [("the field has the value its characters denote", decoded(t.k, t.n, t.end, r))]
    want = fields_of(t["att"], t["chars"])
    return [("the fields have the values their characters denote", not isinstance(want, Raised) and eq(r, want))]


def decode_raises(a, r):
    t = a.t
    if not isinstance(t, SymTable):
        if r is not None and not isinstance(r, Raised):
            return True
        return eq(r, fields_of(t["att"], t["chars"]))
    bad, i = core.engine().memo.get("malformed"), core.engine().memo.get("row")
    if r.name != "ValueError" or bad is None or i is None:
        return False
    lo, hi = field_text(i, t.n, t.end)
    return And(bad.lo == lo, bad.hi == hi, fi("kind", i) == 1, Not(fb("blank", lo, hi)), Not(fb("isnum", lo, hi)))


def decode_inv(v, s):
    E = core.engine()
    t, slots = E.memo["table"], E.memo["slots"]
    i = SNum(simp(s.i), "i")
    table_facts(i, t.n)
    table_facts(i - 1, t.n)
    whole = And(i == t.n, i >= 1, fb("wnone", i - 1))
    # the record was padded to the width of the table
    E.assume(Implies(And(i >= 0, i < t.n), t.end >= fi("offset", i) + Ite(fb("wnone", i), 0, fi("width", i))))
    x = slots.slot(t.k)
    return [("position", Or(whole, v.Position == fi("offset", i))),
            ("field k", Or(t.k >= i, decoded(t.k, t.n, t.end, x)))]


def fresh_slots(E, v, s):
    m = E.memo["slots"]
    m.upto, m.writes = s.now, []


B36 = Contract("stub", dict(t=None), None, [], spec=lambda a: b36_of(a.t))


def b36_of(t):
    if not isinstance(t, Text):
        raise Unsupported("base-36 value of %r" % (t,))
    return fi("b36", t.lo, t.hi)


class Both(Contract):
    """post and raises together: what may be raised is as specified, and so are the values"""

    def conditions(self, a, r):
        if isinstance(r, Raised):
            return [("a record is rejected only when malformed", self.rejects(a, r))]
        return self.post(a, r)


def both(name, params, call, functions, post, rejects, **kw):
    c = Both(name, params, call, functions, post=post, raises=rejects, **kw)
    c.rejects = rejects
    CONTRACTS.append(c)
    return c


both("decode: every field has the value its own characters denote", dict(t=Table()), decode_run, [M + "decode", M + "__getitem__", M + "__setitem__"],
     decode_post, decode_raises, use={"IMMA1.decode_base36": B36}, diff=False,
     loops={M + "decode#0": LoopSpec(decode_inv, havoc={"_ghost": fresh_slots}, changes=("self",))})


# ----------------------------------------------------------------- records

class Records(Desc):
    """any line; concrete: a record of documented attachments, cut short or not"""

    def sym(self, E, name):
        n, raw = E.int("a." + name + ".n"), E.int("a." + name + ".raw")
        E.assume(And(n >= 0, raw >= n))
        return SymLine(n, raw)

    def rand(self, rng, pool):
        atts = ["00"] + rng.sample(["01", "02", "03", "04", "05", "06", "07", "08", "09", "95", "96", "97", "98"], rng.randint(0, 3))
        if rng.random() < 0.4:
            atts.append("99")
        parts = [[k, [some_chars(rng, w, s, e, 0.0005) for p, w, s, e in LAYOUT[k][1]]] for k in atts]
        if parts[-1][0] != "99" and rng.random() < 0.3:
            parts[-1][1][-1] = " " * len(parts[-1][1][-1])
        return dict(parts=parts, cut=rng.random() < 0.5, blank=rng.random() < 0.1, nl=rng.choice(["\n", "", "\n\n"]))


def head_of(k, blank):
    L = LENGTH[k]
    return "%2d%s" % (int(k), ("  " if blank else " 0") if L is None else "2U" if L > 99 else "%2d" % L)


def line_of(t):
    s = ""
    for k, chars in t["parts"]:
        s += ("" if k == "00" else head_of(k, t["blank"])) + "".join(chars)
    last = s
    if t["cut"]:
        k, chars = t["parts"][-1]
        body = "".join(chars)
        if body.strip() and not (k == "99"):
            last = s[:len(s) - len(body)] + body.rstrip(" ")
    return last + t["nl"]


class SymLine(Ghostly):
    """the line as read: n characters and the newlines after"""

    def __init__(self, n, raw):
        self.n, self.raw = n, raw

    def __eq__(self, o):
        if o != "":
            raise Unsupported("comparison of the line")
        return self.raw == 0

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def slen(self):
        return self.raw

    def __bool__(self):
        return core.engine().branch(core.boolexpr(self.raw > 0))

    def rstrip(self, chars=None):
        if chars not in ("\n", "\r\n"):
            raise Unsupported("rstrip(%r) of the line" % (chars,))
        return Text(0, self.n, self.n)


# part j of the record: starts at at(j) (past its header), attachment id(j), characters size(j), or the rest of it

def part(j, n):
    """facts of parts j and j + 1"""
    E = core.engine()
    j = SNum(simp(j), "i")
    E.assume(And(fi("at", 0) == 0, fi("id", 0) == 0, fi("size", 0) == 108, Not(fb("rest", 0))))
    E.assume(Implies(j >= 0, And(fi("at", j) >= 0, Or(fb("rest", j), fi("size", j) >= 1))))
    h = fi("at", j) + fi("size", j)
    k = j + 1
    i2, i4 = Min(h + 2, n), Min(h + 4, n)
    E.assume(Implies(And(j >= 0, Not(fb("rest", j)), h < n), And(
        fi("at", k) == i4, fi("id", k) == fi("num", h, i2),
        Implies(fi("id", k) == 8, And(Not(fb("rest", k)), fi("size", k) == 98)),
        Implies(And(fi("id", k) != 8, fb("blank", i2, i4)), fb("rest", k)),
        Implies(And(fi("id", k) != 8, Not(fb("blank", i2, i4))), And(
            fb("rest", k) == (fi("num", i2, i4) == 0), Or(fb("rest", k), fi("size", k) == fi("num", i2, i4) - 4)))))
    )


def last(j, n):
    """part j is the last of the record"""
    h = fi("at", j) + fi("size", j)
    return Or(fb("rest", j), h >= n, h + 4 >= n)


class Named(Ghostly):
    """table of an attachment"""

    def __init__(self, what, i):
        self.what, self.i = what, i

    def __eq__(self, o):
        return And(self.what == o.what, self.i == o.i) if isinstance(o, Named) else False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None


def table_of(what):
    def get(a):
        E = core.engine()
        if not E.branch(core.boolexpr(fb("documented", a.i))):
            E.memo["malformed"] = "unknown attachment"
            raise KeyError("attachment")
        return Named(what, a.i)
    return Contract("stub", dict(i=None), None, [], spec=get)


def decode_call(a):
    E = core.engine()
    st = E.memo["parts"]
    j = st.count
    t = a.as_string
    E.prove(isinstance(t, Text) and not t.bare, "a part of the record is decoded", aux=False)
    size = fi("size", j)
    E.prove(And(t.lo == fi("at", j), Or(t.hi >= st.n, t.hi >= t.lo + size)), "part j is decoded from its own first character")
    E.prove(Or(fb("rest", j), t.hi - t.lo >= size), "part j is as long as its attachment")
    for what, x in (("name", a.attachment), ("parameters", a.parameters), ("definitions", a.definitions)):
        E.prove(isinstance(x, Named) and And(x.what == what, x.i == fi("id", j)), "part j is decoded by the table of its attachment")
    if E.branch(core.boolexpr(fb("malformed", j))):
        E.memo["malformed"] = "a field"
        raise ValueError("malformed")
    st.count = st.count + 1


class Parts(object):
    __ghost__ = True

    def __init__(self, n):
        self.n, self.count = n, 0

    def __deepcopy__(self, memo):
        return self


def readstr_run(W, a):
    t = a.t
    m = W.IMMA1
    r = m.IMMA()
    if isinstance(t, SymLine):
        E = core.engine()
        E.memo.update(format=formats, record=True, parts=Parts(t.n))
        E.assume(And(fb("documented", 0), fb("documented", 8)))
        E.memo["obj"] = r
        x = r.readstr(t)
        return x, r
    r.readstr(line_of(t))
    return dict(data=dict(r.data), attachments=list(r.attachments))


def whole(t):
    """what a record holds"""
    out, atts = {}, []
    for k, chars in t["parts"]:
        f = fields_of(int(k), chars)
        if isinstance(f, Raised):
            return f
        out.update(f)
        atts.append(int(k))
    return dict(data=out, attachments=atts)


def is_list(xs, count):
    """xs lists id(0) .. id(count-1)"""
    g, new = ghost(xs)
    n0 = 0 if g is None else g.n
    return And(n0 + len(new) == count, *[x == fi("id", n0 + d) for d, x in enumerate(new)])


def readstr_post(a, r):
    t = a.t
    if not isinstance(t, SymLine):
        return [("every field of every part", eq(r, whole(t)))]
    st = core.engine().memo["parts"]
    x, obj = r
    part(st.count - 1, t.n)
    return [("every part is decoded, the last one too", Or(And(st.count == 0, t.n == 0), And(st.count >= 1, last(st.count - 1, t.n)))),
            ("the attachments are listed", is_list(obj.attachments, st.count))]


def readstr_rejects(a, r):
    t = a.t
    if not isinstance(t, SymLine):
        return eq(r, whole(t))
    return r.name in ("ValueError", "KeyError") and core.engine().memo.get("malformed") is not None


def readstr_pre(a):
    t = a.t
    return True if not isinstance(t, SymLine) else Or(t.raw == 0, t.raw > 0)


def readstr_inv(v, s):
    E = core.engine()
    st = E.memo["parts"]
    n = st.n
    if not isinstance(v.line, Text):
        return [("line", False)]
    j = st.count
    part(j, n)
    part(j - 1, n)
    here = v.line
    over = here.hi <= here.lo
    L = v.Length
    size = fb("rest", j) if L is None else Or(And(fb("rest", j), L == 0), And(Not(fb("rest", j)), L == fi("size", j)))
    return [("what is left is from part j on", Or(over, And(here.lo == fi("at", j), here.hi == n))),
            ("nothing is left only past the last part", Or(Not(over), And(j == 0, n == 0), And(j >= 1, last(j - 1, n)))),
            ("attachment", Or(over, v.Attachment == fi("id", j))),
            ("length", Or(over, size)),
            ("listed", is_list(E.memo["obj"].attachments, j))]


def fresh_part(E, v, s):
    st = E.memo["parts"]
    st.count = E.int("h.j")
    E.assume(st.count >= 0)
    E.memo["obj"].attachments = [Ghost(st.count)]


def fresh_line(E, v, s):
    n = E.memo["parts"].n
    lo = E.int("h.lo")
    E.assume(lo >= 0)
    return Text(lo, Ite(lo < n, n, lo), n)


def fresh_length(E, v, s):
    return None if E.choose(2) else E.int("h.length")


both("readstr: a record is taken apart at the lengths its attachments give", dict(t=Records()), readstr_run,
     [M + "readstr", M + "__init__"], readstr_post, readstr_rejects, pre=readstr_pre, diff=False,
     use={M + "decode": Contract("stub", dict(self=None, as_string=None, attachment=None, parameters=None, definitions=None), None, [],
                                 spec=decode_call),
          "IMMA1.getAttachment": table_of("name"), "IMMA1.getParameters": table_of("parameters"),
          "IMMA1.getDefinitions": table_of("definitions")},
     loops={M + "readstr#0": LoopSpec(readstr_inv, havoc={"_ghost": fresh_part, "line": fresh_line, "Length": fresh_length},
                                      measure=lambda v: v.line.hi - v.line.lo, varies=("Length",), changes=("self",))})


# ------------------------------------------------------------------ encode

class Held(Ghostly):
    """the text held for field i, no longer than the field"""

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Held) and self.i == o.i if o is not None else False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None


class Digit(Ghostly):
    def __init__(self, t):
        self.t = t

    def __radd__(self, o):
        raise Unsupported("a digit outside its field")


class Values(Ghostly):
    """values a record may hold: numbers that fit their fields, base-36 digits, text"""

    def __getitem__(self, k):
        E = core.engine()
        i = k.i
        if E.branch(core.boolexpr(fb("missing", i))):
            return None
        kind = fi("kind", i)
        if E.branch(core.boolexpr(kind == 3)):
            return Held(i)
        if E.branch(core.boolexpr(kind == 2)):
            E.assume(And(fi("digit", i) >= 0, fi("digit", i) <= 35))
            return fi("digit", i)
        if E.branch(core.boolexpr(fb("snone", i))):
            return fi("count", i)
        return fr("held", i)


class Holding(Desc):
    """an attachment with any values within range; concrete: of the documented layout"""

    def __init__(self, atts):
        self.atts = atts

    def sym(self, E, name):
        att = self.atts[E.choose(len(self.atts))]
        n = E.int("a." + name + ".n")
        E.assume(n >= 1)
        return SymHolding(E, n, att)

    def rand(self, rng, pool):
        att = rng.choice(self.atts)
        vals = []
        for p, w, s, e in LAYOUT["%02d" % att][1]:
            vals.append(some_value(rng, w, s, e))
        return dict(att=att, vals=vals)


def some_value(rng, w, s, e):
    if rng.random() < 0.2:
        return None
    if e == 3:
        if w is None:
            return rng.choice(["free text", "X"])
        return "".join(rng.choice("ABCXYZ0189") for _ in range(rng.randint(1, w)))
    if e == 2:
        return rng.randint(0, 35)
    u = rng.choice([0, 1, 10 ** w - 1, rng.randint(0, 10 ** w - 1)])
    if rng.random() < 0.4 and w > 1:
        u = -rng.randint(0, 10 ** (w - 1) - 1)
    if s in (None, 1.0):
        return u
    x = u * s
    if 0 < abs(u) < 10 ** (w - 1) - 1 and rng.random() < 0.5:
        x += s * rng.uniform(-0.45, 0.45)
    return x


class SymHolding(Ghostly):
    def __init__(self, E, n, att):
        self.n, self.att, self.k = n, att, E.int("a.k")
        E.assume(And(self.k >= 0, self.k < n))


ATTS = [int(k) for k in sorted(LAYOUT)]


def encode_run(W, a):
    t = a.t
    m = W.IMMA1
    r = m.IMMA()
    if isinstance(t, SymHolding):
        E = core.engine()
        E.memo.update(format=formats, table=t)
        r.data = Values()
        x = r.encode(t.att, FnSeq(t.n, lambda i: Key(i)), Rows())
        return x
    ps = m.getParameters(t["att"])
    for p, v in zip(ps, t["vals"]):
        r[p] = v
    return r.encode(t["att"], ps, m.getDefinitions(t["att"]))


def encoded(i, x):
    """piece x is field i as written: in its own width, and the number nearest to its value"""
    if not isinstance(x, Piece):
        return False
    kind, miss = fi("kind", i), fb("missing", i)
    free = fb("wnone", i)
    if x.kind == "blank":
        return And(miss, Ite(free, x.w == 1, x.w == fi("width", i)))
    own = And(Not(miss), free) if x.w is None else And(Not(miss), Not(free), x.w == fi("width", i))
    if x.kind == "text":
        return And(own, kind == 3, x.val == i)
    if x.kind == "digit":
        return And(own, kind == 2, x.val == fi("digit", i))
    d = x.val * fr("scale", i) - fr("held", i)
    return And(own, kind == 1, Ite(fb("snone", i), x.val == fi("count", i), And(d * 2 <= fr("scale", i), d * 2 >= -fr("scale", i))))


def encode_inv(v, s):
    E = core.engine()
    t = E.memo["table"]
    i = SNum(simp(s.i), "i")
    table_facts(i, t.n)
    table_facts(i - 1, t.n)
    x = v.Result
    if isinstance(x, str):
        return [("fields so far", And(x == "", i == 0))]
    if not isinstance(x, Out):
        return [("fields so far", False)]
    if not x.pieces:
        return [("fields so far", Or(x.upto == i))]
    return [("fields so far", And(len(x.pieces) == 1, x.upto + 1 == i)), ("field i", encoded(i - 1, x.pieces[0]))]


def encode_post(a, r):
    t = a.t
    if isinstance(t, SymHolding):
        h = head_of("%02d" % t.att, False) if t.att else ""
        out, chars, length = r, "", None
        if isinstance(r, Head):
            out, chars, length = r.out, r.chars, r.length
        if not isinstance(out, Out):
            return [("fields", False)]
        ok = [("all the fields and no more", And(not out.pieces, out.upto == t.n))]
        if t.att == 0:
            return ok + [("the core has no header", isinstance(r, Out))]
        if length is None:
            return ok + [("the header names the attachment and its length", chars == h)]
        return ok + [("the header names the attachment", chars == h[:2]),
                     ("the header gives the length", And(LENGTH["%02d" % t.att] is not None and LENGTH["%02d" % t.att] < 100,
                                                         Or(length == (LENGTH["%02d" % t.att] or 0))))]
    att = "%02d" % t["att"]
    h = "" if att == "00" else head_of(att, False)
    if not isinstance(r, str) or not r.startswith(h):
        return [("the header", False)]
    r = r[len(h):]
    pos, ok = 0, True
    for (p, w, s, e), v in zip(LAYOUT[att][1], t["vals"]):
        x = r[pos:] if w is None else r[pos:pos + w]
        pos = len(r) if w is None else pos + w
        if v is None:
            ok = ok and not x.strip()
        else:
            try:
                y = value_of(x, w, s, e)
            except ValueError:
                y = None
            ok = ok and y is not None and (y.rstrip() == v.rstrip() if e == 3 else
                                           abs(y - v) <= (0.5 * (s or 0) * (1 + 1e-9) if s not in (None, 1.0) else 0) + 1e-9)
    return [("what is written decodes to what was held", ok and pos == len(r))]


def encode_pre(a):
    t = a.t
    if not isinstance(t, SymHolding):
        return True
    L = LENGTH["%02d" % t.att]
    if L is None:
        return True
    # the widths of the fields add up to the documented length (lemma)
    return And(fi("offset", t.n) == L - (4 if t.att else 0), Not(fb("wnone", t.n - 1)))


def digit_of(a):
    if not isinstance(a.t, SNum):
        raise Unsupported("base-36 digit of %r" % (a.t,))
    core.engine().prove(And(a.t >= 0, a.t <= 35), "precondition of encode_base36 at its call")
    return Digit(a.t)


def so_far(E, v, s):
    return Out(s.now, [])


add("encode: every field in its place and to its resolution", dict(t=Holding(ATTS)), encode_run, [M + "encode", M + "__getitem__"],
    post=encode_post, pre=encode_pre, diff=False, use={"IMMA1.encode_base36": Contract("stub", dict(t=None), None, [], spec=digit_of)},
    loops={M + "encode#0": LoopSpec(encode_inv, havoc={"Result": so_far}, varies=("Result",))})


# ---------------------------------------------------------- write and read

class Written(Ghostly):
    """attachments 0 .. upto-1 as written one after the other, and those since; what was stripped and added at the end"""

    def __init__(self, upto, new, stripped=False, end=""):
        self.upto, self.new, self.stripped, self.end = upto, new, stripped, end

    def __add__(self, o):
        if isinstance(o, Attached) and not self.stripped:
            return Written(self.upto, self.new + [o.i])
        if isinstance(o, str) and self.stripped:
            return Written(self.upto, self.new, True, self.end + o)
        raise Unsupported("text added to a record")

    def rstrip(self, chars=None):
        if chars not in (None, " ") or self.end:
            raise Unsupported("rstrip of a record")
        return Written(self.upto, self.new, True)


class Attached(Ghostly):
    def __init__(self, i):
        self.i = i

    def __radd__(self, o):
        if o == "":
            return Written(0, [self.i])
        raise Unsupported("text before an attachment")


class Content(Desc):
    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n >= 0)
        return SymContent(n)

    def rand(self, rng, pool):
        out = []
        for k in ["00"] + rng.sample(["01", "05", "06", "07", "08", "09", "95", "96", "97", "98"], rng.randint(0, 4)) + \
                (["99"] if rng.random() < 0.4 else []):
            vals = [some_value(rng, w, s, e) for p, w, s, e in LAYOUT[k][1]]
            if all(v is None or v == "" for v in vals):
                vals[0] = {1: 1, 2: 1, 3: "A"}[LAYOUT[k][1][0][3]]
            out.append([int(k), vals])
        return out


class SymContent(Ghostly):
    def __init__(self, n):
        self.n = n


class Sheet(object):
    __ghost__ = True

    def __init__(self):
        self.lines = []

    def __deepcopy__(self, memo):
        return self

    def write(self, x):
        self.lines.append(x)


def write_run(W, a):
    m, t = W.IMMA1, a.t
    r, fh = m.IMMA(), Sheet()
    if isinstance(t, SymContent):
        r.attachments = FnSeq(t.n, lambda i: fi("att", i))
        r.write(fh)
        return fh.lines
    for k, vals in t:
        r.attachments.append(k)
        for p, v in zip(m.getParameters(k), vals):
            r[p] = v
    r.write(fh)
    back = m.IMMA()
    back.readstr(fh.lines[0])
    return dict(lines=fh.lines, data=back.data, attachments=back.attachments)


def write_post(a, r):
    t = a.t
    if isinstance(t, SymContent):
        x = r[0] if len(r) == 1 else None
        if isinstance(x, str):
            return [("one line of all attachments", And(x == "\n", t.n == 0))]
        if not isinstance(x, Written):
            return [("one line of all attachments", False)]
        return [("one line of all attachments", And(x.upto + len(x.new) == t.n, *[y == fi("att", x.upto + d) for d, y in enumerate(x.new)])),
                ("and one newline at its end", x.stripped and x.end == "\n")]
    ok = len(r["lines"]) == 1 and r["lines"][0].endswith("\n") and r["attachments"] == [k for k, v in t]
    for k, vals in t:
        for (p, w, s, e), v in zip(LAYOUT["%02d" % k][1], vals):
            y = r["data"].get(p)
            if v is None or y is None:
                ok = ok and y is v or w is None and y == "" and ok
            elif e == 3:
                ok = ok and y.rstrip() == v.rstrip()
            else:
                ok = ok and abs(y - v) <= (0.5 * s * (1 + 1e-9) if s not in (None, 1.0) else 0) + 1e-9
    return [("what is written is read back to the fields' resolution", ok)]


def encode_any(a):
    """the attachment as text, written by its own table"""
    if not (isinstance(a.parameters, Named) and isinstance(a.definitions, Named)):
        raise Unsupported("tables of an attachment")
    core.engine().prove(And(a.parameters.what == "parameters", a.definitions.what == "definitions", a.parameters.i == a.attachment,
                            a.definitions.i == a.attachment), "an attachment is written by its own table")
    return Attached(a.attachment)


def write_inv(v, s):
    x = v.Result
    if isinstance(x, str):
        return [("attachments so far", And(x == "", s.i == 0))]
    if not isinstance(x, Written) or x.stripped:
        return [("attachments so far", False)]
    return [("attachments so far", And(x.upto + len(x.new) == s.i, *[y == fi("att", x.upto + d) for d, y in enumerate(x.new)]))]


def named(what):
    return Contract("stub", dict(i=None), None, [], spec=lambda a: Named(what, a.i))


add("write: one line, attachment after attachment", dict(t=Content()), write_run, [M + "write"], post=write_post, diff=False,
    use={M + "encode": Contract("stub", dict(self=None, attachment=None, parameters=None, definitions=None), None, [], spec=encode_any),
         "IMMA1.getParameters": named("parameters"), "IMMA1.getDefinitions": named("definitions")},
    loops={M + "write#0": LoopSpec(write_inv, havoc={"Result": lambda E, v, s: Written(s.now, [])}, varies=("Result",))})


class Feed(object):
    __ghost__ = True

    def __init__(self, lines):
        self.lines = list(lines)

    def __deepcopy__(self, memo):
        return self

    def readline(self):
        return self.lines.pop(0) if self.lines else ""


def read_run(W, a):
    fh = Feed(["line one", "line two"])
    seen = []
    real = W.IMMA1.IMMA.readstr
    try:
        W.IMMA1.IMMA.readstr = lambda self, line: seen.append((line, self)) or 1
        x = W.IMMA1.read(fh)
        y = W.IMMA1.IMMA()
        y.read(fh)
    finally:
        W.IMMA1.IMMA.readstr = real
    return [[l for l, o in seen], x is seen[0][1], y is seen[1][1], x.attachments, x.data, x is not y]


add("read: the next line, into the record returned", {}, read_run, ["IMMA1.read", M + "read", M + "__init__"],
    spec=lambda a: [["line one", "line two"], True, True, [], {}, True], samples=1, diff=False)


# ------------------------------------------------------------ simple records

SIMPLE = [("YR", 0, 4, None), ("MO", 4, 6, None), ("DY", 6, 8, None), ("HR", 8, 12, 0.01), ("LAT", 12, 17, 0.01),
          ("LON", 17, 23, 0.01), ("DS", 23, 24, None), ("VS", 24, 25, None), ("ID", 25, 34, "text"), ("AT", 34, 38, 0.1),
          ("SST", 38, 42, 0.1), ("DPT", 42, 46, 0.1), ("DCK", 46, 49, None), ("SID", 49, 52, None), ("PT", 52, 54, None),
          ("UID", 54, 60, "text")]


class Chars(Desc):
    """a field; concrete: digits, blanks and other things"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def sym(self, E, name):
        return Text(E.int("a." + name + ".lo"), E.int("a." + name + ".hi"))

    def rand(self, rng, pool):
        w = rng.randint(self.lo, self.hi)
        u = rng.random()
        if u < 0.2:
            return " " * w
        if u < 0.35:
            return "".join(rng.choice("0123456789 .-+*xE/") for _ in range(w))
        return str(rng.choice([0, 1, -1]) * rng.randint(0, 10 ** w - 1)).rjust(w)[:w]


def number(t, f):
    try:
        return f(t)
    except ValueError:
        return None


add("trint: the number the characters denote, or none", dict(t=Chars(0, 6)), lambda W, a: W.SimpleIMMA.trint(a.t), ["SimpleIMMA.trint"],
    post=lambda a, r: (And(a.t.isnum(), r == a.t.num()) if r is not None else Not(a.t.isnum())) if isinstance(a.t, Text) else
    eq(r, number(a.t, int)), diff=False)
add("trfloat: the number the characters denote in its units, or none", dict(t=Chars(0, 6), scale=Real(0.001, 10)),
    lambda W, a: W.SimpleIMMA.trfloat(a.t, a.scale), ["SimpleIMMA.trfloat"],
    post=lambda a, r: (And(a.t.isfloat(), r == a.t.fnum() * a.scale) if r is not None else Not(a.t.isfloat()))
    if isinstance(a.t, Text) else eq(r, number(a.t, lambda t: float(t) * a.scale)), diff=False)
add("the same in TestIMMA", dict(t=Chars(0, 6), scale=Real(0.001, 10)),
    lambda W, a: [W.TestIMMA.trint(a.t), W.TestIMMA.trfloat(a.t, a.scale)], ["TestIMMA.trint", "TestIMMA.trfloat"],
    post=lambda a, r: (And(And(a.t.isnum(), r[0] == a.t.num()) if r[0] is not None else Not(a.t.isnum()),
                           And(a.t.isfloat(), r[1] == a.t.fnum() * a.scale) if r[1] is not None else Not(a.t.isfloat())))
    if isinstance(a.t, Text) else eq(r, [number(a.t, int), number(a.t, lambda t: float(t) * a.scale)]), diff=False)


class Line(Desc):
    """a simple record; concrete: its fields"""

    def sym(self, E, name):
        n, raw = E.int("a." + name + ".n"), E.int("a." + name + ".raw")
        E.assume(And(n >= 0, raw >= n))
        return SymLine(n, raw)

    def rand(self, rng, pool):
        s = ""
        for p, lo, hi, scale in SIMPLE:
            s += "".join(rng.choice("ABC 019") for _ in range(hi - lo)) if scale == "text" else Chars(hi - lo, hi - lo).rand(rng, pool)
        return s[:rng.choice([60, 60, 60, 54, 46, 30])] + rng.choice(["", "\n", "more\n"])


class Taken(Ghostly):
    def __init__(self, t, scale=None):
        self.t, self.scale = t, scale


def simple_run(W, a):
    r = W.SimpleIMMA.IMMA()
    r.readstr(a.t)
    return r.data


def simple_post(a, r):
    t, ok = a.t, []
    if set(r) != set(p for p, lo, hi, s in SIMPLE):
        return [("the fields", False)]
    for p, lo, hi, s in SIMPLE:
        x = r[p]
        if not isinstance(t, SymLine):
            c = t.rstrip("\n")[lo:hi]
            ok.append((p, eq(x, c if s == "text" else number(c, int) if s is None else number(c, lambda y: float(y) * s))))
            continue
        y = x.t if isinstance(x, Taken) else x
        if not isinstance(y, Text) or y.bare:
            ok.append((p, False))
            continue
        kind = isinstance(x, Text) if s == "text" else isinstance(x, Taken) and x.scale == s
        ok.append((p, And(kind, y.lo == Min(lo, t.n), y.hi == Min(hi, t.n))))
    return [("%s has the value of its own characters" % p, c) for p, c in ok]


add("SimpleIMMA.readstr: every field from its own columns, in its units", dict(t=Line()), simple_run,
    ["SimpleIMMA.IMMA.readstr", "SimpleIMMA.IMMA.__init__"], post=simple_post, diff=False,
    use={"SimpleIMMA.trint": Contract("stub", dict(t=None), None, [], spec=lambda a: Taken(a.t)),
         "SimpleIMMA.trfloat": Contract("stub", dict(t=None, scale=None), None, [], spec=lambda a: Taken(a.t, a.scale))})


class Columns(Desc):
    def sym(self, E, name):
        return [E.real("a.%s.%d" % (name, i)) for i in range(12)]

    def rand(self, rng, pool):
        return [rng.choice([-32768.0, 0.0, round(rng.uniform(-90, 90), 2), float(rng.randint(1, 2020))]) for _ in range(12)]


def columns_run(W, a):
    from pyvc.facade import NumStr
    r = W.TestIMMA.IMMA()
    r.readstr(["SHIP", "UID"] + [NumStr(x) if isinstance(x, SNum) else "%r" % x for x in a.t[2:]])
    return r.data


def columns_post(a, r):
    v = a.t
    none = lambda x, y: y == -32768 if x is None else And(y != -32768, x == y)
    return [("names", r["ID"] == "SHIP" and r["UID"] == "UID" and r["DCK"] == 999 and len(r) == 10),
            ("place", And(r["LAT"] == v[2], r["LON"] == v[3])),
            ("date", And(*[r[k] == Trunc(v[i]) for k, i in (("YR", 4), ("MO", 5), ("DY", 6))])),
            ("hour", none(r["HR"], v[7])), ("temperature", none(r["SST"], v[11]))]


add("TestIMMA.readstr: every field from its own column", dict(t=Columns()), columns_run,
    ["TestIMMA.IMMA.readstr", "TestIMMA.IMMA.__init__"], post=columns_post, diff=False)
