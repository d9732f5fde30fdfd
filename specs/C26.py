"""C26: the files written hold each report once, in order, every value and flag under its heading."""
import os
import shutil
import tempfile
import z3
from .C16 import count, stub, at, unknown
from .report import *
from .common import *
from .fields import RecordOf
from pyvc.core import SNum, SStr
from pyvc.seqs import FnSeq, Ghost, ghost, glen
from pyvc.texts import Text, text
from pyvc.facade import LoopSpec

CONTRACTS = Specs()
add = CONTRACTS.add
M, D, V = "Extended_IMMA.MarineReport.", "Extended_IMMA.Deck.", "Extended_IMMA.Voyage."
I, B = z3.IntSort(), z3.BoolSort()
simp = lambda x: z3.simplify(core.lift(x)[0])

# what the programs write: variables (with anomalies) and flags
MIN = [["ID"], ["YR"], ["MO"], ["DY"], ["HR"], ["LAT"], ["LON"], ["AT"], ["AT", "anom"], ["SST"], ["SST", "anom"], ["DPT"], ["DPT", "anom"]]
SLP = [["SLP"], ["SLP", "anom"]]
DECK = MIN + SLP + [["OSTIA"], ["W"], ["D"]]
SHIP = MIN + SLP + [["OSTIA"], ["ICE"], ["BGVAR"]]
TRACK1 = [["ID"], ["LON"], ["LAT"], ["YR"], ["MO"], ["DY"], ["HR"]]
TRACK2 = [["SST"], ["OSTIA"], ["BGVAR"], ["ICE"]]
POS8 = ["day", "isship", "trk", "date", "time", "pos", "blklst", "isbuoy"]
POS = POS8 + ["iquam_track"]
SST8 = ["bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep"]
SST = SST8 + ["spike", "hardlimit"]
AT8 = ["bud", "clim", "nonorm", "freez", "noval", "mat_blacklist", "bbud", "rep"]
DPT8 = ["bud", "clim", "nonorm", "freez", "noval", "hum_blacklist", "bbud", "rep", "ssat", "repsat", "round"]
DECKQC = {"POS": POS, "SST": SST, "AT": AT8 + ["hardlimit"], "DPT": DPT8 + ["hardlimit"],
          "SLP": ["bud", "clim", "nonorm", "noval", "rep"], "W": ["noval", "hardlimit", "consistency", "wind_blacklist"]}
MINQC = {"POS": POS8, "SST": SST8, "AT": AT8, "DPT": DPT8}
SHIPQC = {"POS": POS + ["isdrifter"], "SST": SST}
TRACKQC = [("POS", POS + ["isdrifter"]), ("SST", SST), ("POS", ["drf_agr", "drf_spd"]),
           ("SST", ["drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short"])]


# -------------------------------------------------------- what a line is to be

def commas(cells):
    """the cells, separated by commas, and the end of line"""
    out = Text([])
    for i, c in enumerate(cells):
        out = out + ("," if i else "") + c
    return out + "\n"


def var_heads(names, uid=True):
    return (["UID", "DATE", "PENTAD"] if uid else []) + ["_".join(v) for v in names]


def var_cells(row, names, uid=True):
    return ([row.uid(), row.date(), row.pentad()] if uid else []) + \
        [row.ident() if v == ["ID"] else row.anom(v[0]) if len(v) > 1 else row.value(v[0]) for v in names]


def qc_heads(names, uid=True):
    return (["UID"] if uid else []) + names


def qc_cells(row, block, names, uid=True):
    return ([row.uid()] if uid else []) + [row.flag(block, f) for f in names]


class Mark(object):
    """something a report answers, known by its name only"""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, *key):
        self.key = key

    def __deepcopy__(self, memo):
        return self


class Row(object):
    """report i of any: its texts, and its answers where they decide"""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, i=0):
        self.i = i

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        raise ValueError("a symbolic report")

    def f(self, name, sort=I):
        return z3.Function(name, I, sort)(simp(self.i))

    def uid(self):
        return Text([("uid", self.i)])

    def date(self):
        return Text([("iso", self.i)])

    def pentad(self):
        return Text([("pentad", self.i)])

    def name(self):
        """the identity, or nothing"""
        return None if bool(core.mkb(self.f("no ID", B))) else Text([("id", self.i)])

    def ident(self):
        n = self.name()
        return "\\N" if n is None else Text(['"', ("id", self.i), '"'])

    def value(self, v):
        return Text([("opt", ("var", v, self.i))])

    def anom(self, v):
        return Text([("opt", ("anom", v, self.i))])

    def flag(self, block, f):
        return Text([("dec", self.getflag(block, f))])

    def getflag(self, block, f):
        v = SNum(self.f("flag %s %s" % (block, f)), "i")
        core.engine().assume(And(v >= 0, v <= 9))
        return v

    # as the report itself, to code that writes it
    def getvar(self, v):
        return self.name() if v == "ID" else self.uid() if v == "UID" else SNum(self.f(v), "i") if v in ("YR", "MO") else Mark("var", v, self.i)

    def print_variable_block(self, varnames, header=False, printuid=True):
        return commas(var_heads(varnames, printuid)) if header else commas(var_cells(self, varnames, printuid))

    def print_qc_block(self, blockname, varnames, header=False, printuid=True):
        return commas(qc_heads(varnames, printuid)) if header else commas(qc_cells(self, blockname, varnames, printuid))


class Line(Row):
    """the report whose line is printed"""

    def pentad(self):
        return Text([("dec", SNum(self.f("pentad"), "i"))]) if bool(core.mkb(self.f("real date", B))) else "0"


# ------------------------------------------------------------ real reports

IDS = ("SHIP12345", "A/B*1", "62001    ", "*", "PL/AT")


class AReport(Desc):
    def __init__(self, ids=IDS, months=(1, 2, 12), years=(1999, 2000)):
        self.any = AnyReport(full=())
        self.ids, self.months, self.years = ids, months, years

    def sym(self, E, name):
        return Line()

    def rand(self, rng, pool):
        d = self.any.rand(rng, pool)
        d["UID"] = rng.choice(["U1", "ABC123", "0F9"])
        if rng.random() < 0.85:
            d["ID"] = rng.choice(self.ids)
        for x, vs in (("YR", self.years), ("MO", self.months)):
            if x in d and rng.random() < 0.9:
                d[x] = rng.choice(vs)
        ext = {x: rng.choice([None, 0.25, -1.5, 12.0]) for x in ("OSTIA", "ICE", "BGVAR") if rng.random() < 0.6}
        clim = {x: rng.choice([None, 0.0, 10.5, -3.25]) for x in ("AT", "SST", "DPT", "SLP") if rng.random() < 0.6}
        flags = {}
        for blk, fs in list(DECKQC.items()) + [("POS", SHIPQC["POS"])] + TRACKQC:
            for f in fs:
                if rng.random() < 0.6:
                    flags[blk + "/" + f] = rng.choice([0, 0, 1, 2, 9])
        return dict(rec=d, ext=ext, clim=clim, flags=flags)


class RealRow(object):
    """the same answers of a report, from what it was made of"""

    def __init__(self, x):
        self.x, self.r = x, x["rec"]

    def uid(self):
        return self.r["UID"]

    def date(self):
        y, m, d = [self.r.get(v) for v in ("YR", "MO", "DY")]
        if None in (y, m, d) or not validdate(y, m, d):
            return "0000-00-00"
        return "%04d-%02d-%02d" % (y, m, d)

    def pentad(self):
        m, d = self.r.get("MO"), self.r.get("DY")
        if None in (m, d) or d > [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]:
            return "0"
        doy = cum365(m) + min(d, 28) if (m, d) == (2, 29) else cum365(m) + d
        return str((doy - 1) // 5 + 1)

    def ident(self):
        return '"%s"' % self.r["ID"] if "ID" in self.r else "\\N"

    def number(self, v):
        x = self.r.get(v, self.x["ext"].get(v))
        return x if v in INTS or x is None else float(x)

    def value(self, v):
        x = self.number(v)
        return "\\N" if x is None else str(x)

    def anom(self, v):
        x, c = self.number(v), self.x["clim"].get(v)
        return "\\N" if x is None or c is None else str(x - c)

    def flag(self, block, f):
        return str(self.x["flags"].get(block + "/" + f, 9))


def row(x):
    return x if isinstance(x, Row) else RealRow(x)


def made(W, x):
    r = W.Extended_IMMA.MarineReportQC(RecordOf(dict(x["rec"])))
    for k in x["ext"]:
        r.setext(k, x["ext"][k])
    for k in x["clim"]:
        r.add_climate_variable(k, x["clim"][k])
    for k in x["flags"]:
        r.set_qc(*k.split("/"), x["flags"][k])
    return r


def the_report(W, x):
    if isinstance(x, Row):
        return W.Extended_IMMA.MarineReport.__new__(W.Extended_IMMA.MarineReport)
    return made(W, x)


# ------------------------------------------------------------- one line

def texts_on(E):
    E.memo["texts"] = True
    return E


class Lists(Desc):
    """lists of variables: those the programs write, one by one"""

    def __init__(self, lists, make):
        self.lists, self.make = lists, make

    def sym(self, E, name):
        return self.lists[E.choose(len(self.lists))]

    def rand(self, rng, pool):
        return rng.choice(self.lists) if rng.random() < 0.5 else self.make(rng)


def some_vars(rng):
    pool = [["ID"], ["LAT"], ["HR"], ["PT"], ["SST"], ["AT", "anom"], ["SST", "anom"], ["OSTIA"], ["D"], ["nothing"]]
    return [rng.choice(pool) for _ in range(rng.randint(1, 6))]


def some_flags(rng):
    return [rng.choice(SST + POS) for _ in range(rng.randint(1, 6))]


def marks(a):
    row = core.engine().args.r
    return row.name() if a.v == "ID" else row.uid() if a.v == "UID" else Mark("var", a.v, row.i)


def date_of(a):
    r = core.engine().args.r
    if [x.key[:2] for x in (a.y, a.m, a.d)] != [("var", v) for v in ("YR", "MO", "DY")]:
        raise core.Unsupported("the date of something else")
    return r.date()


def pentad_of(a):
    r = core.engine().args.r
    if [x.key[:2] for x in (a.m, a.d)] != [("var", v) for v in ("MO", "DY")]:
        raise core.Unsupported("the pentad of something else")
    return SNum(r.f("pentad"), "i") if bool(core.mkb(r.f("real date", B))) else Raised("AssertionError")


LINE_USE = {M + "getvar": stub(marks, "self", "v"), M + "getanom": stub(lambda a: Mark("anom", a.v, 0), "self", "v"),
            "Extended_IMMA.tostring": stub(lambda a: "\\N" if a.x is None else Text([("opt", a.x.key)]), "x"),
            "Extended_IMMA.datestring": stub(date_of, "y", "m", "d"), "qc.which_pentad": stub(pentad_of, "m", "d"),
            M + "get_qc": stub(lambda a: core.engine().args.r.getflag(a.b, a.f), "self", "b", "f")}


def on_texts(run):
    def f(W, a):
        if W.symbolic and core.engine() is not None:
            core.engine().memo["texts"] = True
        return run(W, a)
    return f


def var_spec(a):
    r = row(a.r)
    return commas(var_heads(a.names, a.uid) if a.header else var_cells(r, a.names, a.uid)) if isinstance(a.r, Row) else \
        ",".join(var_heads(a.names, a.uid) if a.header else var_cells(r, a.names, a.uid)) + "\n"


def qc_spec(a):
    r = row(a.r)
    cells = qc_heads(a.names, a.uid) if a.header else qc_cells(r, a.block, a.names, a.uid)
    return commas(cells) if isinstance(a.r, Row) else ",".join(cells) + "\n"


add("print_variable_block: each value under its heading", dict(r=AReport(), names=Lists([MIN, DECK, SHIP, TRACK1, TRACK2], some_vars),
    header=Enum(False, True), uid=Enum(True, False)),
    on_texts(lambda W, a: the_report(W, a.r).print_variable_block([list(v) for v in a.names], header=a.header, printuid=a.uid)),
    [M + "print_variable_block"], spec=var_spec, use={k: LINE_USE[k] for k in LINE_USE if "get_qc" not in k}, samples=400)

add("print_variable_block: defaults", dict(r=AReport(), names=Enum(TRACK1, SHIP)),
    on_texts(lambda W, a: the_report(W, a.r).print_variable_block([list(v) for v in a.names])),
    [M + "print_variable_block"], spec=lambda a: var_spec(NS(r=a.r, names=a.names, header=False, uid=True)),
    use={k: LINE_USE[k] for k in LINE_USE if "get_qc" not in k}, samples=100)

QCLISTS = [POS, SST, DECKQC["AT"], DECKQC["DPT"], DECKQC["SLP"], DECKQC["W"], POS8, SST8, AT8, DPT8] + [x for _, x in TRACKQC]
add("print_qc_block: each flag under its heading", dict(r=AReport(), block=Enum("POS", "SST", "AT", "DPT", "SLP", "W"), names=Lists(QCLISTS, some_flags),
    header=Enum(False, True), uid=Enum(True, False)),
    on_texts(lambda W, a: the_report(W, a.r).print_qc_block(a.block, list(a.names), header=a.header, printuid=a.uid)),
    [M + "print_qc_block"], spec=qc_spec, use={k: LINE_USE[k] for k in LINE_USE if "get_qc" in k or "getvar" in k}, samples=400)

add("print_qc_block: defaults", dict(r=AReport(), names=Enum(POS, SST)),
    on_texts(lambda W, a: the_report(W, a.r).print_qc_block("SST", list(a.names))),
    [M + "print_qc_block"], spec=lambda a: qc_spec(NS(r=a.r, block="SST", names=a.names, header=False, uid=True)),
    use={k: LINE_USE[k] for k in LINE_USE if "get_qc" in k or "getvar" in k}, samples=100)


def tostring_spec(a):
    if core.is_sym(a.x):
        return Text([("dec" if a.x.k == "i" else "str", a.x)])
    return "\\N" if a.x is None else str(a.x)


add("tostring: the value, or \\N for none", dict(x=Opt(OneOf(Real(), Int(-10 ** 6, 10 ** 6)))), on_texts(lambda W, a: W.Extended_IMMA.tostring(a.x)),
    ["Extended_IMMA.tostring"], spec=tostring_spec)


def date_spec(a):
    if None in (a.y, a.m, a.d):
        return "0000-00-00"
    if not bool(And(a.y >= 1000, a.y <= 9999, validdate(a.y, a.m, a.d))):
        return "0000-00-00"
    if core.has_sym([a.y, a.m, a.d]):
        return Text([("dec 04", a.y), "-", ("dec 02", a.m), "-", ("dec 02", a.d)])
    return "%04d-%02d-%02d" % (a.y, a.m, a.d)


add("datestring: the ISO date, or zeros for none", dict(y=Opt(Int(1000, 12000)), m=Opt(Int(-2, 20)), d=Opt(Int(-2, 40))),
    on_texts(lambda W, a: W.Extended_IMMA.datestring(a.y, a.m, a.d)), ["Extended_IMMA.datestring"], spec=date_spec, samples=600)


# ------------------------------------------------------- file names

class Chars(Desc):
    """a string, of which one character is looked at"""

    def sym(self, E, name):
        return OneChar(E.int("a." + name + ".char"))

    def rand(self, rng, pool):
        return "".join(rng.choice("AB/*1 _-") for _ in range(rng.randint(0, 9)))


class OneChar(object):
    """a string by its character at an arbitrary place: str.replace of one character by one works on each alone"""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, c):
        self.c = c

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        from pyvc.values import concretize
        return chr(min(max(int(concretize(self.c, model)), 32), 126))

    def replace(self, old, new):
        if len(old) != 1 or len(new) != 1:
            raise core.Unsupported("replacement of lengths other than one")
        return OneChar(Ite(self.c == ord(old), ord(new), self.c))


def safe_post(a, r):
    if isinstance(a.x, OneChar):
        return [("the character", r.c == Ite(Or(a.x.c == ord("/"), a.x.c == ord("*")), ord("_"), a.x.c))]
    return r == "".join("_" if c in "/*" else c for c in a.x)


add("safe_filename: / and * become _, the rest stays", dict(x=Chars()), lambda W, a: W.Extended_IMMA.safe_filename(a.x),
    ["Extended_IMMA.safe_filename"], post=safe_post, diff=False)


# ------------------------------------------------------------- the files

class Rows(Desc):
    """a deck or voyage of any number of reports, one at least, the first of a known platform"""

    def __init__(self, one=False):
        self.one = one

    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n >= 1)
        return SymRows(E, n)

    def rand(self, rng, pool):
        ident = rng.choice(IDS)
        xs = [AReport().rand(rng, pool) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        for i, x in enumerate(xs):
            x["rec"]["UID"] = "U%d" % i
            if self.one or i == 0:
                x["rec"]["ID"] = ident
        return xs


class SymRows(object):
    __ghost__ = True

    def __init__(self, E, n):
        self.n, self.k = n, E.int("a.k")
        E.assume(And(self.k >= 0, self.k < n, Not(core.mkb(Row(0).f("no ID", B)))))

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        raise ValueError("symbolic reports")


class Words(Desc):
    """a directory or the name of a run"""

    def __init__(self, *words):
        self.words = words

    def sym(self, E, name):
        return Text([(name, 0)])

    def rand(self, rng, pool):
        return rng.choice(self.words)


class File(object):
    """a file being written: its first line, and the rest with regard to the line at one place"""

    def __init__(self, name, mode):
        self.name, self.mode, self.lines, self.closed = name, mode, [], False

    def write(self, line):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.lines.append(line)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def selected(a):
    return count("of the month", lambda i: And(SNum(Row(i).f("YR"), "i") == a.year, SNum(Row(i).f("MO"), "i") == a.month))


def line_at(xs, p, want):
    """whether the line at place p is as wanted"""
    g, new = ghost(xs)
    n = g.n if g is not None else 0
    ok = And(g.ok, p < n) if g is not None else False
    for j, x in enumerate(new):
        here = n + j == p
        if here is False:
            continue
        # compared where this is the place
        if bool(here):
            return And(p >= 0, x == want)
    return And(p >= 0, ok)


def file_ok(a, f, i, heads, cells, every=False):
    """what file f holds after i reports, with regard to report k"""
    sr = a.r
    c = (lambda j: j) if every else selected(a)
    k = sr.k
    c(k)
    n = c(i)
    body = f.lines[1:]
    sel = True if every else And(SNum(Row(k).f("YR"), "i") == a.year, SNum(Row(k).f("MO"), "i") == a.month)
    if bool(And(k < i, sel)):
        there = line_at(body, c(k), commas(cells(Row(k))))
    else:
        there = True
    return [("the headings come first", f.lines[0] == commas(heads)), ("as many lines as reports", glen(body) == n),
            ("the report's line is in its place", there)]


def files():
    return core.engine().memo["files"]


def loop(cells_of, every=False):
    """cells_of(a, file number): (headings, cells of a row)"""
    def inv(v, s):
        a = core.engine().args
        f = files()[-1]
        if f.closed:
            raise core.Unsupported("the reports of a closed file")
        heads, cells = cells_of(a, len(files()) - 1)
        return file_ok(a, f, s.i, heads, cells, every)

    def havoc(E, v, s):
        f = files()[-1]
        n = E.int("lines")
        E.assume(n >= 0)
        f.lines[1:] = [Ghost(n, None, ok=E.bool("in its place"))]
    return LoopSpec(inv, {"_ghost": havoc, "rep": lambda E, v, s: None, "outfile": lambda E, v, s: v.outfile},
                    changes=("outfile",))


def pad2(m):
    return Text([("dec 02", m)]) if core.is_sym(m) else "%02d" % m


def dec(y):
    return Text([("dec", y)]) if core.is_sym(y) else str(y)


def safe(x):
    return "".join("_" if c in "/*" else c for c in x) if isinstance(x, str) else Text([("safe", 0)])


def safe_stub(a):
    if not (isinstance(a.x, Text) and len(a.x.p) == 1 and a.x.p[0][0] == "id"):
        raise core.Unsupported("the safe name of something else")
    return Text([("safe", a.x.p[0][1])])


def wanted(a, ident, plan):
    """[(file name, headings, cells)] of the plan: (kind, names) or (kind, block, flags) ..."""
    out = []
    for what, heads, cells in plan:
        name = (("Test_" if a.test else "") if hasattr(a, "test") else "") + what + dec(a.year) + pad2(a.month) + "_"
        if ident is not None:
            name = name + safe(ident) + "_"
        out.append((a.dir + "/" + (name + a.run + ".csv"), heads, cells))
    return out


def plan_of(names, qc):
    out = []
    if names is not None:
        out.append(("Variables_", var_heads(names), lambda r: var_cells(r, names)))
    for blk in qc:
        out.append((blk + "_qc_", qc_heads(qc[blk]), lambda r, b=blk: qc_cells(r, b, qc[b])))
    return out


TRACKPLAN = [("Tracking_", var_heads(TRACK1) + [f for _, fs in TRACKQC for f in fs] + var_heads(TRACK2, False),
              lambda r: var_cells(r, TRACK1) + [c for blk, fs in TRACKQC for c in qc_cells(r, blk, fs, False)] + var_cells(r, TRACK2, False))]


def writer(cls, method, plan, every=False, extra=lambda a: ()):
    def run(W, a):
        ex = W.Extended_IMMA
        d = getattr(ex, cls).__new__(getattr(ex, cls))
        if isinstance(a.r, SymRows):
            E = core.engine()
            E.memo["texts"] = True
            fs = E.memo["files"] = []

            def opened(name, mode="r"):
                fs.append(File(name, mode))
                return fs[-1]
            E.memo["open"] = opened
            d.reps = FnSeq(a.r.n, Row)
            kw = {"test": a.test} if hasattr(a, "test") else {}
            getattr(d, method)(a.run, a.dir, a.year, a.month, *extra(a), **kw)
            return fs
        d.reps = [made(W, x) for x in a.r]
        tmp = tempfile.mkdtemp()
        try:
            kw = {"test": a.test} if hasattr(a, "test") else {}
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                getattr(d, method)(a.run, tmp, a.year, a.month, *extra(a), **kw)
            out = {}
            for f in os.listdir(tmp):
                with open(os.path.join(tmp, f), newline="") as g:
                    out[f] = g.read()
            return out
        finally:
            shutil.rmtree(tmp)

    def post(a, r):
        ident = None if cls == "Deck" else a.r[0]["rec"]["ID"] if not isinstance(a.r, SymRows) else Text([("id", 0)])
        if isinstance(a.r, SymRows):
            want = wanted(a, ident, plan)
            out = [("number of files", len(r) == len(want))]
            for f, (name, heads, cells) in zip(r, want):
                out += [("name of the file", f.name == name), ("a new file", f.mode == "w"), ("closed", f.closed)]
                out += file_ok(a, f, a.r.n, heads, cells, every)
            return out
        b_ = NS(**dict(a.__dict__, dir=""))
        out = [("the files", sorted(r) == sorted(name[1:] for name, _, _ in wanted(b_, ident, plan)))]
        mine = [x for x in a.r if every or (x["rec"].get("YR") == a.year and x["rec"].get("MO") == a.month)]
        for name, heads, cells in wanted(b_, ident, plan):
            out.append(("contents of " + name, r.get(name[1:]) == "".join(",".join(c) + "\n" for c in [heads] + [cells(RealRow(x)) for x in mine])))
        return out

    nth = {}
    site = ("write_qc" if method != "write_tracking_output" else method)
    cells_of = lambda a, i: plan[i][1:]
    loops = {}
    if method == "write_qc":
        loops["Extended_IMMA.%s.write_qc#1" % cls] = loop(cells_of, every)
    else:
        loops["Extended_IMMA.%s.%s#0" % (cls, method)] = loop(cells_of, every)
        loops["Extended_IMMA.%s.write_qc#1" % cls] = loop(cells_of, every)
    params = dict(r=Rows(one=cls == "Voyage"), run=Words("test", "R2.5", "run_1"), dir=Words("/data"), year=Int(1999, 2000), month=Int(1, 12))
    if cls == "Deck" and method != "write_tracking_output":
        params["test"] = Enum(False, True)
    add("%s.%s: every report of the month once, in order, under the headings" % (cls, method) if not every else
        "%s.%s: every report once, in order, under the headings" % (cls, method), params, run,
        ["Extended_IMMA.%s.%s" % (cls, m) for m in ({method, "write_qc"} if not every else {method})], post=post, diff=False, samples=60, loops=loops,
        use={"Extended_IMMA.safe_filename": stub(safe_stub, "x")})


writer("Deck", "write_output", plan_of(DECK, DECKQC))
writer("Deck", "write_min_output", plan_of(MIN, MINQC))
HIRES = {"SST": ["bbud", "clim", "noval"], "POS": POS8}
writer("Deck", "write_qc", plan_of(None, HIRES), extra=lambda a: (HIRES,))
writer("Voyage", "write_output", plan_of(SHIP, SHIPQC))
writer("Voyage", "write_qc", plan_of(None, HIRES), extra=lambda a: (HIRES,))
writer("Voyage", "write_tracking_output", TRACKPLAN, every=True)
