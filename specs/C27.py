"""C27: the files and directories of a date.

A stub is any text; what replacing placeholders makes of it is known by the stub and the replacements (replacing by
digits makes no new placeholder). os.path.join is taken as given. Files are those of a ghost file system in the
solver, and of a scratch directory on the real code."""
import bz2
import os
import shutil
import tempfile
import types
import z3
from .common import *
from pyvc.contract import Contract
from pyvc.seqs import FnSeq
from pyvc.texts import Text, text
from pyvc.values import eq as same

CONTRACTS = Specs()
add = CONTRACTS.add
BF = "BackgroundField."
PLACE = ("YYYY", "MMMM", "DDDD")


def stub(spec, *names):
    return Contract("stub", dict.fromkeys(names), None, [], spec=spec)


# ------------------------------------------------------------- placeholders

class Stub(Text):
    """any text with placeholders"""

    def __init__(self, name, done=()):
        self.name, self.done = name, dict(done)
        Text.__init__(self, [("filled " + name + " " + " ".join(sorted(self.done)), [self.done[k] for k in sorted(self.done)])])

    def __concretize__(self, model):
        return "/d/YYYY-MMMM_DDDD.x/YYYY"

    def replace(self, old, new):
        if old not in PLACE or old in self.done:
            raise core.Unsupported("replacement of %r" % (old,))
        return Stub(self.name, dict(self.done, **{old: text(new)}))


class AStub(Desc):
    def __init__(self, *samples):
        self.samples = samples

    def sym(self, E, name):
        return Stub(name)

    def rand(self, rng, pool):
        if rng.random() < 0.5:
            return rng.choice(self.samples)
        return "".join(rng.choice(list(PLACE) + ["a", "_", "Y", "M", "DD", ".nc", "1"]) for _ in range(rng.randint(0, 7)))


YMD = dict(year=Int(1600, 9999, extra=(1850, 2000)), month=Int(1, 12, extra=(1, 10, 12)), day=Int(1, 31, extra=(1, 9, 10)))
DIRS = AStub("/a/YYYY/MMMM/", "x/YYYY/MMMM/DDDD", "", "YYYYMMMM")
FILES = AStub("YYYYMMMMDDDD.nc", "IMMA1_R3.0.0_YYYY-MMMM.gz", "plain.nc")


def dec(x, n):
    if core.is_sym(x):
        return Text([("dec 0%d" % n, x)])
    return str(x).zfill(n)


def filled(s, a):
    """s with the date put in, each placeholder from the left"""
    parts = {"YYYY": dec(a.year, 4), "MMMM": dec(a.month, 2), "DDDD": dec(a.day, 2)}
    if isinstance(s, Stub):
        return Stub(s.name, {k: text(v) for k, v in parts.items()})
    out, i = "", 0
    while i < len(s):
        k = s[i:i + 4]
        if k in parts:
            out, i = out + parts[k], i + 4
        else:
            out, i = out + s[i], i + 1
    return out


add("process_string: the date in the place of its placeholders", dict(YMD, s=FILES),
    lambda W, a: W.BackgroundField.process_string(a.s, a.year, a.month, a.day), [BF + "process_string"],
    spec=lambda a: filled(a.s, a), diff=False, samples=600)


def joined(a, b):
    if core.has_sym([a, b], 1):
        return Text([("join", [text(a), text(b)])])
    return os.path.join(a, b)


class System(object):
    """the parts of os that the solver knows about"""

    def __init__(self, **kw):
        self.path = types.SimpleNamespace(join=joined)
        self.__dict__.update(kw)


def with_os(W, fake, call):
    if not W.symbolic:
        return call()
    core.engine().memo["texts"] = True
    m = W.BackgroundField
    old = m.os, m.subprocess
    m.os, m.subprocess = fake, fake
    try:
        return call()
    finally:
        m.os, m.subprocess = old


add("make_filename: directory and file, both with the date", dict(YMD, d=DIRS, s=FILES),
    lambda W, a: with_os(W, System(), lambda: W.BackgroundField.make_filename(a.d, a.s, a.year, a.month, a.day)), [BF + "make_filename"],
    spec=lambda a: joined(filled(a.d, a), filled(a.s, a)),
    use={BF + "process_string": stub(lambda x: filled(x.instring, x), "instring", "year", "month", "day")}, diff=False, samples=600)


def release(a):
    d = text(a.d) if core.is_sym(a.d) else a.d
    y, m = (Text([("dec", a.year)]), dec(a.month, 2)) if core.is_sym(a.year) else (str(a.year), dec(a.month, 2))

    def name(r, sep):
        return d + r + y + sep + m + ".gz"
    if a.version == "2.5":
        if bool(And(a.year >= 2008, a.year <= 2014)):
            return name("/R2.5.2.", ".")
        return name("/ICOADS.2.5.1/R2.5.1.", ".")
    if a.version == "3.0":
        if bool(a.year <= 2014):
            return name("/ICOADS.3.0.0/IMMA1_R3.0.0_", "-")
        return name("/ICOADS.3.0.1/IMMA1_R3.0.1_", "-")
    return Raised("AssertionError")


add("icoads_filename: the release that covers the year", dict(d=Str("/icoads", "x"), year=Int(1600, 2100, extra=(2007, 2008, 2014, 2015)), month=YMD["month"],
                                                               version=Enum("2.5", "3.0", "2", "3.0.0")),
    lambda W, a: with_os(W, System(), lambda: W.BackgroundField.icoads_filename(a.d, a.year, a.month, a.version)), [BF + "icoads_filename"], spec=release, diff=False, samples=600)


# ------------------------------------------------------------- candidates

ABSENT, EMPTY, FULL = 0, 1, 2


class Candidates(Desc):
    """up to three candidates: whether there is a plain and a packed file of each, and one unpacked earlier"""

    def sym(self, E, name):
        n = E.choose(4)
        r = []
        for i in range(n):
            c = {}
            for k in ("plain", "packed", "scratch"):
                v = E.int("a.%s.%s%d" % (name, k, i))
                E.assume(And(v >= ABSENT, v <= FULL))
                c[k] = v
            r.append(c)
        return r

    def rand(self, rng, pool):
        p = rng.choice([(0.7, 0.1), (0.3, 0.3)])
        one = lambda: ABSENT if rng.random() < p[0] else EMPTY if rng.random() < p[1] else FULL
        return [dict(plain=one(), packed=one(), scratch=one()) for _ in range(rng.randint(0, 4))]


class Path(Text):
    """the file of candidate i: below its directory or in the scratch directory, packed or not"""

    def __init__(self, i, date, scratch=False, packed=False):
        self.at = (i, scratch, packed)
        self.date = date
        Text.__init__(self, [("file %d %s" % (i, scratch), list(date))] + ([".bz2"] if packed else []))

    def __add__(self, o):
        if o == ".bz2" and not self.at[2]:
            return Path(self.at[0], self.date, self.at[1], True)
        return Text.__add__(self, o)

    def __contains__(self, s):
        if s != ".bz2":
            raise core.Unsupported("search in a file name")
        return self.at[2]

    def endswith(self, s):
        return s in self


class Files(object):
    """a ghost file system holding the candidates' files"""

    def __init__(self, cs, date):
        self.cs, self.date, self.unpacked = cs, date, {}
        self.path = types.SimpleNamespace(join=joined, isfile=self.isfile, exists=self.isfile, getsize=self.size)
        self.environ = {"SCRATCH": "/scratch"}

    def state(self, p):
        if not isinstance(p, Path):
            raise core.Unsupported("a file of another name")
        if not bool(And(*[x == y for x, y in zip(p.date, self.date)])):
            raise core.Unsupported("a file of another date")
        i, scratch, packed = p.at
        if (i, scratch, packed) in self.unpacked:
            return FULL
        if scratch:
            return ABSENT if packed else self.cs[i]["scratch"]
        return self.cs[i]["packed" if packed else "plain"]

    def isfile(self, p):
        return self.state(p) != ABSENT

    def size(self, p):
        s = self.state(p)
        if bool(s == ABSENT):
            raise OSError("no such file")
        return Ite(s == EMPTY, 0, 10)

    def stat(self, p):
        return types.SimpleNamespace(st_size=self.size(p))

    def call(self, cmd, shell=False):
        p = cmd.p if isinstance(cmd, Text) else []
        if not (shell and len(p) in (4, 5) and p[0] == "bunzip2 -c " and p[-2] in (" > ", ".bz2 > ")):
            raise core.Unsupported("command %r" % (cmd,))
        src, dst = p[1], p[3]
        i, packed = int(src[0].split()[1]), p[2].startswith(".bz2")
        j = int(dst[0].split()[1])
        if src[0].endswith("True") or not dst[0].endswith("True") or not packed or p[2] not in (".bz2 > ",):
            raise core.Unsupported("command %r" % (cmd,))
        if not bool(And(*[x == y for q in (src, dst) for x, y in zip(q[1], self.date)])):
            raise core.Unsupported("a file of another date")
        if bool(self.cs[i]["packed"] == ABSENT):
            raise core.Unsupported("a packed file that is not there")
        self.unpacked[j, True, False] = i
        return 0


def stubs_of(n):
    return ["in%d/YYYY/MMMM/" % i for i in range(n)], ["f%d_YYYYMMMMDDDD.nc" % i for i in range(n)]


def path_stub(a):
    i = int(a.filenamestub[1:].split("_")[0])
    if a.dirstub == "/scratch":
        return Path(i, (a.year, a.month, a.day), True)
    if a.dirstub != "in%d/YYYY/MMMM/" % i:
        raise core.Unsupported("a file in another directory")
    return Path(i, (a.year, a.month, a.day))


def write(path, state, content):
    if state != ABSENT:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(b"" if state == EMPTY else content)


def choose(W, a, name):
    """what is chosen: (candidate, in scratch, contents of the file named afterwards), None, or the error"""
    dirs, files = stubs_of(len(a.c))
    day = getattr(a, "day", 1)
    if a.odd:
        files = files + ["f9_YYYY.nc"]
    extra = (a.year, a.month) + ((a.day,) if name == "get_background_filename" else ())
    if W.symbolic:
        fs = Files(a.c, (a.year, a.month, day))
        r = with_os(W, fs, lambda: getattr(W.BackgroundField, name)(dirs, files, *extra))
        if r is None:
            return None
        if not isinstance(r, Path):
            raise core.Unsupported("a name made differently")
        i, scratch, packed = r.at
        if r.at in fs.unpacked:
            return [i, scratch, packed, "packed %d" % fs.unpacked[r.at]]
        if scratch:
            return [i, scratch, packed, Ite(fs.state(r) == EMPTY, -1, -2)]
        return [i, scratch, packed, "packed %d" % i if packed else "plain %d" % i]
    top = tempfile.mkdtemp()
    old = os.environ.get("SCRATCH")
    try:
        scratch = os.path.join(top, "scratch")
        os.mkdir(scratch)
        os.environ["SCRATCH"] = scratch
        names = {}
        if None not in extra:
            for i, c in enumerate(a.c):
                n = "f%d_%s%s%s.nc" % (i, dec(a.year, 4), dec(a.month, 2), dec(day, 2))
                p = os.path.join(top, "in%d" % i, dec(a.year, 4), dec(a.month, 2), n)
                write(p, c["plain"], b"plain %d" % i)
                write(p + ".bz2", c["packed"], bz2.compress(b"packed %d" % i))
                write(os.path.join(scratch, n), c["scratch"], b"earlier")
                names.update({p: [i, False, False], p + ".bz2": [i, False, True], os.path.join(scratch, n): [i, True, False]})
        r = getattr(W.BackgroundField, name)([os.path.join(top, d) for d in dirs], files, *extra)
        if r is None:
            return None
        with open(r, "rb") as f:
            text_ = f.read()
        text_ = {b"": -1, b"earlier": -2}.get(text_) or text_.decode("latin-1")
        return names.get(r, [r]) + [text_]
    finally:
        if old is None:
            del os.environ["SCRATCH"]
        else:
            os.environ["SCRATCH"] = old
        shutil.rmtree(top)


def no_date(a, names):
    return any(getattr(a, n) is None for n in names)


def first_plain(a):
    if no_date(a, ("year", "month")):
        return None
    if a.odd:
        return Raised("AssertionError")
    for i, c in enumerate(a.c):
        if bool(c["plain"] != ABSENT):
            return [i, False, False, "plain %d" % i]
    return None


def first_background(a):
    if no_date(a, ("year", "month", "day")):
        return None
    if a.odd:
        return Raised("AssertionError")
    for i, c in enumerate(a.c):
        if bool(c["packed"] == FULL):
            if bool(c["scratch"] != ABSENT):
                return [i, True, False, Ite(c["scratch"] == EMPTY, -1, -2)]
            return [i, True, False, "packed %d" % i]
        if bool(c["plain"] == FULL):
            return [i, False, False, "plain %d" % i]
    return None


def full_only(a):
    """ICOADS files found are not empty (an empty one is chosen as well: its contents tell nothing)"""
    return And(*[c["plain"] != EMPTY for c in a.c])


MAYBE = {k: Opt(v, 0.04) for k, v in YMD.items()}
PATHS = {BF + "make_filename": stub(path_stub, "dirstub", "filenamestub", "year", "month", "day")}
add("icoads_filename_from_stub: the first candidate there is", dict(year=MAYBE["year"], month=MAYBE["month"], c=Candidates(), odd=Enum(False, False, False, True)),
    lambda W, a: choose(W, a, "icoads_filename_from_stub"), [BF + "icoads_filename_from_stub"], spec=first_plain, pre=full_only, use=PATHS,
    bounded="up to three candidates", diff=False, samples=200)
add("get_background_filename: the first candidate that holds something, unpacked", dict(MAYBE, c=Candidates(), odd=Enum(False, False, False, True)),
    lambda W, a: choose(W, a, "get_background_filename"), [BF + "get_background_filename"], spec=first_background, use=PATHS,
    bounded="up to three candidates", diff=False, samples=200)


# ---------------------------------------------- candidates, any number of them

class Stub_of(object):
    """the directory or file stub of candidate i"""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, kind, i):
        self.kind, self.i = kind, i


class APath(Path):
    def __init__(self, i, date, scratch=False, packed=False):
        self.at, self.date = (i, scratch, packed), date
        Text.__init__(self, [("file", [i, 1 if scratch else 0] + list(date))] + ([".bz2"] if packed else []))

    def __add__(self, o):
        if o == ".bz2" and not self.at[2]:
            return APath(self.at[0], self.date, self.at[1], True)
        return Text.__add__(self, o)


class AnyCandidates(object):
    __ghost__ = True

    def __init__(self, n, **of):
        self.n = n
        self.__dict__.update(of)

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        n = concretize(self.n, model)
        if n > 30:
            raise ValueError("many candidates")
        return [{k: min(FULL, max(ABSENT, concretize(self.fs(k, i), model))) for k in ("plain", "packed", "scratch")} for i in range(n)]


class Many(Desc):
    """any number of candidates: whether there is a plain and a packed file of each, and one unpacked earlier"""

    def sym(self, E, name):
        n = E.int("a.n")
        E.assume(n >= 0)
        fs = {k: z3.Function(E.name(k), z3.IntSort(), z3.IntSort()) for k in ("plain", "packed", "scratch")}

        def at(k):
            def f(i):
                v = core.mk(fs[k](core.lift(i)[0]), "i")
                E.assume(And(v >= ABSENT, v <= FULL))
                return v
            return f
        return AnyCandidates(n, fs=lambda k, i: core.mk(fs[k](z3.IntVal(i)), "i"), **{k: at(k) for k in fs})

    def rand(self, rng, pool):
        return [c for _ in range(rng.choice([1, 1, 2])) for c in Candidates().rand(rng, pool)]


class AnyFiles(Files):
    def state(self, p):
        if not isinstance(p, APath) or not bool(And(*[x == y for x, y in zip(p.date, self.date)])):
            raise core.Unsupported("a file of another name")
        i, scratch, packed = p.at
        if scratch:
            return ABSENT if packed else self.cs.scratch(i)
        return self.cs.packed(i) if packed else self.cs.plain(i)

    def call(self, cmd, shell=False):
        p = cmd.p if isinstance(cmd, Text) else []
        if not (shell and len(p) == 4 and p[0] == "bunzip2 -c " and p[2] == ".bz2 > " and not self.unpacked):
            raise core.Unsupported("command %r" % (cmd,))
        (i, plain), (j, scratch) = p[1][1][:2], p[3][1][:2]
        if plain or not scratch or not bool(And(*[x == y for q in (p[1][1][2:], p[3][1][2:]) for x, y in zip(q, self.date)])) \
                or bool(self.cs.packed(i) == ABSENT):
            raise core.Unsupported("command %r" % (cmd,))
        self.unpacked["of"], self.unpacked["to"] = i, j
        return 0


class Grown(FnSeq):
    """a list of which the first n are f(0) ... f(n-1)"""

    def __init__(self, n, f):
        FnSeq.__init__(self, n, f)
        self.more = []

    def __deepcopy__(self, memo):
        return self

    def append(self, x):
        self.more.append(x)

    def of(self, i, f):
        """this is the list of f(0) ... f(i-1)"""
        for j, x in enumerate(self.more):
            y = f(self.n + j)
            if not (isinstance(x, APath) and x.at[1:] == y.at[1:] and bool(x.date == y.date)):
                raise core.Unsupported("a name made differently")
        return And(self.n + len(self.more) == i, *[x.at[0] == self.n + j for j, x in enumerate(self.more)])


def same_date(x, date):
    return bool(And(*[p == q for p, q in zip(x, date)]))


def path_any(x):
    d, f, date = x.dirstub, x.filenamestub, (x.year, x.month, x.day)
    if not isinstance(f, Stub_of) or f.kind != "file":
        raise core.Unsupported("a name made differently")
    if d == "/scratch":
        return APath(f.i, date, True)
    if not isinstance(d, Stub_of) or d.kind != "dir" or not bool(d.i == f.i):
        raise core.Unsupported("a file in another directory")
    return APath(f.i, date)


def choose_any(W, a, name):
    if isinstance(a.c, list):
        return choose(W, NS(odd=False, **a.__dict__), name)
    extra = (a.year, a.month) + ((a.day,) if name == "get_background_filename" else ())
    fs = AnyFiles(a.c, (a.year, a.month, getattr(a, "day", 1)))
    core.engine().memo["date"] = fs.date
    dirs, files = (FnSeq(a.c.n, lambda i, k=k: Stub_of(k, i)) for k in ("dir", "file"))
    r = with_os(W, fs, lambda: getattr(W.BackgroundField, name)(dirs, files, *extra))
    if r is not None and not isinstance(r, APath):
        raise core.Unsupported("a name made differently")
    return [r, fs]


def holds_plain(c, i):
    return c.plain(i) != ABSENT


def holds_any(c, i):
    return Or(c.plain(i) == FULL, c.packed(i) == FULL)


def any_post(holds, names, concrete):
    def post(a, r):
        if isinstance(a.c, list):
            return eq(r, concrete(NS(odd=False, **a.__dict__)))
        r, fs = r
        c, g = a.c, a.g
        if no_date(a, names):
            return [("none without a date", r is None)]
        if r is None:
            return [("none only if there is no candidate", Implies(And(g >= 0, g < c.n), Not(holds(c, g))))]
        i, scratch, packed = r.at
        out = [("one of the candidates", And(i >= 0, i < c.n, holds(c, i))), ("the first there is", Implies(And(g >= 0, g < i), Not(holds(c, g)))),
               ("of the date", same_date(r.date, fs.date)), ("not a packed file", not packed)]
        if holds is holds_plain:
            return out + [("where it was found", not scratch)]
        if bool(c.packed(i) == FULL):
            out.append(("a packed one is read from the scratch directory", scratch))
            done = bool(c.scratch(i) != ABSENT)
            out.append(("unpacked unless that was done before", not fs.unpacked if done else And(fs.unpacked.get("of", -1) == i, fs.unpacked.get("to", -1) == i)))
        else:
            out.append(("a plain one is read in place", And(not scratch, not fs.unpacked)))
        return out
    return post


def grown(names):
    """a loop that fills the lists names {local: in scratch}"""
    def f(name):
        return lambda i: APath(i, core.engine().memo["date"], names[name])

    def inv(v, s):
        out = []
        for n in names:
            x = getattr(v, n)
            out.append((n + " so far", And(s.i == 0, len(x) == 0) if isinstance(x, list) else x.of(s.i, f(n))))
        return out
    return LoopSpec(inv=inv, havoc={n: (lambda E, v, s, n=n: Grown(s.now, f(n))) for n in names})


def chosen(holds, orig, new=None):
    """a loop that looks for the first candidate there is"""
    def pick(E, v, s):
        if not hasattr(s, "picked"):
            k, c = E.int("chosen"), E.args.c
            if E.branch(z3.Bool("none so far")):
                s.picked = None, None
            else:
                d = E.memo["date"]
                E.assume(And(k >= 0, k < s.now))
                packed = new is not None and bool(c.packed(k) == FULL)
                s.picked = APath(k, d, False, packed), APath(k, d, True)
        return s.picked

    def inv(v, s):
        E = core.engine()
        c, g, x = E.args.c, E.args.g, getattr(v, orig)
        before = lambda k: Implies(And(g >= 0, g < k), Not(holds(c, g)))
        if x is None:
            return [("none so far", before(s.i))] + ([("nor one to unpack", getattr(v, new) is None)] if new else [])
        if not isinstance(x, APath):
            raise core.Unsupported("a name made differently")
        k, scratch, packed = x.at
        out = [("the first so far", And(k >= 0, k < s.i, holds(c, k), before(k))), ("a candidate of the date", And(not scratch, same_date(x.date, E.memo["date"])))]
        if new:
            y = getattr(v, new)
            if not isinstance(y, APath):
                raise core.Unsupported("a name made differently")
            out += [("packed when there is one packed", (c.packed(k) == FULL) == packed),
                    ("its name in the scratch directory", And(y.at[0] == k, y.at[1], not y.at[2], same_date(y.date, E.memo["date"])))]
        else:
            out.append(("plain", not packed))
        return out
    hv = {orig: lambda E, v, s: pick(E, v, s)[0]}
    if new:
        hv[new] = lambda E, v, s: pick(E, v, s)[1]
    return LoopSpec(inv=inv, havoc=hv, varies=tuple(hv))


ANYPATHS = {BF + "make_filename": stub(path_any, "dirstub", "filenamestub", "year", "month", "day")}
S, G = BF + "icoads_filename_from_stub", BF + "get_background_filename"
add("icoads_filename_from_stub of any number of candidates", dict(year=MAYBE["year"], month=MAYBE["month"], c=Many(), g=Int(0, None)),
    lambda W, a: choose_any(W, a, "icoads_filename_from_stub"), [S], post=any_post(holds_plain, ("year", "month"), first_plain),
    pre=lambda a: full_only(a) if isinstance(a.c, list) else True, use=ANYPATHS, diff=False, samples=100,
    loops={S + "#0": grown({"candidatefilenames": False}), S + "#1": chosen(holds_plain, "outfilename")})
add("get_background_filename of any number of candidates", dict(MAYBE, c=Many(), g=Int(0, None)),
    lambda W, a: choose_any(W, a, "get_background_filename"), [G], post=any_post(holds_any, ("year", "month", "day"), first_background),
    use=ANYPATHS, diff=False, samples=100,
    loops={G + "#0": grown({"originalfilenames": False, "newfilenames": True}), G + "#1": chosen(holds_any, "chosen_orig", "chosen_new")})


# ------------------------------------------------------------ directories

class Dirs(object):
    """a ghost file system of directories: those below the first `there` of a chain exist"""

    def __init__(self, chain, there):
        self.chain, self.there, self.made = chain, there, []
        self.path = types.SimpleNamespace(join=joined, isdir=self.exists, exists=self.exists)

    def at(self, p):
        for i, q in enumerate(self.chain):
            if key(p) == key(q) and bool(same(text(p), text(q))):
                return i
        raise core.Unsupported("another directory")

    def exists(self, p):
        i = self.at(p)
        return i < self.there or i in self.made

    def mkdir(self, p, *mode):
        i = self.at(p)
        if self.exists(p):
            raise OSError("File exists")
        if i and not self.exists(self.chain[i - 1]):
            raise OSError("No such file or directory")
        self.made.append(i)

    def makedirs(self, p, *mode, **kw):
        i = self.at(p)
        if self.exists(p):
            if kw.get("exist_ok"):
                return
            raise OSError("File exists")
        for j in range(i + 1):
            if not self.exists(self.chain[j]):
                self.made.append(j)


def key(p):
    """the make-up of a text"""
    if isinstance(p, (list, tuple)):
        return tuple(key(x) for x in p)
    if isinstance(p, Text):
        return tuple(x if isinstance(x, str) else (x[0], key(x[1])) for x in p.p)
    return (p,) if isinstance(p, str) else type(p).__name__


def dirs_run(call, subdirs):
    """[path returned, below the base; whether it is a directory; whether what was there before still is]"""
    def run(W, a):
        subs = subdirs(a)
        if W.symbolic:
            chain, d = [], "/out"
            for s in subs:
                d = joined(d, s)
                chain.append(d)
            fs = Dirs(chain, min(a.there, len(chain)))
            r = with_os(W, fs, lambda: call(W, "/out", a))
            if r is None:
                return [None, True, True]
            return [fs.at(r), fs.exists(r), True]
        top = tempfile.mkdtemp()
        try:
            chain = [os.path.join(top, *subs[:i + 1]) for i in range(len(subs))]
            if a.there and chain:
                p = chain[min(a.there, len(chain)) - 1]
                os.makedirs(p)
                with open(os.path.join(p, "kept"), "w"):
                    pass
            r = call(W, top, a)
            kept = not (a.there and chain) or os.path.exists(os.path.join(p, "kept"))
            if r is None:
                return [None, True, kept]
            return [chain.index(r) if r in chain else r, os.path.isdir(r), kept]
        finally:
            shutil.rmtree(top)
    return run


def number(x, n=None):
    if core.is_sym(x):
        return Text([("dec" + (" 0%d" % n if n else ""), x)])
    return str(x).zfill(n or 0)


def dirs_spec(subdirs):
    return lambda a: [len(subdirs(a)) - 1 if subdirs(a) else None, True, True]


def year_month(a):
    return [number(a.year), number(a.month, 2)]


THERE = Enum(0, 1, 2, 3, 4)
for name, call, subs, params, quals, bound in (
        ("safe_make_dir_generic", lambda W, d, a: W.BackgroundField.safe_make_dir_generic(d, list(a.subs)), lambda a: list(a.subs),
         dict(subs=Enum((), ("a",), ("a", "b"), ("x", "y", "z"))), [BF + "safe_make_dir_generic", BF + "build_completions"], "up to three directories"),
        ("safe_make_dir", lambda W, d, a: W.BackgroundField.safe_make_dir(d, a.year, a.month), year_month,
         dict(year=YMD["year"], month=YMD["month"]), [BF + "safe_make_dir", BF + "safe_make_dir_generic", BF + "build_completions"], None),
        ("safe_make_tracking_dir", lambda W, d, a: W.tracking_qc.safe_make_tracking_dir(d, a.year, a.month), lambda a: ["TrackingQC"] + year_month(a),
         dict(year=YMD["year"], month=YMD["month"]), ["tracking_qc.safe_make_tracking_dir"], None),
        ("safe_make_edge_dir", lambda W, d, a: W.tracking_qc.safe_make_edge_dir(d, a.year, a.month, a.edge, a.run),
         lambda a: ["TrackingQC"] + year_month(a) + [a.edge + "_" + a.run],
         dict(year=YMD["year"], month=YMD["month"], edge=Enum("start_edge_case", "end_edge_case"), run=Enum("198501-201512")), ["tracking_qc.safe_make_edge_dir"], None)):
    add(name + ": the directory is there afterwards", dict(params, there=THERE), dirs_run(call, subs), quals, spec=dirs_spec(subs), bounded=bound, diff=False, samples=60)
