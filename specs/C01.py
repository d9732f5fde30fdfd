"""C01: the flag store of a report, and its normals."""
import z3
from .report import *

CONTRACTS = Specs()
add = CONTRACTS.add
MR = "Extended_IMMA.MarineReport."
CV = "Extended_IMMA.ClimVariable."
TYPES = ["POS", "SST", "AT", "DAT", "DPT", "SLP", "W", "D"] + [n for n in NAMES if n not in ("SST", "AT", "DPT", "SLP", "W", "D")]


def parts(key):
    """the z3 strings a key is made of"""
    if isinstance(key, tuple):
        return [core.SStr._l(x) for x in key]
    return [core.SStr._l(key)]


class Store(object):
    """A dictionary of any content: what it held before is a function of the key."""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, name, value):
        self.name, self.value, self.puts = name, value, []

    def __deepcopy__(self, memo):
        return self

    def base(self, key):
        ps = parts(key)
        if any(p is None for p in ps):
            raise core.Unsupported("a key that is not made of strings")
        return z3.Function("%s/%d" % (self.name, len(ps)), *([z3.StringSort()] * len(ps) + [z3.BoolSort()]))(*ps), ps

    def same(self, k, l):
        p, q = parts(k), parts(l)
        return And(*[x == y for x, y in zip(p, q)]) if len(p) == len(q) else False

    def __scontains__(self, key):
        r = core.mkb(self.base(key)[0])
        for k, v in self.puts:
            r = Or(r, self.same(k, key))
        return r

    def __contains__(self, key):
        return bool(self.__scontains__(key))

    def __getitem__(self, key):
        if all(core.is_num(v) for k, v in self.puts):
            if not bool(self.__scontains__(key)):
                raise KeyError(key)
            r = self.value(self.name, self.base(key)[1])
            if core.is_num(r):
                for k, v in self.puts:
                    r = Ite(self.same(k, key), v, r)
                return r
        for k, v in reversed(self.puts):
            if bool(self.same(k, key)):
                return v
        if not bool(core.mkb(self.base(key)[0])):
            raise KeyError(key)
        return self.value(self.name, self.base(key)[1])

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __setitem__(self, key, v):
        self.base(key)
        self.puts.append((key, v))


def flag0(name, ps):
    r = SNum_int(z3.Function("flag/%d" % len(ps), *([z3.StringSort()] * len(ps) + [z3.IntSort()]))(*ps))
    core.engine().assume(core.boolexpr(And(r >= 0, r <= 9)))
    return r


# A report of any history: in the solver, of any content of its flag store; on the real code, of the calls listed.

class History(Desc):
    def sym(self, E, name):
        return State(name + ".", only=())

    def rand(self, rng, pool):
        return [(rng.choice(TYPES), rng.choice(FLAGS), rng.randint(0, 9)) for _ in range(rng.choice([0, 1, 4, 20]))]


FLAGS = ["", "clim", "2clim", "bud", "noval", "I", "OS", "trk", "T2", "2"]
VARI, FLAG = Str(*(TYPES + ["XYZ", "ID", "AT2 "])), Str(*FLAGS)


def any_report(W, h):
    if isinstance(h, State):
        r = rep(W, h)
        r.qc = Store("qc", flag0)
        return r
    r = rep(W, dict(SST=5.0), ID="A")
    for t, f, x in h if isinstance(h, list) else []:
        r.set_qc(t, f, x)
    return r


def set_run(W, a):
    r = any_report(W, a.h)
    before = r.get_qc(a.t2, a.f2)
    old = [r.getvar("SST"), r.getnorm("SST"), r.getvar("dsi"), r.getvar("ID")]
    try:
        refused = False
        r.set_qc(a.t, a.f, a.x)
    except AssertionError:
        refused = True
    new = [r.getvar("SST"), r.getnorm("SST"), r.getvar("dsi"), r.getvar("ID")]
    return before, refused, r.get_qc(a.t2, a.f2), r.get_qc(a.t, a.f), new == old


def known(t):
    return Or(*[t == x for x in TYPES])


def set_post(a, r):
    before, refused, other, mine, same = r
    ok = And(known(a.t), a.x >= 0, a.x <= 9)
    hit = And(a.t == a.t2, a.f == a.f2)
    return [("refused unless a flag of 0-9 for a known variable", Not(ok) if refused else ok),
            ("the flag reads as written", True if refused else mine == a.x),
            ("other flags, and all of them if refused, stay", other == (before if refused else Ite(hit, a.x, before))),
            ("nothing else of the report changes", same)]


add("set_qc: the flag, and only it, takes the value", dict(h=History(), t=VARI, f=FLAG, x=Int(-3, 12), t2=VARI, f2=FLAG), set_run,
    [MR + "set_qc", MR + "get_qc"], post=set_post, samples=3000, diff=False, budget=150)


def fresh_run(W, a):
    r = rep(W, {} if not W.symbolic else State("o.", only=()))
    return r.get_qc(a.t, a.f)


add("a flag never set reads 9", dict(t=VARI, f=FLAG), fresh_run, [MR + "get_qc", MR + "__init__"], spec=lambda a: 9, diff=False)


def read_run(W, a):
    r = any_report(W, a.h)
    x = r.get_qc(a.t, a.f)
    r.get_qc(a.t2, a.f2)
    return x, r.get_qc(a.t, a.f)


add("reading flags changes none", dict(h=History(), t=VARI, f=FLAG, t2=VARI, f2=FLAG), read_run, [MR + "get_qc"],
    post=lambda a, r: r[0] == r[1], diff=False)


def data_run(W, a):
    """writing variables, derived variables and normals leaves the flags"""
    r = any_report(W, a.h)
    before = r.get_qc(a.t, a.f)
    if a.what == "setvar":
        r.setvar("SST", a.x)
    elif a.what == "time":
        r.setvar("HR", 5.0)
    elif a.what == "ext":
        r.setext("SST", a.x)
    elif a.what == "norm":
        r.add_climate_variable("SST", a.x, a.x)
    elif a.what == "reset":
        r.reset_ext()
    return before, r.get_qc(a.t, a.f)


add("other writes leave the flags", dict(h=History(), t=VARI, f=FLAG, x=Real(-5, 40), what=Enum("setvar", "time", "ext", "norm", "reset")), data_run,
    [MR + n for n in ("setvar", "setext", "add_climate_variable", "reset_ext")], post=lambda a, r: r[0] == r[1], diff=False)


# two reports share nothing

def two_run(W, a):
    r, s = rep(W, {} if not W.symbolic else State("r.", only=())), rep(W, {} if not W.symbolic else State("s.", only=()))
    r.set_qc(a.t, a.f, 1)
    r.setext("speed", 3.0)
    r.add_climate_variable("SST", 1.0)
    r.setvar("SST", 2.0)
    return s.get_qc(a.t, a.f), s.getvar("speed"), s.getnorm("SST"), s.getvar("SST")


add("writes to one report leave others", dict(t=Enum(*TYPES), f=Enum("clim", "")), two_run,
    [MR + n for n in ("__init__", "set_qc", "setext", "add_climate_variable", "setvar")],
    spec=lambda a: (9, None, None, None), diff=False)


# ------------------------------------------------------------------- normals

class Norm(object):
    """what a report already had for a variable"""
    __ghost__ = True

    def __init__(self, ps):
        s = z3.StringSort()
        self.v = {}
        for x in ("clim", "stdev"):
            self.v[x] = (core.mkb(z3.Function("no " + x, s, z3.BoolSort())(*ps)),
                         core.SNum(z3.Function("old " + x, s, z3.RealSort())(*ps), "r"))

    def getclim(self, intype="clim"):
        m, x = self.v[intype]
        return None if bool(m) else x


class Norms(Desc):
    def sym(self, E, name):
        return State(name + ".", only=())

    def rand(self, rng, pool):
        return [(rng.choice(["SST", "AT", "SLP"]), rng.choice([None, 1.5, 20.0]), rng.choice([None, 0.5])) for _ in range(rng.choice([0, 1, 3]))]


def norm_run(W, a):
    if isinstance(a.h, State):
        r = rep(W, a.h)
        r.climate_variables = Store("norms", lambda name, ps: Norm(ps))
    else:
        r = rep(W, {})
        for n, c, s in a.h:
            r.add_climate_variable(n, c, s)
    before = [r.getnorm(a.other, x) for x in ("clim", "stdev")]
    if a.stdev == "default":
        r.add_climate_variable(a.name, a.clim)
    else:
        r.add_climate_variable(a.name, a.clim, a.stdev)
    return before, [r.getnorm(a.other, "clim"), r.getnorm(a.other, "stdev")], \
        [r.getnorm(a.name), r.getnorm(a.name, "clim"), r.getnorm(a.name, "stdev")]


def norm_post(a, r):
    before, other, mine = r
    sd = None if a.stdev == "default" else a.stdev
    want = [a.clim, sd]
    return [("the variable's normals are those attached", eq(mine, [a.clim, a.clim, sd])),
            ("and no others change", eq(other, want) if bool(a.name == a.other) else eq(other, before))]


VNAME = Str("SST", "AT", "SLP", "SST2", "")
NUM = Opt(Real(-100, 1100))
add("add_climate_variable: the normals of the variable, and only those, change",
    dict(h=Norms(), name=VNAME, clim=NUM, stdev=OneOf(NUM, Const("default")), other=VNAME), norm_run,
    [MR + "add_climate_variable", MR + "getnorm", CV + "__init__", CV + "getclim"], post=norm_post, samples=1000, diff=False, budget=150)


def clim_run(W, a):
    c = W.Extended_IMMA.ClimVariable(a.clim, a.stdev)
    out = [c.getclim(), c.getclim("clim"), c.getclim("stdev")]
    for x in ("clim", "stdev"):
        try:
            c.getclim("mean")
            out.append("allowed")
        except AssertionError:
            out.append("refused")
    if a.which == "default":
        c.setclim(a.x)
    else:
        c.setclim(a.x, a.which)
    return out + [c.getclim("clim"), c.getclim("stdev")]


add("ClimVariable", dict(clim=NUM, stdev=NUM, x=Real(-50, 50), which=Enum("clim", "stdev", "default")), clim_run,
    [CV + "__init__", CV + "getclim", CV + "setclim"],
    spec=lambda a: [a.clim, a.clim, a.stdev, "refused", "refused", a.stdev if False else (a.clim if a.which == "stdev" else a.x),
                    a.x if a.which == "stdev" else a.stdev], samples=600)


def anom_run(W, a):
    r = rep(W, a.st)
    if a.norm:
        r.add_climate_variable(a.name, a.clim, a.stdev)
    r.add_climate_variable("WW", 50.0, 7.0)
    return [r.getanom(a.name), r.get_normalised_anom(a.name)]


def anom_spec(a):
    x = get(a.st, a.name)
    if not a.norm or x is None or a.clim is None:
        return [None, None]
    return [x - a.clim, None if a.stdev is None else div(x - a.clim, a.stdev)]


add("anomalies are from the variable's own normal", dict(st=AnyReport(only=("SST", "AT", "AT2", "DPT", "SLP")), name=Enum("SST", "AT", "AT2", "DPT", "SLP"),
                                                          clim=NUM, stdev=Opt(Real(0.01, 10)), norm=Enum(True, False)), anom_run,
    [MR + "getanom", MR + "get_normalised_anom"], spec=anom_spec, samples=1000, diff=False)
