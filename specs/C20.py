"""C20: reports keep their values, and order by identity and time."""
import z3
from .report import *

CONTRACTS = Specs()
add = CONTRACTS.add
MR = "Extended_IMMA.MarineReport."
ANY = {"YR": (1, 9999), "MO": (-5, 20), "DY": (-5, 40), "HR": (-30, 60)}
TIME = ("YR", "MO", "DY", "HR")


# ----------------------------------------------------------------- the time

def dt_run(W, a):
    r = rep(W, a.st)
    r.calculate_dt()
    return fields_of(r.dt)


add("calculate_dt", dict(st=AnyReport(ranges=ANY, only=TIME, extra={"MO": [0, 1, 2, 12, 13], "HR": [0., 24., 23.99, -0.5, 12.25], "DY": [0, 28, 29, 30, 31, 32]})),
    dt_run, [MR + "calculate_dt"], spec=lambda a: time_of(a.st), samples=1500)


# ------------------------------------------------------- reading and writing

def as_stored(name, x):
    return None if x is None else Trunc(x) if name in INTS else x


class Written(Desc):
    """a value to write into a variable"""

    def __init__(self, lo=-50, hi=400):
        self.d = Opt(Real(lo, hi))

    def sym(self, E, name):
        return self.d.sym(E, name)

    def rand(self, rng, pool):
        return self.d.rand(rng, pool)


def valid_year(st, name, x):
    return 1 <= x <= 9999 if name == "YR" and x is not None else True


def set_run(W, a):
    r = rep(W, a.st, ID="A", UID="B")
    r.calculate_dt()
    r.setvar(a.name, a.x)
    return [r.getvar(n) for n in NAMES] + [r.getvar("ID"), r.getvar("UID"), fields_of(r.dt)]


def after(st, name, x):
    """the state after writing"""
    d = {n: get(st, n) for n in NAMES} if name is None else None
    return d


class After(object):
    def __init__(self, st, name, x):
        self.st, self.name, self.x = st, name, x

    def get(self, n):
        return as_stored(n, self.x) if n == self.name else get(self.st, n)


def set_spec(a):
    s = After(a.st, a.name, a.x)
    return [s.get(n) for n in NAMES] + ["A", "B", time_of(s)]


SOME = ("YR", "MO", "DY", "HR", "SST", "PT", "DPT")
for group, only in (("times", TIME), ("values", ("SST", "AT", "DPT", "PT")), ("others", ("SLP", "LAT", "LON", "SID"))):
    add("setvar: the variable, and only it, takes the value (%s)" % group,
        dict(st=AnyReport(only=only), name=Enum(*NAMES), x=Written()), set_run,
        [MR + "setvar", MR + "getvar", MR + "calculate_dt"], spec=set_spec, samples=1500, diff=False,
        pre=lambda a: a.x is None or a.name != "YR" or And(a.x >= 1, a.x <= 9999))


def id_run(W, a):
    r = rep(W, a.st, ID="A", UID="B")
    r.calculate_dt()
    r.setvar(a.name, a.x)
    return [r.getvar("ID"), r.getvar("UID"), r.getvar("SST"), r.getvar("not a variable"), fields_of(r.dt)]


add("setvar: identities", dict(st=AnyReport(only=TIME + ("SST",)), name=Enum("ID", "UID"), x=Str("", "SHIP", "XYZ      ")), id_run,
    [MR + "setvar", MR + "getvar"],
    spec=lambda a: [a.x if a.name == "ID" else "A", a.x if a.name == "UID" else "B", get(a.st, "SST"), None, time_of(a.st)],
    samples=600, diff=False)


def unknown_run(W, a):
    rep(W, a.st).setvar(a.name, 1.0)


add("setvar: unknown variables are refused", dict(st=AnyReport(only=()), name=Enum("RH", "", "sst", "CLIM", "dsi")), unknown_run,
    [MR + "setvar"], spec=lambda a: Raised("ValueError"), diff=False)


# ------------------------------------------------------------- construction

def made(W, a):
    d = {k: v for k, v in a.rec.__dict__.items() if v != "absent"}
    r = W.Extended_IMMA.MarineReport(RecordOf(d))
    return [r.getvar(n) for n in NAMES] + [r.getvar("ID"), r.getvar("UID"), r.dt if W.symbolic and isinstance(r.dt, list) else fields_of(r.dt), r.getvar("dsi"), r.getvar("vsi"),
                                           r.get_qc("SST", "noval"), r.getnorm("SST")]


def dsi(ds):
    return None if ds is None else None if bool(ds == 9) else 45 * ds


def vsi(vs, yr):
    """knots; the code's steps were 5 knots wide from 1968 and 3 before"""
    if vs is None:
        return None
    if bool(vs == 0):
        return 0.0
    modern = yr is not None and bool(yr >= 1968)
    return vs * 5.0 - 2.0 if modern else vs * 3.0 - 1.0


def made_spec(a):
    d = {k: v for k, v in a.rec.__dict__.items() if v != "absent"}

    def g(n):
        return as_stored(n, d.get(n))
    s = NS(get=g)
    return [g(n) for n in NAMES] + [d.get("ID"), d.get("UID"), [g(n) for n in TIME] if core.engine() is not None and a.rec.__dict__.get("stubbed") else time_of(s), dsi(g("DS")), vsi(g("VS"), g("YR")), 9, None]


class Record(Desc):
    """all variables, or all but one, or one alone, or none; and a few that reports do not keep"""

    def one(self, x, E=None, name="", rng=None, pool=None):
        lo, hi = RANGE[x]
        d = Int(lo, hi) if x in INTS else Real(lo, hi)
        return d.sym(E, name + "." + x) if E is not None else d.rand(rng, pool)

    def sym(self, E, name):
        n = len(NAMES)
        c = E.choose(2 * n + 2)
        d = dict(ID="SHIP", UID="U1", OTHER=5.0, stubbed=True)
        for i, x in enumerate(NAMES):
            if c == 2 * n or (c < n and i != c) or (n <= c < 2 * n and i == c - n):
                d[x] = self.one(x, E, name)
            elif i % 2:
                d[x] = None
        return NS(**d)

    def rand(self, rng, pool):
        d = dict(ID=rng.choice(["SHIP", None, "absent"]), UID=rng.choice(["U1", None, "absent"]), OTHER=5.0)
        p = rng.choice([0, 0.1, 0.5])
        for x in rng.sample(NAMES, len(NAMES)):
            d[x] = rng.choice([None, "absent"]) if rng.random() < p else self.one(x, rng=rng, pool=pool)
        return NS(**d)


def now(a):
    """calculate_dt works the time out of what the report holds at that moment"""
    a.self.dt = [a.self.getvar(n) for n in TIME]


NOW = Contract("dt", dict(self=None), None, [], spec=now)
add("construction from a record", dict(rec=Record()), made,
    [MR + n for n in ("__init__", "setvar", "getvar", "calculate_dt", "calculate_dsi_vsi", "get_qc", "getnorm")],
    spec=made_spec, samples=1500, diff=False, budget=200, use={MR + "calculate_dt": NOW},
    bounded="records with all variables, all but one, one alone, or none (values arbitrary)")


def dsi_run(W, a):
    r = rep(W, a.st)
    r.setext("speed", 4.0)
    if a.reset:
        r.reset_ext()
    else:
        r.calculate_dsi_vsi()
    return [r.getvar("dsi"), r.getvar("vsi"), r.getvar("speed")]


add("reported course and speed", dict(st=AnyReport(only=("YR", "DS", "VS")), reset=Enum(True, False)), dsi_run,
    [MR + "calculate_dsi_vsi", MR + "reset_ext"],
    spec=lambda a: [dsi(get(a.st, "DS")), vsi(get(a.st, "VS"), get(a.st, "YR")), None if a.reset else 4.0], samples=600, diff=False)


def pos_run(W, a):
    r = rep(W, a.st)
    return [r.lat(), r.lon()]


def lonspec(x):
    return None if x is None else Ite(x > 180, x - 360, x)


add("positions", dict(st=AnyReport(only=("LAT", "LON"))), pos_run, [MR + "lat", MR + "lon"],
    spec=lambda a: [get(a.st, "LAT"), lonspec(get(a.st, "LON"))], samples=600, diff=False)
add("lemma: longitudes are presented in [-180, 180]", dict(st=AnyReport(only=("LAT", "LON"), full=("LAT", "LON"))), pos_run,
    [MR + "lat", MR + "lon"], post=lambda a, r: And(r[1] >= -180, r[1] <= 180, r[0] >= -90, r[0] <= 90), diff=False)


def ext_run(W, a):
    r = rep(W, a.st)
    r.setext("speed", 1.0)
    r.setext(a.name, a.x)
    out = []
    for n in ("speed", "course", "dsi", a.name):
        try:
            out.append(r.getext(n))
        except AssertionError:
            out.append("refused")
    return out + [r.getvar(a.name), r.getvar("SST")]


add("derived variables", dict(st=AnyReport(only=("SST",)), name=Enum("speed", "course", "new"), x=Opt(Real(-10, 10))), ext_run,
    [MR + "setext", MR + "getext", MR + "getvar"],
    spec=lambda a: [a.x if a.name == "speed" else 1.0, a.x if a.name == "course" else "refused", None, a.x, a.x, get(a.st, "SST")],
    diff=False)


def sat_run(W, a):
    return rep(W, a.st).saturated()


def sat_spec(a):
    t, d = get(a.st, "AT"), get(a.st, "DPT")
    return False if t is None or d is None else t == d


add("saturated", dict(st=AnyReport(only=("AT", "DPT"), extra={"AT": [0., 5.], "DPT": [0., 5.]})), sat_run, [MR + "saturated"],
    post=lambda a, r: Or(And(r, sat_spec(a)), And(Not(r), Not(sat_spec(a)))), samples=600, diff=False)


# ------------------------------------------------------------------ ordering

class When(Desc):
    """a time to the minute, or None"""

    def sym(self, E, name):
        if E.choose(2):
            return None
        return [E.int("a.%s.%s" % (name, x)) for x in ("day", "minute")]

    def rand(self, rng, pool):
        return None if rng.random() < 0.2 else [rng.choice([700000, 700001]), rng.choice([0, 1, 1439])]


class Clock(object):
    """stands for a datetime: ordered by day, then minute"""
    __ghost__ = True

    def __init__(self, w):
        self.w = w

    def key(self):
        return self.w[0] * 1440 + self.w[1]

    def __gt__(self, o):
        return self.key() > o.key()

    def __ge__(self, o):
        return self.key() >= o.key()

    def __lt__(self, o):
        return self.key() < o.key()

    def __le__(self, o):
        return self.key() <= o.key()

    def __eq__(self, o):
        return isinstance(o, Clock) and self.key() == o.key()

    def __hash__(self):
        return 1


def at(W, ident, w):
    r = rep(W, {} if not W.symbolic else State("o.", only=()), ID=ident)
    r.id = ident
    if w is None:
        r.dt = None
    elif W.symbolic:
        r.dt = Clock(w)
    else:
        import datetime
        r.dt = datetime.datetime.fromordinal(int(w[0])) + datetime.timedelta(minutes=int(w[1]))
    return r


def less(i, s, j, t):
    """(identity, time), a missing time before all others"""
    return Or(i < j, And(i == j, earlier(s, t)))


def earlier(s, t):
    if t is None:
        return False
    if s is None:
        return True
    return s[0] * 1440 + s[1] < t[0] * 1440 + t[1]


def same(i, s, j, t):
    if s is None or t is None:
        return And(i == j, s is None and t is None)
    return And(i == j, s[0] * 1440 + s[1] == t[0] * 1440 + t[1])


def cmp_run(W, a):
    x, y = at(W, a.i, a.s), at(W, a.j, a.t)
    f = {"==": lambda: x == y, ">": lambda: x > y, ">=": lambda: x >= y, "<": lambda: x < y, "<=": lambda: x <= y}[a.op]
    return bool(f())


def cmp_spec(a):
    x = (a.i, a.s, a.j, a.t)
    y = (a.j, a.t, a.i, a.s)
    return {"==": lambda: same(*x), ">": lambda: less(*y), ">=": lambda: Or(less(*y), same(*x)), "<": lambda: less(*x),
            "<=": lambda: Or(less(*x), same(*x))}[a.op]()


NAMED = Str("A", "B", "SHIP     ", "SHIP2    ", maxlen=9)
add("comparison is by identity and then by time", dict(i=NAMED, s=When(), j=NAMED, t=When(), op=Enum("==", ">", ">=", "<", "<=")), cmp_run,
    [MR + n for n in ("__eq__", "__gt__", "__ge__", "__le__")],
    post=lambda a, r: cmp_spec(a) if r else Not(cmp_spec(a)),
    pre=lambda a: And(*[And(w[0] >= 1, w[0] <= 3000000, w[1] >= 0, w[1] < 1440) for w in (a.s, a.t) if w is not None]),
    samples=3000, diff=False)


THREE = Enum("A", "B", "C")      # any three identities order like these


def law_run(W, a):
    x, y, z = at(W, a.i, a.s), at(W, a.j, a.t), at(W, a.k, a.u)
    return [bool(x < y), bool(y < z), bool(x < z), bool(y < x)]


add("lemma: the order is transitive and asymmetric", dict(i=THREE, s=When(), j=THREE, t=When(), k=THREE, u=When()), law_run,
    [MR + "__gt__"], post=lambda a, r: (not (r[0] and r[1]) or r[2]) and not (r[0] and r[3]),
    pre=lambda a: And(*[And(w[0] >= 1, w[0] <= 3000000, w[1] >= 0, w[1] < 1440) for w in (a.s, a.t, a.u) if w is not None]),
    samples=3000, diff=False)
