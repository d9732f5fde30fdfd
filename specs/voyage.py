"""Voyages of any number of reports, for contracts.

Symbolic: the reports are FnSeq elements; each variable is a function of the report's number, report differences
are functions of the two numbers (the contract of MarineReport.__sub__, C25), flag writes go to a ghost state that
follows one arbitrary report k. Concrete: a list of records, made into a real Voyage."""
import math
import z3
from .common import *
from .fields import RecordOf
from pyvc import contract as _contract
from pyvc.seqs import FnSeq, Ghost, ghost
from pyvc.facade import LoopSpec, Lazy

SUBS = ("speed", "distance", "course", "time_diff")
SUBRANGE = {"speed": (None, None), "distance": (0, 20038), "course": (-180, 360), "time_diff": (None, None)}

# name -> (may be missing, kind, lo, hi)
VARS = {
    "LAT": (False, "r", -90, 90), "LON": (False, "r", -180, 360), "YR": (False, "i", 1850, 2100),
    "PT": (True, "i", 0, 20), "DCK": (True, "i", 0, 1000),
    "DS": (True, "i", 0, 9), "VS": (True, "i", 0, 9), "dsi": (True, "i8", 0, 360), "vsi": (True, "r", 0, 50),
    "SST": (True, "r", -10, 50), "AT": (True, "r", -80, 80), "AT2": (True, "r", -80, 80), "DPT": (True, "r", -80, 80),
    "SLP": (True, "r", 800, 1100),
}


def SInt(e):
    return core.SNum(e, "i")


class SymVoyage(object):
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, E, name, n, pt=None):
        self.E, self.name, self.n, self.pt = E, name, n, pt
        self.const = {"ID": "SHIP12345", "UID": "UID123"}
        self.k = E.int("a." + name + ".k")
        E.assume(And(self.k >= 0, self.k < n))
        self.fns, self.seen = {}, set()

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        raise ValueError("a symbolic voyage is not made concrete")

    def _f(self, name, ar, sort):
        key = (name, ar)
        if key not in self.fns:
            self.fns[key] = z3.Function("%s.%s" % (self.name, name), *([z3.IntSort()] * ar + [sort]))
        return self.fns[key]

    def raw(self, name, i):
        """(missing, value) of a variable of report i"""
        E = core.engine()
        if name in self.const:
            return False, self.const[name]
        if name in SUBS:
            return i == 0, self.sub(i, i - 1)[SUBS.index(name)]
        if name.startswith("alt_"):
            return Or(i == 0, i == self.n - 1), self.sub(i + 1, i - 1)[SUBS.index(name[4:])]
        opt, kind, lo, hi = VARS[name]
        e = z3.simplify(core.lift(i)[0])
        v = self._f(name, 1, z3.RealSort() if kind == "r" else z3.IntSort())(e)
        x = core.SNum(v * 45 if kind == "i8" else v, kind[0])
        miss = core.mkb(self._f("no " + name, 1, z3.BoolSort())(e)) if opt else False
        key = (name, str(e))
        if key not in self.seen:
            self.seen.add(key)
            E.assume(And(x >= lo, x <= hi))
        return miss, x

    def get(self, name, i):
        miss, x = self.raw(name, i)
        if name in core.engine().memo.get("lazy", ()):
            return Lazy(miss, x)
        if bool(miss):
            return None
        return x

    def sub(self, i, j):
        E = core.engine()
        a, b_ = [z3.simplify(core.lift(x)[0]) for x in (i, j)]
        out = []
        for s in SUBS:
            x = core.SNum(self._f(s, 2, z3.RealSort())(a, b_), "r")
            lo, hi = SUBRANGE[s]
            key = (s, str(a), str(b_))
            if key not in self.seen and lo is not None:
                E.assume(And(x >= lo, x <= hi))
            if s == "time_diff" and key not in self.seen:
                E.assume(Or(SInt(a) <= SInt(b_), x >= 0))   # reports in time order
            self.seen.add(key)
            out.append(x)
        return tuple(out)

    def saturated(self, i):
        m1, x = self.raw("AT", i)
        m2, y = self.raw("DPT", i)
        return And(Not(m1), Not(m2), x == y)

    # ghost state of report k
    def flags(self):
        m = core.engine().memo
        if "flags" not in m:
            m["flags"] = {}
        return m["flags"]

    def old(self, key):
        return core.SNum(z3.Int("old.%s.%s" % key), "i")

    def flag(self, key):
        f = self.flags()
        return f[key] if key in f else self.old(key)

    def put(self, i, key, val):
        E = core.engine()
        E.prove(And(val >= 0, val <= 9), "flags are set to 0-9", aux=True)
        self.flags()[key] = Ite(i == self.k, val, self.flag(key))

    def exts(self):
        return core.engine().memo.setdefault("exts", {})

    def ext(self, name):
        """(missing, value) of the derived variable of report k"""
        if name not in self.exts():
            return (core.mkb(z3.Bool("no old." + name)), core.SNum(z3.Real("old." + name), "r"))
        return self.exts()[name]

    def putext(self, i, name, val):
        m, x = self.ext(name)
        self.exts()[name] = (Ite(i == self.k, val is None, m), x if val is None else Ite(i == self.k, core.tofloat(val), x))


class SymRep(object):
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, sv, i):
        self.sv, self.i = sv, i

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise core.Unsupported("%s of a report of a symbolic voyage" % name)

    def getvar(self, name):
        if name.startswith("alt_") and not core.engine().memo.get("alts"):
            raise core.Unsupported("alternate speeds used before they are worked out")
        return self.sv.get(name, self.i)

    getext = getvar

    def lat(self):
        return self.getvar("LAT")

    def lon(self):
        x = self.getvar("LON")
        return Ite(x > 180, x - 360, x)

    def set_qc(self, t, f, val):
        self.sv.put(self.i, (t, f), val)

    def setext(self, name, val):
        self.sv.putext(self.i, name, val)

    def saturated(self):
        r = self.sv.saturated(self.i)
        if "run" in core.engine().memo:
            core.engine().memo["run"].fact(self.i)
        return r

    def __sub__(self, o):
        return self.sv.sub(self.i, o.i)


class ConcVoyage(object):
    """The same questions of a real voyage; near: a comparison was within rounding."""

    def __init__(self, v):
        self.v, self.n = v, len(v)

    def get(self, name, i):
        return self.v.getvar(i, name)

    def sub(self, i, j):
        return self.v.reps[i] - self.v.reps[j]


NEAR = [False]


def gt(x, y):
    """x > y, missing numbers below all others"""
    if x is None or y is None:
        return x is not None and y is None
    if not core.is_sym(x) and not core.is_sym(y) and x != y and abs(x - y) < 1e-9 * max(1.0, abs(x), abs(y)):
        NEAR[0] = True
    return x > y


def clear_of(spec):
    """guard: no comparison of the specification is within rounding"""
    def g(a):
        NEAR[0] = False
        spec(a)
        return not NEAR[0]
    return g


def build(W, recs, cls="MarineReport"):
    ex = W.Extended_IMMA
    v = ex.Voyage()
    for r in recs:
        v.add_report(getattr(ex, cls)(RecordOf(dict(r))))
    return v


def view(v):
    """what a specification asks of a voyage argument"""
    return v if isinstance(v, SymVoyage) else ConcVoyage(build(_contract.REAL, v))


def voyage(W, v):
    """the voyage to run on"""
    if not isinstance(v, SymVoyage):
        return build(W, v)
    o = W.Extended_IMMA.Voyage.__new__(W.Extended_IMMA.Voyage)
    o.reps = FnSeq(v.n, lambda i: SymRep(v, i))
    o.sym = v
    return o


class Track(Desc):
    """A voyage of at least lo reports; rand gives ship tracks with the odd error."""

    def __init__(self, lo=1, hi=12, value="SST", buoy=None, gap=(0, 1, 3, 6, 12), speed=30., jumps=0.15, miss=0.1):
        self.lo, self.hi, self.value, self.buoy, self.gap, self.speed, self.jumps, self.miss = \
            lo, hi, value, buoy, gap, speed, jumps, miss

    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n >= self.lo)
        return SymVoyage(E, name, n)

    def rand(self, rng, pool):
        n = rng.randint(self.lo, self.hi)
        lat = rng.choice([0., 30.25, 50.5, -40., 89., -89.5, rng.uniform(-89, 89)])
        lon = rng.choice([0., 179.75, -179.5, 10., rng.uniform(-180, 180)])
        head, knots = rng.choice([0, 45, 90, 135, 180, 225, 270, 315]), rng.choice([0, 3, 8, 14, 25]) * self.speed / 30.
        t = rng.choice([0, 12, 21])
        year = rng.choice([1850, 1890, 1891, 1967, 1968, 1999, 2000])
        month, day = rng.choice([(1, 1), (2, 26), (6, 10), (12, 28)])
        dck = rng.choice([720, 720, 732, 700])
        pt = rng.choice([5, 5, 5, 6, 7, 0, None]) if self.buoy is None else (7 if self.buoy else 5)
        ident = rng.choice(["SHIP12345", "SHIP12345", "PLAT     "])
        wander = rng.random() < 0.3
        val = round(rng.uniform(-1, 25), 1)
        step = rng.choice(self.gap[1:])
        out = []
        import datetime
        d0 = datetime.datetime(year, month, day)
        for i in range(n):
            d = d0 + datetime.timedelta(hours=t)
            r = dict(ID=ident, UID="U%d" % i, YR=d.year, MO=d.month, DY=d.day, HR=float(d.hour) + d.minute / 60.,
                     LAT=round(lat, 2), LON=round(lon, 2), DCK=dck)
            if pt is not None:
                r["PT"] = pt
            if rng.random() < self.jumps and i:
                r["LAT"] = round(max(-90, min(90, r["LAT"] + rng.choice([-20, -5, -2, 1, 2.5, 6, 30]))), 2)
                if rng.random() < 0.5:
                    r["LON"] = round((r["LON"] + rng.choice([-30, 4, 10, 180]) + 180) % 360 - 180, 2)
            if rng.random() > self.miss:
                r["DS"] = rng.choice([head // 45, head // 45, rng.randint(0, 9)])
            if rng.random() > self.miss:
                r["VS"] = rng.choice([min(9, int(knots // 5) + 1), min(9, int(knots // 5) + 1), rng.randint(0, 9)])
            self.values(rng, r, val)
            out.append(r)
            val += rng.choice([0, 0, 0, 0.1, -0.1, 0.5, -0.5, 3, -8]) if self.value else 0
            dt = step if rng.random() < 0.7 else rng.choice(self.gap)
            t += dt
            km = knots * 1.852 * dt
            if wander:
                head = rng.choice([0, 45, 90, 135, 180, 225, 270, 315])
                knots = rng.choice([0, 3, 8, 14, 25]) * self.speed / 30.
            lat += km / 111.2 * math.cos(math.radians(head))
            lat = max(-89.9, min(89.9, lat))
            lon = (lon + km / 111.2 * math.sin(math.radians(head)) / max(0.05, math.cos(math.radians(lat))) + 180) % 360 - 180
        return out

    def values(self, rng, r, val):
        if self.value and rng.random() > self.miss:
            r[self.value] = round(val, 1)


class Flags(object):
    """Loop specifications that follow the flags (and extended data) of report k.

    keys: the flags the loop writes; exts: the derived variables it writes."""

    def __init__(self, keys=(), exts=(), inv=None, havoc=None, base=1, **kw):
        self.keys, self.exts = list(keys), list(exts)
        self.user = inv
        hv = dict(havoc or {})
        hv["_ghost"] = self.havoc
        self.spec = LoopSpec(self.inv, hv, **kw)

    def sv(self, v):
        return (v.self if "self" in v.__dict__ else v.invoyage).sym

    def snapshot(self, sv):
        return {k: x for k, x in sv.flags().items() if k not in self.keys}, \
            {k: x for k, x in sv.exts().items() if k not in self.exts}

    def havoc(self, E, v, s):
        sv = self.sv(v)
        for k in self.keys:
            sv.flags()[k] = E.int("flag.%s.%s" % k)
        for x in self.exts:
            sv.exts()[x] = (E.bool("no ext." + x), E.real("ext." + x))
        E.memo["snap"] = self.snapshot(sv)
        return None

    def inv(self, v, s):
        sv = self.sv(v)
        m = core.engine().memo
        if "snap" in m and isinstance(s.i, core.Sym):
            f, x = self.snapshot(sv)
            for now, then in ((f, m["snap"][0]), (x, m["snap"][1])):
                for k in now:
                    if k not in then or now[k] is not then[k]:
                        raise core.Unsupported("the loop writes %s" % (k,))
        return self.user(v, s, sv)


def floop(inv, keys=(), exts=(), havoc=None, **kw):
    return Flags(keys, exts, inv, havoc, **kw).spec


# lists built by loops, followed at report k: element k as (missing, value)

def glist(name, kind="r", **facts):
    """havoc: the list's earlier content, of which element k is an unknown (missing, value)"""
    def f(E, v, s):
        n = E.int("n." + name)
        E.assume(n >= 0)
        x = E.real("at." + name) if kind == "r" else E.int("at." + name)
        getattr(v, name)[:] = [Ghost(n, None, none=E.bool("none." + name), val=x)]
        return getattr(v, name)
    return f


def gat(xs, k):
    """(missing, value) of element k < len"""
    if isinstance(xs, FnSeq):
        x = xs.sget(k)
        return (x is None), (0.0 if x is None else x)
    g, new = ghost(xs)
    none, val = (g.none, g.val) if g is not None else (True, 0.0)
    n = g.n if g is not None else 0
    for j, x in enumerate(new):
        here = k == n + j
        none = Ite(here, x is None, none)
        if x is not None:
            val = Ite(here, core.tofloat(x) if core.is_sym(x) or isinstance(x, (int, float)) else x, core.tofloat(val))
    return none, val


def same_opt(got, want):
    """(missing, value) pairs agree"""
    return And(Or(And(got[0], want[0]), And(Not(got[0]), Not(want[0]))), Or(want[0], got[1] == want[1]))
