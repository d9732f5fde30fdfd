"""C15: the buddy checks.

Followed: one arbitrary grid box and one arbitrary report. The boxes of one degree by one degree by five days are
functions of their three indices."""
import itertools
import math
import z3
from .voyage import *
from .fields import RecordOf, gooddate, mds_col, mds_row, yday
from pyvc import contract as _contract, grids
from pyvc.arrays import forall, mention
from pyvc.core import SNum
from pyvc.grids import Grid, Occupied, simp
from pyvc.seqs import FnSeq, Ghost, ghost, glen

CONTRACTS = Specs()
add = CONTRACTS.add
SO, DE = "Extended_IMMA.Np_Super_Ob.", "Extended_IMMA.Deck."
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SHAPE = (360, 180, 73)
RADCON = 3.1415928 / 180.


def fun(name, *sorts):
    f = z3.Function(name, *sorts)
    kind = {I: "i", R: "r"}.get(sorts[-1])

    def g(*xs):
        es = [core.real(*core.lift(x)) if s == R else simp(x) for x, s in zip(xs, sorts)]
        return core.mkb(f(*es)) if kind is None else SNum(f(*es), kind)
    g.f = f
    return g


def stub(spec, *names):
    return Contract("stub", dict.fromkeys(names), None, [], spec=spec)


# --------------------------------------------------- the threshold's multiplier

class Rising(object):
    """numbers of observations, ascending from 0, and a multiplier for each"""
    __symbolic__ = True

    def __init__(self, E, n):
        self.n, self.lim, self.val = n, fun("limit", I, I), fun("multiplier", I, R)
        self.last = E.int("a.last")
        total = E.int("a.total")
        E.assume(total >= 1)
        self.total = total
        E.assume(And(self.last >= 0, self.last < n))
        known = []

        def facts(i):
            """strictly ascending; `last` is the last limit below the total"""
            inside = And(i >= 0, i < n)
            out = [Implies(inside, And((total > self.lim(i)) == (i <= self.last), self.val(i) > 0)),
                   Implies(i == 0, self.lim(i) == 0), Implies(inside, self.lim(i) >= 0)]
            for j in known:
                out += [Implies(And(inside, j >= 0, j < n, i < j), self.lim(i) < self.lim(j)),
                        Implies(And(inside, j >= 0, j < n, j < i), self.lim(j) < self.lim(i))]
            known.append(i)
            return And(*out)
        forall(facts, "limits")
        mention(0, "limits")
        mention(self.last, "limits")

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        n = values_int(self.n, model)
        if n > 12:
            raise ValueError("long list")
        ev = lambda x: values_num(x, model)
        return dict(total=int(ev(self.total)), limits=[int(ev(self.lim(i))) for i in range(n)],
                    multipliers=[float(ev(self.val(i))) for i in range(n)])


def values_num(x, model):
    from pyvc import values
    return values.concretize(x, model)


values_int = values_num


class Column(FnSeq):
    def __init__(self, r, f):
        def at(i):
            mention(i, "limits")
            return f(i)
        FnSeq.__init__(self, r.n, at)
        self.r = r

    def _smin(self):
        E = core.engine()
        k = E.int("least")
        E.assume(And(k >= 0, k < self.n))
        mention(k, "limits")
        m = self.f(k)
        forall(lambda i: Implies(And(i >= 0, i < self.n), m <= self.sgetq(i)), "limits")
        return m

    def sgetq(self, i):
        return self.r.lim(i) if self.which == "lim" else self.r.val(i)


def columns(r):
    x, y = Column(r, r.lim), Column(r, r.val)
    x.which, y.which = "lim", "val"
    return x, y


class Limits(Desc):
    def sym(self, E, name):
        n = E.int("a.rows")
        E.assume(n >= 1)
        return Rising(E, n)

    def rand(self, rng, pool):
        n = rng.randint(1, 6)
        lim = [0] + sorted(rng.sample(range(1, 40), n - 1))
        return dict(total=rng.choice([1, 2, 5, 15, 39, 100] + lim[1:] + [x + 1 for x in lim]), limits=lim,
                    multipliers=[rng.choice([4.0, 3.5, 3.0, 2.5, 1.0]) for _ in lim])


def mult_run(W, a):
    f = W.Extended_IMMA.get_threshold_multiplier
    if isinstance(a.t, Rising):
        return f(a.t.total, *columns(a.t))
    return f(a.t["total"], list(a.t["limits"]), list(a.t["multipliers"]))


def row(total, limits, multipliers):
    """the multiplier of the last row whose limit the total exceeds"""
    r = multipliers[0]
    for l, m in zip(limits[1:], multipliers[1:]):
        r = Ite(total > l, m, r)
    return r


def mult_spec(a):
    if isinstance(a.t, Rising):
        return a.t.val(a.t.last)
    return row(a.t["total"], a.t["limits"], a.t["multipliers"])


def mult_inv(v, s):
    t = core.engine().args.t
    mention(s.i, "limits")
    k = Ite(t.last < s.i, t.last, s.i - 1)
    mention(k, "limits")
    return [("of the rows so far", Ite(k >= 0, v.multiplier == t.val(k), v.multiplier == -1))]


add("get_threshold_multiplier: the row that applies", dict(t=Limits()), mult_run, ["Extended_IMMA.get_threshold_multiplier"],
    spec=mult_spec, samples=1500,
    loops={"Extended_IMMA.get_threshold_multiplier#0": LoopSpec(lambda v, s: []),
           "Extended_IMMA.get_threshold_multiplier#1": LoopSpec(mult_inv, {"multiplier": lambda E, v, s: E.real("multiplier")})})


# ----------------------------------------------------------- the boxes around a box

BOX = fun("anomaly", I, I, I, R)
NUM = fun("number", I, I, I, I)
EXT_X, EXT_P = 180, 36


def is_box(c):
    return And(c[0] >= 0, c[0] < 360, c[1] >= 0, c[1] < 180, c[2] >= 0, c[2] < 73)


def a_box(E, name):
    c = tuple(E.int("a.%s%d" % (name, j)) for j in range(3))
    E.assume(is_box(c))
    return c


def width(span, y):
    """the number of columns on either side that span as much as so many degrees at the equator"""
    x = span / cos((89.5 - y) * RADCON)
    return core.toint(x) if core.is_sym(x) else int(x)


def offset(to, frm, n):
    """the shortest way round a circle of n"""
    h = n // 2
    return (to - frm + h) % n - h


def near(c, d, radius):
    """box c is one of the neighbours of box d: within the radius, and not d itself"""
    ox, oy, op = offset(c[0], d[0], 360), c[1] - d[1], offset(c[2], d[2], 73)
    w = width(radius[0], d[1])
    return And(ox <= w, -ox <= w, oy <= radius[1], -oy <= radius[1], op <= radius[2], -op <= radius[2],
               Or(ox != 0, oy != 0, op != 0))


class Boxes(object):
    """occupied boxes: symbolic"""
    __symbolic__ = True

    def __init__(self, E):
        self.c = a_box(E, "c")

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        c = tuple(int(values_num(x, model)) for x in self.c)
        n = int(values_num(NUM(*self.c), model))
        return [(c, float(values_num(BOX(*self.c), model)), n)] if n else []


class Occup(Desc):
    def __init__(self, hi=8):
        self.hi = hi

    def sym(self, E, name):
        forall_box(lambda c: NUM(*c) >= 0)
        return Boxes(E)

    def rand(self, rng, pool):
        x0, y0, p0 = rng.choice([0, 1, 180, 359, 358, 90]), rng.choice([0, 0, 1, 2, 89, 120, 170, 178, 179]), rng.choice([0, 1, 35, 70, 72])
        out = {}
        for _ in range(rng.randint(1, self.hi)):
            far = rng.choice([1, 2, 3, 5]) if 3 < y0 < 176 else rng.choice([1, 4, 60, 100, 180])
            y = y0 + rng.choice([0, 0, 1, -1, 2, -2, 3])
            if not 0 <= y < 180:
                y %= 180
            c = ((x0 + rng.randint(-far, far)) % 360, y, (p0 + rng.choice([0, 0, 1, -1, 2, 4, -4, 5])) % 73)
            out[c] = (round(rng.uniform(-3, 3), 1), rng.choice([1, 1, 2, 6, 30, 120]))
        if rng.random() < 0.8:
            out[(x0, y0, p0)] = (round(rng.uniform(-3, 3), 1), rng.choice([1, 3]))
        return sorted((c, v, n) for c, (v, n) in out.items())


def forall_box(f):
    facts = core.engine().memo.setdefault("box facts", [])
    facts.append(f)


def number(c):
    """the number of observations of a box"""
    E = core.engine()
    x = NUM(*c)
    E.assume(x >= 0)
    return x


def superob(W, g):
    """a superob of the given boxes, averages taken"""
    ex = W.Extended_IMMA
    if isinstance(g, Boxes):
        o = ex.Np_Super_Ob.__new__(ex.Np_Super_Ob)
        o.grid, o.nobs = Grid(SHAPE, BOX), Grid(SHAPE, lambda *c: number(c))
        o.buddy_mean = Grid(SHAPE, fun("old mean", I, I, I, R))
        o.buddy_stdev = Grid(SHAPE, fun("old stdev", I, I, I, R))
        return o
    o = ex.Np_Super_Ob()
    for c, v, n in g:
        o.grid[c] = v
        o.nobs[c] = n
    return o


def whose(x, f):
    """the box whose value a number is"""
    e = x.e if isinstance(x, SNum) else None
    if e is None:
        raise core.Unsupported("a neighbour's value that is not a box's")
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
        e = e.arg(0)
    if not (z3.is_app(e) and e.decl().eq(f.f)):
        raise core.Unsupported("a neighbour's value that is not a box's")
    return tuple(SNum(e.arg(j), "i") for j in range(3))


def times(xs, f, c):
    """how often the box c's value is in the list"""
    g, new = ghost(xs)
    r = g.times if g is not None else 0
    for x in new:
        d = whose(x, f)
        r = r + b(And(*[p == q for p, q in zip(c, d)]))
    return r


class Sphere(Desc):
    """a radius: columns, rows and five-day periods"""

    def sym(self, E, name):
        r = [E.int("a.%s%d" % (name, j)) for j in range(3)]
        E.assume(And(*[x >= 0 for x in r] + [r[2] <= EXT_P]))
        return r

    def rand(self, rng, pool):
        return rng.choice([[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4], [0, 0, 1], [3, 0, 0], [0, 3, 36], [5, 5, 10], [1, 4, 3]])


class ABox(Desc):
    def sym(self, E, name):
        return list(a_box(E, name))

    def rand(self, rng, pool):
        return [rng.choice([0, 1, 180, 359, 358, 90]), rng.choice([0, 1, 2, 89, 120, 170, 178, 179]), rng.choice([0, 1, 35, 70, 72])]


def around(W, a):
    d = a.d if isinstance(a.g, Boxes) or not a.own else list(a.g[0][0])
    xs, ns = superob(W, a.g).get_neighbour_anomalies(a.radius, *d)
    return xs, ns


def around_post(a, r):
    xs, ns = r
    if isinstance(a.g, Boxes):
        c = a.g.c
        want = b(And(near(c, a.d, a.radius), NUM(*c) != 0))
        return [("each neighbour's average once, no other's", times(xs, BOX, c) == want),
                ("each neighbour's number once, no other's", times(ns, NUM, c) == want), ("as many", glen(xs) == glen(ns))]
    d = a.d if not a.own else list(a.g[0][0])
    want = sorted((v, n) for c, v, n in a.g if near(c, d, a.radius))
    return [("the neighbours' averages and numbers", sorted(zip(map(float, xs), map(int, ns))) == want),
            ("as many", len(xs) == len(ns))]


def visited(seq, i, want):
    """the number `want` is among the first i of an ascending range"""
    lo = seq.lo if hasattr(seq, "lo") else (seq[0] if len(seq) else 0)
    return And(want >= lo, want < lo + i)


def around_loops():
    name = SO + "get_neighbour_anomalies#"
    lists = (("temp_anom", BOX), ("temp_nobs", NUM))

    def entry(level, v):
        a = core.engine().args
        m = core.engine().memo
        m[("entry", level)] = [times(getattr(v, x), f, a.g.c) for x, f in lists]

    def inv(level):
        def f(v, s):
            a = core.engine().args
            c = a.g.c
            if not isinstance(s.i, core.Sym):
                entry(level, v)
            before = core.engine().memo[("entry", level)]
            ox, oy, op = offset(c[0], a.d[0], 360), c[1] - a.d[1], offset(c[2], a.d[2], 73)
            span = a.radius
            this = [NUM(*c) != 0, Or(ox != 0, oy != 0, op != 0)]
            seen = visited(s.seq, s.i, (ox, oy, op)[level])
            if level < 1:
                this += [oy <= span[1], -oy <= span[1]]
            if level < 2:
                this += [op <= span[2], -op <= span[2]]
            if level > 0:
                this.append(v.xpt == ox)
            if level > 1:
                this.append(v.ypt == oy)
            more = b(And(seen, *this))
            return [("%s so far" % x, times(getattr(v, x), f_, c) == old + more) for (x, f_), old in zip(lists, before)] + \
                [("as many", glen(v.temp_anom) == glen(v.temp_nobs))]
        return f

    def havoc(level):
        def f(E, v, s):
            n = E.int("n.lists")
            E.assume(n >= 0)
            for x, _f in lists:
                getattr(v, x)[:] = [Ghost(n, None, times=E.int("times." + x))]
            n2 = E.int("n.other")
            v.temp_nobs[0].n = n2
            E.assume(n2 >= 0)
        return f
    return {name + str(j): LoopSpec(inv(j), {"_ghost": havoc(j), "temp_anom": lambda E, v, s: v.temp_anom, "temp_nobs": lambda E, v, s: v.temp_nobs})
            for j in range(3)}


add("get_neighbour_anomalies: every other occupied box within the radius, once", dict(g=Occup(), d=ABox(), radius=Sphere(), own=Bool()), around,
    [SO + "get_neighbour_anomalies"], post=around_post, diff=False, samples=60, loops=around_loops(),
    pre=lambda a: not isinstance(a.g, Boxes) or cos((89.5 - a.d[1]) * RADCON) > 0)


# ------------------------------------------------------- the boxes hold the reports

def home(lat, lon, mo, dy):
    """the box of a place and date"""
    return mds_col(lon, 1, 360), mds_row(lat, 1, 180), (yday(mo, dy) - 1) // 5


PLACE = dict(lat=Real(-90, 90, extra=(-90, 90, 0, 45.5, 12)), lon=Real(-180, 180, extra=(-180, 180, 0, 33, 179.9)),
             mo=Int(1, 12, extra=(1, 2, 12)), dy=Int(1, 31, extra=(28, 29, 30, 31, 1)))


def started(W, a):
    """a superob with some reports in it already"""
    ex = W.Extended_IMMA
    if isinstance(a.g, Boxes):
        return superob(W, a.g)
    o = superob(W, a.g)
    for c, v, n in a.g:
        o.buddy_mean[c], o.buddy_stdev[c] = v + 1, n + 1
    return o


def cells(a, o, lat=None):
    """what is asked of the result: the arrays at the box followed, or at all boxes that matter"""
    if isinstance(a.g, Boxes):
        cs = [a.g.c]
    else:
        cs = sorted({c for c, v, n in a.g} | ({tuple(int(x) for x in home(a.lat, a.lon, a.mo, a.dy))} if lat is not None else set()))
    return [[[core.tofloat(f[c]) for c in cs] for f in (o.grid, o.nobs, o.buddy_mean, o.buddy_stdev)], size(a, o, cs)]


def size(a, o, cs):
    """nothing but the boxes cs is occupied"""
    if isinstance(a.g, Boxes):
        return 0
    import numpy as np
    return sum(int(np.count_nonzero(f)) - sum(1 for c in cs if f[c] != 0) for f in (o.grid, o.nobs, o.buddy_mean, o.buddy_stdev))


def before(a, c):
    """grid, nobs, mean, stdev of a box"""
    if isinstance(a.g, Boxes):
        return BOX(*c), NUM(*c), fun("old mean", I, I, I, R)(*c), fun("old stdev", I, I, I, R)(*c)
    for d, v, n in a.g:
        if tuple(d) == tuple(c):
            return v, n, v + 1, n + 1
    return 0., 0, 0., 0.


def add_run(W, a):
    o = started(W, a)
    o.add_rep(a.lat, a.lon, a.yr, a.mo, a.dy, a.anom)
    return cells(a, o, a.lat)


def add_spec(a):
    h = home(a.lat, a.lon, a.mo, a.dy)
    h = h if isinstance(a.g, Boxes) else tuple(int(x) for x in h)
    cs = [a.g.c] if isinstance(a.g, Boxes) else sorted({c for c, v, n in a.g} | {h})
    out = [[], [], [], []]
    for c in cs:
        v, n, m, s = before(a, c)
        here = And(a.anom is not None, *[p == q for p, q in zip(c, h)])
        out[0].append(v + (Ite(here, a.anom, 0) if a.anom is not None else 0))
        out[1].append(n + b(here))
        out[2].append(m)
        out[3].append(s)
    return [out, 0]


add("add_rep: a report counts in its own box", dict(PLACE, yr=Int(1850, 2100), anom=Opt(Real(-20, 20)), g=Occup()), add_run,
    [SO + "add_rep"], spec=add_spec, pre=lambda a: gooddate(a.mo, a.dy), samples=60, diff=False, budget=120)


def nonzero(g):
    """np.nonzero: the occupied boxes"""
    occ = Occupied((), lambda *c: g.fn(*c) != 0)
    occ.fn = g.fn
    return occ


def average_run(W, a):
    if isinstance(a.g, Boxes):
        core.engine().memo["nonzero"] = nonzero
    o = started(W, a)
    o.take_average()
    return cells(a, o)


def average_spec(a):
    cs = [a.g.c] if isinstance(a.g, Boxes) else sorted(c for c, v, n in a.g)
    rows = [before(a, c) for c in cs]
    return [[[Ite(n != 0, div(v, n), v) if isinstance(a.g, Boxes) else v / float(n) for v, n, m, s in rows], [n for v, n, m, s in rows],
             [m for v, n, m, s in rows], [s for v, n, m, s in rows]], 0]


add("take_average: each occupied box holds its mean", dict(g=Occup()), average_run, [SO + "take_average"], spec=average_spec, samples=60, diff=False)


def lookup_run(W, a):
    o = started(W, a)
    return [o.get_buddy_mean(a.lat, a.lon, a.mo, a.dy), o.get_buddy_stdev(a.lat, a.lon, a.mo, a.dy)]


def lookup_spec(a):
    h = home(a.lat, a.lon, a.mo, a.dy)
    return list(before(a, h if isinstance(a.g, Boxes) else tuple(int(x) for x in h))[2:])


add("get_buddy_mean, get_buddy_stdev: those of the box of the place and date", dict(PLACE, g=Occup()), lookup_run,
    [SO + "get_buddy_mean", SO + "get_buddy_stdev"], spec=lookup_spec, pre=lambda a: gooddate(a.mo, a.dy), samples=60, diff=False)


def empty_run(W, a):
    o = W.Extended_IMMA.Np_Super_Ob()
    if W.symbolic:
        return [[tuple(f.shape), f.default, len(f.cells)] for f in (o.grid, o.nobs, o.buddy_mean, o.buddy_stdev)]
    return [[tuple(f.shape), 0.0, int((f != 0).sum())] for f in (o.grid, o.nobs, o.buddy_mean, o.buddy_stdev)]


add("a new superob is empty", dict(), empty_run, [SO + "__init__"], spec=lambda a: [[SHAPE, 0.0, 0]] * 4, samples=1, diff=False)


# --------------------------------------------------------------- the limits of a box

CNT, MEAN, TOT = fun("neighbours", *[I] * 7), fun("their mean", *[I] * 6 + [R]), fun("their number", *[I] * 7)
EACH, ERROR = fun("number of one", *[I] * 8), fun("error so far", *[I] * 7 + [R])
RADIUS = fun("radius", I, I, I)
RANK = fun("rank", I, I, I, I)
FIRST = fun("first row", I, I, I, I)
MULT = fun("row's multiplier", I, I, I, R)
FIXED = [([1, 1, 2], [0, 5, 15, 100], [4.0, 3.5, 3.0, 2.5]), ([2, 2, 2], [0], [4.0]),
         ([1, 1, 4], [0, 5, 15, 100], [4.0, 3.5, 3.0, 2.5]), ([2, 2, 4], [0], [4.0])]


class Some(object):
    """the averages, or the numbers, of the neighbours of a box within a radius"""
    __symbolic__ = True
    __ghost__ = True

    def __init__(self, which, key):
        self.which, self.key = which, key
        E = core.engine()
        E.assume(And(CNT(*key) >= 0, Implies(CNT(*key) > 0, TOT(*key) >= 1)))

    def __deepcopy__(self, memo):
        return self

    def slen(self):
        return CNT(*self.key)

    def __bool__(self):
        return bool(CNT(*self.key) > 0)

    def _only(self, w):
        if self.which != w:
            raise core.Unsupported("no such statistic of the neighbours")

    def smean(self):
        self._only("anomalies")
        core.engine().prove(CNT(*self.key) > 0, "the mean is of some neighbours", aux=True)
        return MEAN(*self.key)

    def ssum(self):
        self._only("numbers")
        return TOT(*self.key)

    def sget(self, i):
        self._only("numbers")
        x = EACH(*(self.key + (i,)))
        E = core.engine()
        E.assume(Implies(And(i >= 0, i < CNT(*self.key)), x >= 1))
        a = E.args
        if not hasattr(a, "f2"):
            return x
        s2 = a.f2.spread(self.key[3:])
        E.assume(Implies(x >= 1, ERROR(*(self.key + (i + 1,))) == ERROR(*(self.key + (i,))) + div(a.sigma * a.sigma, x) + a.noise * div(s2 * s2, x)))
        return x


class RowOf(object):
    """row j of a table of radii, limits or multipliers"""
    __symbolic__ = True
    __ghost__ = True

    def __init__(self, what, j):
        self.what, self.j = what, j

    def __deepcopy__(self, memo):
        return self


def radius_of(r):
    if isinstance(r, RowOf):
        if r.what != "limits":
            raise core.Unsupported("something else as a radius")
        return tuple(RADIUS(r.j, q) for q in range(3))
    if isinstance(r, (list, tuple)) and len(r) == 3:
        return tuple(r)
    raise core.Unsupported("a radius of another kind")


def see(a):
    """the contract of get_neighbour_anomalies"""
    c = (a.x, a.y, a.p)
    E = core.engine()
    E.prove(is_box(c), "the neighbours of a box are asked for", aux=True)
    key = radius_of(a.radius) + c
    return Some("anomalies", key), Some("numbers", key)


def multiplier(a):
    if isinstance(a.limits, RowOf) and isinstance(a.multipliers, RowOf):
        if a.limits.what != "thresholds" or a.multipliers.what != "multipliers":
            raise core.Unsupported("another table")
        core.engine().prove(a.total >= 1, "there are some observations", aux=True)
        return MULT(a.total, a.limits.j, a.multipliers.j)
    return row(a.total, list(a.limits), list(a.multipliers))


SEE = {SO + "get_neighbour_anomalies": stub(see, "self", "radius", "x", "y", "p")}
PENTAD = {"qc.pentad_to_month_day": stub(lambda a: monthday(a.p), "p")}
PM, PD = fun("month of pentad", I, I), fun("day of pentad", I, I)


def monthday(p):
    if not core.is_sym(p):
        return _contract.REAL.qc.pentad_to_month_day(int(p))
    core.engine().prove(And(p >= 1, p <= 73), "precondition of qc.pentad_to_month_day at its call")
    return PM(p), PD(p)


class SpreadField(object):
    """a field of standard deviations: missing and negative ones too"""
    __ghost__ = True

    def __init__(self, name, seed=None):
        self.name, self.seed = name, seed

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "SpreadField(%r, %r)" % (self.name, self.seed)

    def __concretize__(self, model):
        raise ValueError("a symbolic field")

    def raw(self, lat, lon, m, d):
        if self.seed is None:
            return fun("no " + self.name, R, R, I, I, B)(lat, lon, m, d), fun("value " + self.name, R, R, I, I, R)(lat, lon, m, d)
        h = (int(round(lat * 10)) * 7919 + int(round(lon * 10)) * 104729 + m * 131 + d * 17 + self.seed) % 1009
        return h % 7 == 0, -0.5 if h % 11 == 0 else 0.125 + (h % 40) / 16.

    def value(self, lat, lon, m, d):
        miss, x = self.raw(lat, lon, m, d)
        return None if bool(miss) else x

    get_value_mds_style = get_value = value

    def spread(self, c):
        """the standard deviation used for a box"""
        m, d = monthday(c[2] + 1)
        miss, x = self.raw(89.5 - c[1], -179.5 + c[0], m, d)
        return Ite(Or(miss, x < 0), 1.0, x)


class Spread(Desc):
    def sym(self, E, name):
        return SpreadField(name)

    def rand(self, rng, pool):
        return SpreadField("f", rng.randrange(1000))


class Table(Desc):
    """rows of radii, limits and multipliers"""

    def sym(self, E, name):
        n = E.int("a.rows")
        E.assume(n >= 0)
        return TableOf(n)

    def rand(self, rng, pool):
        if rng.random() < 0.4:
            rows = FIXED
        else:
            rows = []
            for _ in range(rng.randint(1, 4)):
                k = rng.randint(1, 3)
                rows.append(([rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 5)], [0] + sorted(rng.sample(range(1, 12), k - 1)),
                             [rng.choice([4.0, 3.5, 2.5, 1.0]) for _ in range(k)]))
        return rows


class TableOf(object):
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, n):
        self.n = n
        self.columns = [FnSeq(n, lambda j, w=w: RowOf(w, j)) for w in ("limits", "thresholds", "multipliers")]

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        raise ValueError("a symbolic table")

    def key(self, j, c):
        return tuple(RADIUS(j, q) for q in range(3)) + tuple(c)

    def first(self, c):
        """the first row within which the box has neighbours"""
        E = core.engine()
        f = FIRST(*c)
        E.assume(And(f >= 0, f <= self.n, Implies(f < self.n, CNT(*self.key(f, c)) > 0), CNT(*self.key(f, c)) >= 0,
                     Implies(f < self.n, TOT(*self.key(f, c)) >= 1)))
        return f

    def before_first(self, j, c):
        """the rows before it have none"""
        core.engine().assume(Implies(And(j >= 0, j < self.first(c)), CNT(*self.key(j, c)) <= 0))


def boxes_in_turn(g):
    """np.nonzero of the numbers of observations, as a list"""
    a = core.engine().args
    c = a.g.c
    N, rank = SNum(z3.Int("occupied"), "i"), RANK(*c)
    E = core.engine()
    occ = g.fn(*c) != 0
    X = [fun("box %d" % j, I, I) for j in range(3)]
    E.assume(And(N >= 0, Implies(occ, And(rank >= 0, rank < N, *[X[j](rank) == c[j] for j in range(3)]))))

    def at(j):
        def f(i):
            d = [x(i) for x in X]
            E = core.engine()
            E.assume(Implies(And(i >= 0, i < N), And(is_box(d), g.fn(*d) != 0, Or(i == rank, Not(And(*[p == q for p, q in zip(c, d)]))))))
            return d[j]
        return f
    o = Occupied(tuple(FnSeq(N, at(j)) for j in range(3)), lambda *d: g.fn(*d) != 0)
    o.fn = g.fn
    return o


def wanted(a, c):
    """(mean, standard deviation) of an occupied box: of the first row with neighbours"""
    t = a.table
    if isinstance(t, TableOf):
        J = t.first(c)
        key = t.key(J, c)
        return Ite(J < t.n, MEAN(*key), 0.0), Ite(J < t.n, MULT(TOT(*key), J, J) * a.sd.spread(c), 500.0)
    if isinstance(a.g, Boxes):
        m, s = 0.0, 500.0
        for r, l, k in reversed(t):
            key = tuple(r) + tuple(c)
            some_ = CNT(*key) > 0
            m, s = Ite(some_, MEAN(*key), m), Ite(some_, row(TOT(*key), l, k) * a.sd.spread(c), s)
        return m, s
    for r, l, k in t:
        ns = [(v, n) for d, v, n in a.g if near(d, c, r)]
        if ns:
            return sum(v for v, n in ns) / len(ns), row(sum(n for v, n in ns), l, k) * a.sd.spread(c)
    return 0.0, 500.0


def limits_setup(a):
    core.engine().memo["nonzero"] = boxes_in_turn


def limits_run(W, a):
    o = started(W, a)
    if isinstance(a.g, Boxes):
        limits_setup(a)
    if isinstance(a.table, TableOf):
        o.get_buddy_limits_with_parameters(a.sd, *a.table.columns)
    else:
        o.get_buddy_limits_with_parameters(a.sd, *[[x[j] for x in a.table] for j in range(3)])
    return cells(a, o)


def limits_spec(a):
    cs = [a.g.c] if isinstance(a.g, Boxes) else sorted(c for c, v, n in a.g)
    out = [[], [], [], []]
    for c in cs:
        v, n, m, s = before(a, c)
        w = wanted(a, c)
        occ = n != 0
        for col_, x in zip(out, (v, n, Ite(occ, w[0], m), Ite(occ, w[1], s))):
            col_.append(x)
    return [out, 0]


NAMES = ("buddy_mean", "buddy_stdev")


def now(v, c):
    return [getattr(v.self, x).fn(*c) for x in NAMES]


def forget(E, v, s):
    for x in NAMES:
        getattr(v.self, x).fn = fun(E.name(x), I, I, I, R)


def superobs_stay(v):
    m = core.engine().memo
    k = ("superobs", id(v.self))
    m.setdefault(k, (v.self, v.self.grid.fn, v.self.nobs.fn))
    return v.self.grid.fn is m[k][1] and v.self.nobs.fn is m[k][2]


def boxes_inv(v, s):
    a = core.engine().args
    c = a.g.c
    old = before(a, c)[2:]
    done = And(NUM(*c) != 0, RANK(*c) < s.i)
    return [("the superobs stay", superobs_stay(v))] + \
        [("%s of the box so far" % x, y == Ite(done, w, o)) for x, y, w, o in zip(NAMES, now(v, c), wanted(a, c), old)]


def rows_inv(v, s):
    a = core.engine().args
    c, t = a.g.c, a.table
    m = core.engine().memo
    if not isinstance(s.i, core.Sym):
        m["entry"] = now(v, c)
    cur = (v.xindex, v.yindex, v.pindex)
    J = t.first(cur)
    t.before_first(s.i, cur)
    t.before_first(s.i - 1, cur)
    key = t.key(J, cur)
    here = And(*[p == q for p, q in zip(c, cur)])
    want = MEAN(*key), MULT(TOT(*key), J, J) * v.stdev
    return [("the superobs stay", superobs_stay(v)), ("no row with neighbours yet", v.match_not_found == (J >= s.i))] + \
        [("%s of the box after some rows" % x, y == Ite(And(here, J < s.i), w, e)) for x, y, w, e in zip(NAMES, now(v, c), want, m["entry"])]


FREE = dict.fromkeys(("month", "day", "m", "d", "xindex", "yindex", "pindex", "stdev", "temp_anom", "temp_nobs", "total_nobs", "limit", "tot", "ntot",
                      "sigma_buddy", "n_obs", "stdev1_ex", "stdev2_ex", "stdev3_ex"), lambda E, v, s: None)
WP = SO + "get_buddy_limits_with_parameters#"
add("get_buddy_limits_with_parameters: the first row with neighbours", dict(g=Occup(), table=Table(), sd=Spread()), limits_run,
    [SO + "get_buddy_limits_with_parameters"], spec=limits_spec, samples=60, diff=False, tol=1e-9, budget=120,
    use=dict(SEE, **dict(PENTAD, **{"Extended_IMMA.get_threshold_multiplier": stub(multiplier, "total", "limits", "multipliers")})),
    loops={WP + "0": LoopSpec(boxes_inv, dict(FREE, _ghost=forget, match_not_found=lambda E, v, s: None), changes=("self",)),
           WP + "1": LoopSpec(rows_inv, dict(_ghost=forget, match_not_found=lambda E, v, s: E.bool("none yet"), limit=FREE["limit"],
                                             temp_anom=FREE["limit"], temp_nobs=FREE["limit"], total_nobs=FREE["limit"]), changes=("self",))})


class FixedTable(Desc):
    """the rows of the old style check"""

    def sym(self, E, name):
        return FIXED

    def rand(self, rng, pool):
        return FIXED


def old_run(W, a):
    o = started(W, a)
    if isinstance(a.g, Boxes):
        limits_setup(a)
    o.get_buddy_limits(a.sd)
    return cells(a, o)


add("get_buddy_limits: the first of the fixed rows with neighbours", dict(g=Occup(), table=FixedTable(), sd=Spread()), old_run,
    [SO + "get_buddy_limits"], spec=limits_spec, samples=60, diff=False, tol=1e-9, use=dict(SEE, **PENTAD), budget=120,
    loops={SO + "get_buddy_limits#0": LoopSpec(boxes_inv, dict(FREE, _ghost=forget, match_not_found=lambda E, v, s: None), changes=("self",))})


# ------------------------------------------------- the limits of the Bayesian check

ERR = dict(sigma=Real(0, 5, extra=(1.0,)), noise=Real(0, 10, extra=(3.0,)))


def bayes_wanted(a, c):
    """(mean, variance) of an occupied box; without neighbours 0 and 500 squared"""
    s1, s2, s3 = [f.spread(c) for f in (a.f1, a.f2, a.f3)]
    sm, k = a.sigma, a.noise
    if isinstance(a.g, Boxes):
        key = tuple(a.radius) + tuple(c)
        n, mean, some_ = CNT(*key), MEAN(*key), CNT(*key) > 0
        tot = ERROR(*(key + (n,)))
        n = core.tofloat(n)
    else:
        ns = [(v, m) for d, v, m in a.g if near(d, c, a.radius)]
        n, some_ = len(ns) or 1, len(ns) > 0
        mean, tot = sum(v for v, m in ns) / float(n), sum((sm * sm + k * (s2 * s2)) / m for v, m in ns)
    var = sm * sm + s1 * s1 + k * (s2 * s2) + (div(tot, n * n) + div(s3 * s3, n))
    return Ite(some_, mean, 0.0), Ite(some_, var, 250000.)


def new_run(W, a):
    o = started(W, a)
    if isinstance(a.g, Boxes):
        limits_setup(a)
    o.get_new_buddy_limits(a.f1, a.f2, a.f3, list(a.radius), a.sigma, a.noise)
    return cells(a, o)


def new_post(a, r):
    cs = [a.g.c] if isinstance(a.g, Boxes) else sorted(c for c, v, n in a.g)
    out = [("nothing else", r[1] == 0)]
    for j, c in enumerate(cs):
        v, n, m, s = before(a, c)
        got = [x[j] for x in r[0]]
        w = bayes_wanted(a, c)
        occ = n != 0
        e = 0 if core.is_sym(got[3]) else 1e-9 * max(1., w[1])
        out += [("the superobs stay", And(got[0] == v, got[1] == n)),
                ("mean of the neighbours", Ite(occ, abs(got[2] - w[0]) <= (0 if core.is_sym(got[2]) else 1e-9), got[2] == m)),
                ("standard deviation", Ite(occ, And(got[3] >= 0, abs(got[3] * got[3] - w[1]) <= e), got[3] == s))]
    return out


def new_boxes(v, s):
    a = core.engine().args
    c = a.g.c
    old = before(a, c)[2:]
    done = And(NUM(*c) != 0, RANK(*c) < s.i)
    m, sd = now(v, c)
    w = bayes_wanted(a, c)
    return [("the superobs stay", superobs_stay(v)), ("mean so far", m == Ite(done, w[0], old[0])),
            ("standard deviation so far", Ite(done, And(sd >= 0, sd * sd == w[1]), sd == old[1]))]


def new_sum(v, s):
    a = core.engine().args
    key = tuple(a.radius) + (v.xindex, v.yindex, v.pindex)
    core.engine().assume(ERROR(*(key + (0,))) == 0)
    return [("neighbours so far", v.ntot == s.i), ("error is not negative", v.tot >= 0),
            ("error so far", v.tot == ERROR(*(key + (s.i,))))]


NB = SO + "get_new_buddy_limits#"
add("get_new_buddy_limits: mean and spread of the neighbours", dict(ERR, g=Occup(), radius=Sphere(), f1=Spread(), f2=Spread(), f3=Spread()), new_run,
    [SO + "get_new_buddy_limits"], post=new_post, samples=60, diff=False, use=dict(SEE, **PENTAD), budget=120,
    loops={NB + "0": LoopSpec(new_boxes, dict(FREE, _ghost=forget), changes=("self",)),
           NB + "1": LoopSpec(new_sum, dict(n_obs=FREE["limit"], tot=lambda E, v, s: E.real("tot"), ntot=lambda E, v, s: E.real("ntot")))})


# ------------------------------------------------------------------ the two checks

class SymDeck(SymVoyage):
    """a deck of any number of reports; those that pass its filter have a place, a date and an anomaly"""

    def __init__(self, E, name, n):
        E.assume(n >= 0)
        self.empty = n
        SymVoyage.__init__(self, E, name, Ite(n > 0, n, 1))
        self.n = n

    def raw(self, name, i):
        if name in ("MO", "DY"):
            x = SNum(self._f(name, 1, I)(simp(i)), "i")
            core.engine().assume(And(x >= 1, x <= (12 if name == "MO" else 31)))
            return False, x
        return SymVoyage.raw(self, name, i)

    def passes(self, i):
        return core.mkb(self._f("passes", 1, B)(simp(i)))

    def anom(self, i):
        a = core.engine().args
        x = SNum(self._f("anomaly", 1, R)(simp(i)), "r")
        if hasattr(a, "err"):
            core.engine().assume(Implies(self.passes(i), And(x >= -a.err.hi, x <= a.err.hi)))
        return x

    def place(self, i):
        lat, lon = self.raw("LAT", i)[1], self.raw("LON", i)[1]
        return lat, Ite(lon > 180, lon - 360, lon), self.raw("MO", i)[1], self.raw("DY", i)[1]

    def times(self):
        """how often report k has been counted"""
        return core.engine().memo.setdefault("counted", 0)


class DeckRep(SymRep):
    def getvar(self, name):
        return self.sv.raw(name, self.i)[1]

    getext = None

    def getanom(self, name):
        if name != core.engine().args.what:
            raise core.Unsupported("another variable")
        return self.sv.anom(self.i)


class SymFilter(object):
    def __init__(self, sv):
        self.sv = sv

    def test_report(self, rep):
        return b(Not(self.sv.passes(rep.i)))


class DeckOf(Desc):
    def sym(self, E, name):
        return SymDeck(E, name, E.int("a.n"))

    def rand(self, rng, pool):
        x0, y0 = rng.choice([0.5, -179.5, 179.5, 20.5, 180.]), rng.choice([0.5, 89.5, 88.2, -89.7, 45., -90.])
        mo, dy = rng.choice([(1, 1), (12, 31), (2, 28), (6, 10)])
        out = []
        fine = (lambda x: round(4 * x) / 4.) if rng.random() < 0.6 else (lambda x: round(x, 1))
        for i in range(rng.randint(0, 12)):
            far = rng.choice([1, 2, 3, 5]) if abs(y0) < 85 else rng.choice([1, 5, 60, 180])
            m, d = rng.choice([(mo, dy), (mo, dy), (mo, dy), (1, 3), (12, 29), (2, 29), (3, 1), (6, 22), (6, 3)])
            lat = max(-90., min(90., y0 + rng.choice([0, 0, 1, -1, 2, -2, 3, 0.4])))
            if rng.random() < 0.1:
                lat = -lat
            lon = (x0 + rng.randint(-far, far) + 180) % 360 - 180
            out.append(dict(LAT=lat, LON=lon + 360 if lon < 0 and rng.random() < 0.2 else lon, YR=2003, MO=m, DY=d,
                            value=fine(rng.choice([0, 0, 1, -1, 5, -7]) + rng.uniform(-1, 1)), clim=rng.choice([0., 0., 0.5]), bad=rng.random() < 0.2))
        return out


def deck(W, a):
    ex = W.Extended_IMMA
    d = ex.Deck.__new__(ex.Deck)
    if isinstance(a.d, SymDeck):
        d.reps, d.filter, d.sym = FnSeq(a.d.n, lambda i: DeckRep(a.d, i)), SymFilter(a.d), a.d
        return d
    d = ex.Deck()
    f = ex.QC_filter()
    f.add_qc_filter("POS", "pos", 0)
    d.add_filter(f)
    for i, r in enumerate(a.d):
        x = ex.MarineReportQC(RecordOf(dict(ID="A", LAT=r["LAT"], LON=r["LON"], YR=r["YR"], MO=r["MO"], DY=r["DY"], **{a.what: r["value"]})))
        x.add_climate_variable(a.what, r["clim"])
        x.set_qc("POS", "pos", 1 if r["bad"] else 0)
        d.append(x)
    return d


BM, BS = fun("box mean", R, R, I, I, R), fun("box spread", R, R, I, I, R)
GROSS = fun("probability of gross error", *[R] * 8)


def counted(a):
    """the contract of add_rep at the deck's call"""
    sv = core.engine().args.d
    f = sv._f("anomaly", 1, R)
    e = a.anom.e if isinstance(a.anom, SNum) else None
    if e is None or not (z3.is_app(e) and e.decl().eq(f)):
        raise core.Unsupported("a report is counted with another anomaly")
    i = SNum(e.arg(0), "i")
    E = core.engine()
    if E.memo.get("stage"):
        raise core.Unsupported("a report is counted too late")
    want = sv.place(i)
    E.prove(And(a.lat == want[0], a.lon == want[1], a.month == want[2], a.day == want[3]), "a report is counted at its own place and date")
    E.memo["counted"] = sv.times() + b(i == sv.k)


def averaged(a):
    m = core.engine().memo
    if m.get("stage"):
        raise core.Unsupported("averages taken again")
    m["stage"] = "averaged"


def limited(*names):
    def f(a):
        E = core.engine()
        m, x = E.memo, E.args
        if m.get("stage") != "averaged":
            raise core.Unsupported("limits of something else")
        m["stage"] = "limited"
        E.prove(x.d.times() == b(And(x.d.k < x.d.n, x.d.passes(x.d.k))), "each report that passes is counted once, no other")
        for n, want in names:
            got, w = getattr(a, n), want(x)
            E.prove(got is w or bool(core.is_num(got) and core.is_num(w) and _same(got, w)), "the limits are worked out from the parameters given: %s" % n)
    return f


def _same(x, y):
    r = x == y
    return r if isinstance(r, bool) else core.engine().decide(core.boolexpr(r))[0] == "discharged"


def answer(f):
    def g(a):
        if core.engine().memo.get("stage") != "limited":
            raise core.Unsupported("a box's limits before they are known")
        x = f(a.lat, a.lon, a.month, a.day)
        if f is BS:
            core.engine().assume(x > 0)
        return x
    return g


def gross(a):
    x = [getattr(a, n) for n in ("p0", "q", "hi", "lo", "x", "mu", "sigma")]
    r = GROSS(*x)
    E = core.engine()
    E.prove(And(a.p0 >= 0, a.p0 <= 1, a.q > 0, a.hi > a.lo, a.x >= a.lo, a.x <= a.hi, a.sigma > 0), "precondition of qc.p_gross at its call")
    E.assume(And(r >= 0, r <= 1))
    return r


PL = ("self", "lat", "lon", "month", "day")
GRID = {SO + "__init__": stub(lambda a: None, "self"),
        SO + "add_rep": stub(counted, "self", "lat", "lon", "year", "month", "day", "anom"), SO + "take_average": stub(averaged, "self"),
        SO + "get_buddy_mean": stub(answer(BM), *PL), SO + "get_buddy_stdev": stub(answer(BS), *PL)}


def flags_of(a, d, name):
    if isinstance(a.d, SymDeck):
        return [a.d.flag((a.what, name)) if bool(a.d.n > 0) else 0]
    return [r.get_qc(a.what, name) for r in d.reps]


def gathered(v, s):
    sv = v.self.sym
    return [("counted so far", sv.times() == b(And(sv.k < s.i, sv.passes(sv.k)))), ("no averages yet", not core.engine().memo.get("stage"))]


def count_again(E, v, s):
    E.memo["counted"] = E.int("counted")


def flag_inv(name, want):
    def f(v, s, sv):
        a = core.engine().args
        key = (a.what, name)
        return [("flag of report k", sv.flag(key) == Ite(And(sv.k < s.i), want(a, sv, sv.k), sv.old(key))),
                ("the limits stay", core.engine().memo.get("stage") == "limited")]
    return f


def deck_loops(meth, name, want):
    fl = Flags([], [], flag_inv(name, want))
    fl.snapshot = lambda sv: ({k: x for k, x in sv.flags().items() if k != (core.engine().args.what, name)}, dict(sv.exts()))
    hav = fl.havoc

    def havoc(E, v, s):
        v.self.sym.flags()[(E.args.what, name)] = E.int("flag")
        return hav(E, v, s)
    fl.spec.hav["_ghost"] = havoc
    none = dict.fromkeys(("rep", "this_report", "lat", "lon", "mon", "day", "x", "bm", "bsd", "ppp", "flag"), lambda E, v, s: None)
    fl.spec.hav.update(none)
    return {DE + meth + "#0": LoopSpec(gathered, dict(none, _ghost=count_again)), DE + meth + "#1": fl.spec}


# --- an independent account of the whole check, for decks of a few reports

def boxes_of(a):
    g = {}
    for r in a.d:
        if not r["bad"]:
            h = tuple(int(x) for x in home(r["LAT"], r["LON"], r["MO"], r["DY"]))
            g.setdefault(h, []).append(r["value"] - r["clim"])
    return sorted((c, sum(v) / len(v), len(v)) for c, v in g.items())


def expected(a, limit, verdict):
    g = boxes_of(a)
    out = []
    for r in a.d:
        if r["bad"]:
            out.append(0)
            continue
        h = tuple(int(x) for x in home(r["LAT"], r["LON"], r["MO"], r["DY"]))
        m, s = limit(g, h)
        out.append(verdict(r["value"] - r["clim"], m, s))
    return out


def plain(x):
    """a number that arithmetic on a few of its kind leaves exact"""
    return float(x * 64).is_integer()


def ties(x, y, *others):
    if abs(x - y) < 1e-9 and not (x == y and all(plain(z) for z in (x, y) + others)):
        NEAR[0] = True


def mds_want(a, sv, i):
    p = sv.place(i)
    return Ite(And(sv.passes(i), abs(sv.anom(i) - BM(*p)) >= BS(*p)), 1, 0)


def mds_run(W, a):
    d = deck(W, a)
    t = a.table
    if isinstance(t, TableOf):
        par = dict(zip(("limits", "number_of_obs_thresholds", "multipliers"), t.columns))
    else:
        par = dict(zip(("limits", "number_of_obs_thresholds", "multipliers"), [[x[j] for x in t] for j in range(3)]))
    d.mds_buddy_check(a.what, a.sd, par)
    return flags_of(a, d, "bud")


def mds_spec(a):
    if isinstance(a.d, SymDeck):
        return [mds_want(a, a.d, a.d.k) if bool(a.d.n > 0) else 0]

    g = boxes_of(a)

    def verdict(x, m, s):
        ties(abs(x - m), s, m, *[v for c, v, n in g])
        return 1 if abs(x - m) >= s else 0
    return expected(a, lambda g, h: wanted(NS(g=g, table=a.table, sd=a.sd), h), verdict)


WHAT = Enum("SST", "AT", "DPT", "SLP")
add("mds_buddy_check: each report against the limits of its own box", dict(d=DeckOf(), what=WHAT, table=Table(), sd=Spread()), mds_run,
    [DE + "mds_buddy_check"], spec=mds_spec, samples=80, diff=False, guard=clear_of(mds_spec), loops=deck_loops("mds_buddy_check", "bud", mds_want),
    use=dict(GRID, **{SO + "get_buddy_limits_with_parameters": stub(limited(("pentad_stdev", lambda x: x.sd), ("limits", lambda x: x.table.columns[0]),
             ("number_of_obs_thresholds", lambda x: x.table.columns[1]), ("multipliers", lambda x: x.table.columns[2])),
             "self", "pentad_stdev", "limits", "number_of_obs_thresholds", "multipliers")}))


class Errors(Desc):
    """the parameters of the Bayesian check"""

    def sym(self, E, name):
        x = NS(**{n: E.real("a." + n) for n in ("p0", "q", "sigma", "hi", "noise")})
        E.assume(And(x.p0 >= 0, x.p0 <= 1, x.q > 0, x.sigma > 0, x.hi > 0, x.noise >= 0))
        x.radius = RowOf("radius", 0)
        return x

    def rand(self, rng, pool):
        return NS(p0=rng.choice([0., 0.05, 0.3, 0.9, 0.99, 1.0]), q=rng.choice([0.1, 1.0]), sigma=1.0, hi=rng.choice([8.0, 10.0, 15.]), noise=3.0,
                  radius=rng.choice([[2, 2, 4], [1, 1, 2], [3, 0, 1]]))


def bayes_verdict(p):
    """the probability in tenths, rounded down, at most 9"""
    if core.is_sym(p):
        k = Floor(p * 10)
        return Ite(k > 9, 9, k)
    t = p * 10
    if abs(t - round(t)) < 1e-6 and 1 <= round(t) <= 9:
        NEAR[0] = True
    return min(9, int(math.floor(t)))


def bayes_sym(a, sv, i):
    p = sv.place(i)
    e = a.err
    return Ite(sv.passes(i), bayes_verdict(GROSS(e.p0, e.q, e.hi, -e.hi, sv.anom(i), BM(*p), BS(*p))), 0)


def bayes_run(W, a):
    d = deck(W, a)
    e = a.err
    par = {"bayesian_buddy_check": {"prior_probability_of_gross_error": e.p0, "quantization_interval": e.q, "measurement_error": e.sigma,
                                    "limits": e.radius, "noise_scaling": e.noise}, a.what: {"maximum_anomaly": e.hi}}
    d.bayesian_buddy_check(a.what, a.f1, a.f2, a.f3, par)
    return flags_of(a, d, "bbud")


def bayes_spec(a):
    if isinstance(a.d, SymDeck):
        return [bayes_sym(a, a.d, a.d.k) if bool(a.d.n > 0) else 0]
    e = a.err

    def limit(g, h):
        m, var = bayes_wanted(NS(g=g, radius=e.radius, sigma=e.sigma, noise=e.noise, f1=a.f1, f2=a.f2, f3=a.f3), h)
        return m, math.sqrt(var)
    return expected(a, limit, lambda x, m, s: bayes_verdict(_contract.REAL.qc.p_gross(e.p0, e.q, e.hi, -e.hi, x, m, s)))


add("bayesian_buddy_check: each report's probability of gross error in tenths",
    dict(d=DeckOf(), what=Enum("SST", "AT"), err=Errors(), f1=Spread(), f2=Spread(), f3=Spread()), bayes_run, [DE + "bayesian_buddy_check"],
    pre=lambda a: isinstance(a.d, SymDeck) or all(abs(r["value"] - r["clim"]) <= a.err.hi for r in a.d),
    spec=bayes_spec, samples=80, diff=False, guard=clear_of(bayes_spec), loops=deck_loops("bayesian_buddy_check", "bbud", bayes_sym),
    use=dict(GRID, **{"qc.p_gross": stub(gross, "p0", "q", "hi", "lo", "x", "mu", "sigma"),
                      SO + "get_new_buddy_limits": stub(limited(("f1", lambda x: x.f1), ("f2", lambda x: x.f2), ("f3", lambda x: x.f3),
                                                                ("radius", lambda x: x.err.radius), ("sigma", lambda x: x.err.sigma),
                                                                ("noise", lambda x: x.err.noise)),
                                                        "self", "f1", "f2", "f3", "radius", "sigma", "noise")}))
