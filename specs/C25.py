"""C25: voyages. Adding, sorting, derived motion, mean speed, prediction, access by position."""
import datetime
import z3
from .voyage import *
from .report import AnyReport, State, get, rep
from pyvc.seqs import Seq
from pyvc import contract as _contract
from . import C10 as _track

CONTRACTS = Specs()
add = CONTRACTS.add
MR, VO = "Extended_IMMA.MarineReport.", "Extended_IMMA.Voyage."
EXT = list(SUBS)


# ------------------------------------------------- the motion between two reports

SPHERE, COURSE, HOURS, AHEAD = ("spherical_geometry.sphere_distance", "spherical_geometry.course_between_points",
                                "qc.time_difference", "spherical_geometry.lat_lon_from_course_and_distance")


def unk(name, *xs):
    """for symbols, the callee's result: a function of its arguments (its contract is in C04, C09)"""
    es = [core.real(*core.lift(x)) for x in xs]
    return core.SNum(z3.Function(name, *([z3.RealSort()] * (len(es) + 1)))(*es), "r")


def far(a, b_, c, d):
    return unk("distance", a, b_, c, d)


def hours(*xs):
    """missing when an hour is"""
    if xs[3] is None or xs[7] is None:
        return None
    return unk("hours", *xs)


def stub(spec, *names):
    return Contract("stub", dict.fromkeys(names), None, [], spec=spec)


GEO = {SPHERE: stub(lambda a: far(a.a, a.b, a.c, a.d), "a", "b", "c", "d"),
       COURSE: stub(lambda a: unk("course", a.a, a.b, a.c, a.d), "a", "b", "c", "d"),
       HOURS: stub(lambda a: hours(*[getattr(a, x) for x in "abcdefgh"]), *"abcdefgh")}


def east(x):
    return Ite(x > 180, x - 360, x)


def motion(s, t):
    """speed, distance, course and hours from report t to report s"""
    x = [get(t, "LAT"), east(get(t, "LON")), get(s, "LAT"), east(get(s, "LON"))]
    when = [get(r, n) for r in (t, s) for n in ("YR", "MO", "DY", "HR")]
    if isinstance(s, State):
        d, c, h = far(x[2], x[3], x[0], x[1]), unk("course", *x), hours(*when)
    else:
        from pyvc.contract import REAL
        d = REAL.spherical_geometry.sphere_distance(*x)
        c = REAL.spherical_geometry.course_between_points(*x)
        h = truth(when)
    if h is None or bool(h == 0):
        return [d, d, c, 0.0]
    return [div(d, h), d, c, h]


def truth(w):
    """true hours between two times"""
    if any(x is None for x in w):
        return None
    try:
        a, b_ = datetime.date(*[int(x) for x in w[:3]]), datetime.date(*[int(x) for x in w[4:7]])
    except ValueError:
        return None
    return 24.0 * (b_.toordinal() - a.toordinal()) + w[7] - w[3]


def sub_run(W, a):
    return list(rep(W, a.s) - rep(W, a.t))


PLACE = ("LAT", "LON", "YR", "MO", "DY", "HR")
ANY = lambda: AnyReport(only=PLACE, full=("LAT", "LON", "YR", "MO", "DY"), extra={"LAT": [0., 10., 89.9, -45.], "LON": [0., 179.9, 181., -180., 359.9]})
add("the motion from one report to another", dict(s=ANY(), t=ANY()), sub_run, [MR + "__sub__", MR + "lat", MR + "lon"],
    spec=lambda a: motion(a.s, a.t), use=GEO, samples=1500, tol=1e-6, diff=False, exactness=False,
    pre=lambda a: And(*[validdate(get(r, "YR"), get(r, "MO"), get(r, "DY")) for r in (a.s, a.t)]))


# ------------------------------------------------------------ adding a report

class Grow(FnSeq):
    """the list of reports, which may be added to"""

    def __init__(self, n, f):
        FnSeq.__init__(self, n, f)
        self.more = []

    def slen(self):
        return self.n + len(self.more)

    def append(self, x):
        self.more.append(x)

    def sget(self, i):
        for j, x in enumerate(self.more):
            if bool(i == self.n + j):
                return x
        return self.f(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise core.Unsupported("slice of a list of reports")
        n = self.slen()
        if bool(Or(i >= n, i < -n)):
            raise IndexError("list index out of range")
        return self.sget(i + n if bool(i < 0) else i)


def grown(W, v):
    o = W.Extended_IMMA.Voyage.__new__(W.Extended_IMMA.Voyage)
    o.reps = Grow(v.n, lambda i: SymRep(v, i))
    o.sym = v
    return o


class SymGrown(Track):
    """a voyage of n reports; report k followed may be the next one"""

    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n >= self.lo)
        v = SymVoyage(E, name, n + 1)
        v.n = n
        return v


def add_run(W, a):
    if isinstance(a.v, SymVoyage):
        o = grown(W, a.v)
        o.add_report(SymRep(a.v, a.v.n))
        return o
    o = W.Extended_IMMA.Voyage()
    made = [W.Extended_IMMA.MarineReport(RecordOf(dict(r))) for r in a.v]
    for r in made:
        o.add_report(r)
    return made, o


def between(V, k, name):
    """(missing, value)"""
    if not core.is_sym(k):
        return (True, 0.0) if k == 0 else (False, V.sub(k, k - 1)[SUBS.index(name)])
    return k == 0, V.sub(k, k - 1)[SUBS.index(name)]


def add_post(a, r):
    if isinstance(a.v, SymVoyage):
        V, n, k = a.v, a.v.n, a.v.k
        out = [("one report more", r.reps.slen() == n + 1), ("it is the last", r.reps.sget(n).i == n),
               ("the others stay", r.reps.sget(k).i == k)]
        for x in EXT:
            want = between(V, k, x)
            was = (core.mkb(z3.Bool("no old." + x)), core.SNum(z3.Real("old." + x), "r"))
            out.append(("%s of the new report and of no other" % x,
                        Ite(k == n, same_opt(V.ext(x), want), same_opt(V.ext(x), was))))
        return out
    made, o = r
    return whole(made, o, True)


def whole(made, o, same_order):
    """each report once; the motion is between neighbours"""
    order = list(o.reps)
    out = [("each report once", len(order) == len(made) and sorted(map(id, order)) == sorted(map(id, made)))]
    if same_order:
        out.append(("in the order added", [id(r) for r in order] == [id(r) for r in made]))
    V = ConcVoyage(o)
    for x in EXT:
        want = [between(V, i, x) for i in range(V.n)]
        got = [o.getvar(i, x) for i in range(V.n)]
        out.append(("%s between neighbours" % x, all((g is None) == m and (m or g == w or (g != g and w != w))
                                                     for g, (m, w) in zip(got, want))))
    return out


add("add_report: the motion from the last report to the new one", dict(v=SymGrown(0, 8)), add_run, [VO + "__init__", VO + "add_report"],
    post=add_post, samples=200, diff=False)


# ------------------------------------------------------------------- sorting

class Sortable(FnSeq):
    """the list of reports; sort is Python's, on the order of C20: some arrangement of the same reports, in order"""

    def __init__(self, v):
        FnSeq.__init__(self, v.n, lambda i: SymRep(v, i))
        self.v, self.sorted = v, False

    def sort(self, key=None, reverse=False):
        if key is not None or reverse:
            raise core.Unsupported("sort with a key")
        self.sorted = True


class Shuffled(Track):
    """also: sorted more than once on the way"""

    def rand(self, rng, pool):
        r = Track.rand(self, rng, pool)
        for x in r:
            if rng.random() < 0.1:
                x["ID"] = rng.choice(["A", "SHIP2", "SHIP12345"])
            if rng.random() < 0.05:
                del x["HR"]
        k = rng.random()
        if k < 0.6:
            rng.shuffle(r)
        elif k < 0.75:
            r.reverse()
        return r


def sort_run(W, a):
    if isinstance(a.v, SymVoyage):
        o = W.Extended_IMMA.Voyage.__new__(W.Extended_IMMA.Voyage)
        o.reps = Sortable(a.v)
        o.sym = a.v
        o.sort()
        return o
    o = W.Extended_IMMA.Voyage()
    made = [W.Extended_IMMA.MarineReport(RecordOf(dict(r))) for r in a.v]
    for i, r in enumerate(made):
        o.add_report(r)
        if a.again and i % a.again == 0:
            o.sort()
    o.sort()
    return made, o


def instant(r):
    return r.getvar("ID"), (r.dt is not None), r.dt if r.dt is not None else 0


def sort_post(a, r):
    if isinstance(a.v, SymVoyage):
        V = a.v
        return [("sorted, the same list", isinstance(r.reps, Sortable) and r.reps.sorted)] + \
            [("%s between neighbours" % x, same_opt(V.ext(x), between(V, V.k, x))) for x in EXT]
    made, o = r
    return whole(made, o, False) + [("in order", all(instant(x) <= instant(y) for x, y in zip(o.reps, o.reps[1:]))),
                                    ("equals stay as they were", a.again or [id(x) for x in o.reps] == [id(x) for x in sorted(made, key=instant)])]


def sort_inv(v, s, sv):
    out = []
    k = sv.k
    for x in EXT:
        m, val = sv.ext(x)
        out.append(("%s so far" % x, Implies(k < 1 + s.i, same_opt((m, val), between(sv, k, x)))))
    return out


add("sort: time order, the motion worked out again", dict(v=Shuffled(0, 9), again=Enum(0, 1, 2, 3)), sort_run, [VO + "sort"], post=sort_post, samples=300,
    diff=False, loops={VO + "sort#0": floop(sort_inv, exts=EXT)})


# ---------------------------------------------------------------- mean speed

def mean_run(W, a):
    if W.symbolic:
        o = W.Extended_IMMA.Voyage.__new__(W.Extended_IMMA.Voyage)
        o.reps = FnSeq(a.speeds.slen(), lambda i: None)
        core.engine().memo["speeds"] = a.speeds
        return o.meansp()
    return voy_of(W, a).meansp()


def voy_of(W, a):
    o = W.Extended_IMMA.Voyage()
    for i, x in enumerate(a.speeds):
        r = W.Extended_IMMA.MarineReport(RecordOf(dict(ID="A", LAT=0., LON=0.)))
        r.setext("speed", None if i == 0 else x)
        o.reps.append(r)
    return o


def mean_spec(a):
    n = a.speeds.slen() if hasattr(a.speeds, "slen") else len(a.speeds)
    if bool(n <= 1):
        return None
    return div(total(a.speeds, 1, n), n - 1)


from pyvc.seqs import total  # noqa: E402

add("meansp: the mean of all speeds but the first report's", dict(speeds=Seq(Real(0, 80), 0, sample=range(0, 9))), mean_run, [VO + "meansp"],
    spec=mean_spec, use={VO + "get_speed": stub(lambda a: core.engine().memo["speeds"], "self")}, diff=False, tol=1e-9)


# ---------------------------------------------------------------- prediction

def next_run(W, a):
    v = voyage(W, a.v)
    return list(v.predict_next_point(a.dt))


def ahead(lat, lon, course, dist):
    return [unk("ahead lat", lat, lon, course, dist), unk("ahead lon", lat, lon, course, dist)]


def next_spec(a):
    V = view(a.v)
    if bool(V.n == 0) or bool(a.dt < 0):
        return Raised("AssertionError")
    g = lambda i: [V.get("LAT", i), east(V.get("LON", i))]
    if bool(V.n == 1):
        return g(0)
    x = V.sub(V.n - 1, V.n - 2)
    if bool(abs(x[3]) < 0.00001):
        return g(V.n - 1)
    p, d = g(V.n - 2), x[0] * (x[3] + a.dt)
    if isinstance(V, SymVoyage):
        return ahead(p[0], p[1], x[2], d)
    return list(_contract.REAL.spherical_geometry.lat_lon_from_course_and_distance(p[0], p[1], x[2], d))


class Maybe(Track):
    def sym(self, E, name):
        if E.choose(2):
            v = Track.sym(self, E, name)
            E.assume(v.n >= 1)
            return v
        return NoReports()


class NoReports(SymVoyage):
    def __init__(self):
        self.n = 0


add("predict_next_point: along the course and at the speed of the last two reports", dict(v=Maybe(0, 6, value=None), dt=Real(-5, 200, extra=(0., 1e-6))),
    next_run, [VO + "predict_next_point"], spec=next_spec, use={AHEAD: stub(lambda a: tuple(ahead(a.a, a.b, a.c, a.d)), "a", "b", "c", "d")},
    samples=400, diff=False, tol=1e-6, exactness=False)


# -------------------------------------------------------- access by position

def access_run(W, a):
    v = voyage(W, a.v)
    n = len(a.v) if not isinstance(a.v, SymVoyage) else a.v.n
    p = a.p
    r = v.getrep(p)
    feed = v.rep_feed()
    before = v.getvar(p, "SST")
    out = [v.last_rep() is v.reps[n - 1] if not isinstance(a.v, SymVoyage) else v.last_rep().i == n - 1]
    if not isinstance(a.v, SymVoyage):
        out += [r is v.reps[p], before is v.reps[p].getvar("SST"), list(feed) == v.reps, len(v) == n]
        v.setvar(p, "SST", 1.5)
        v.set_qc(p, "SST", "clim", 3)
        out += [v.getvar(p, "SST") == 1.5, v.get_qc(p, "SST", "clim") == 3, v.reps[p].getvar("SST") == 1.5,
                v.reps[p].get_qc("SST", "clim") == 3] + \
            [v.reps[i].get_qc("SST", "clim") == 9 and v.reps[i].getvar("SST") == (a.v[i].get("SST")) for i in range(n) if i != p]
        return out
    m, x = a.v.raw("SST", p)
    same = (before is None) if bool(m) else before == x
    old = a.v.flag(("SST", "clim"))
    v.set_qc(p, "SST", "clim", 3)
    return out + [r.i == p, same, a.v.flag(("SST", "clim")) == Ite(a.v.k == p, 3, old)]


class At(Desc):
    def sym(self, E, name):
        return E.int("a." + name)

    def rand(self, rng, pool):
        return rng.randint(0, 5)


add("access by position reaches the report there, and no other", dict(v=Track(1, 6), p=At()), access_run,
    [VO + n for n in ("getrep", "last_rep", "getvar", "setvar", "set_qc", "get_qc", "rep_feed", "__len__")],
    pre=lambda a: And(a.p >= 0, a.p < (a.v.n if isinstance(a.v, SymVoyage) else len(a.v))), post=lambda a, r: And(*r), samples=200, diff=False)

# ------------------------------- estimates from reported speeds and courses (also C10)
for _c in _track.CONTRACTS:
    if _c.name in ("distr1", "distr2", "midpt", "get_speed", "calc_alternate_speeds"):
        CONTRACTS.append(_c)
