"""C13: the aground and speed checks of drifting buoys.

Followed: the flag of one arbitrary report k. Times are hours since the first report, positions those reported (speed
checks) or medians of smooth_win successive ones (aground checks)."""
import z3
from .voyage import *
from pyvc import arrays, contract as _contract
from pyvc.arrays import forall, mention, filled, same, valid
from pyvc.core import SNum
from pyvc.seqs import FnSeq, Ghost, ghost, glen

CONTRACTS = Specs()
add = CONTRACTS.add
TQ = "trackqc."
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ix = lambda x: z3.simplify(core.lift(x)[0])


# ------------------------------------------------------------- the buoy's record

class Buoy(SymVoyage):
    """reports whose positions and time differences may be missing, in any order of time"""

    def raw(self, name, i):
        if name in ("LAT", "LON", "time_diff"):
            e = ix(i)
            x = SNum(self._f(name, 1, R)(e), "r")
            if name != "time_diff" and (name, str(e)) not in self.seen:
                self.seen.add((name, str(e)))
                core.engine().assume(core.boolexpr(And(x >= (-90 if name == "LAT" else -180), x <= (90 if name == "LAT" else 360))))
            return core.mkb(self._f("no " + name, 1, B)(e)), x
        return SymVoyage.raw(self, name, i)

    def absent(self, i):
        """there is no time difference at all, not even a missing one"""
        return core.mkb(self._f("absent time_diff", 1, B)(ix(i)))

    def td(self, i):
        """(missing, value) of the time since the report before"""
        m, x = self.raw("time_diff", i)
        return And(i != 0, m), Ite(i == 0, 0.0, x)

    def bad(self, i):
        """report i cannot be used"""
        m, x = self.raw("time_diff", i)
        return Or(self.raw("LAT", i)[0], self.raw("LON", i)[0], And(i != 0, Or(self.absent(i), m, x < 0)))

    # --- times since the first report, in order (time differences being 0 or more)
    def T(self, i):
        E = core.engine()
        f = self._f("hours", 1, R)
        e = ix(i)
        known = E.memo.setdefault("times", [])
        x = SNum(f(e), "r")
        if not any(e.eq(k) for k in known):
            if not known:
                known.append(z3.IntVal(0))
                E.assume(f(z3.IntVal(0)) == 0)
            for k in known:
                E.assume(z3.And(z3.Implies(e <= k, f(e) <= f(k)), z3.Implies(k <= e, f(k) <= f(e))))
            known.append(e)
        return x

    def F(self, i):
        """the verdict of the track check on the record as that of a ship"""
        x = SNum(self._f("track flag", 1, I)(ix(i)), "i")
        core.engine().assume(core.boolexpr(Or(x == 0, x == 1)))
        return x

    def med(self, name, lo, n):
        return SNum(self._f("median." + name, 2, R)(ix(lo), ix(n)), "r")


def dist(a):
    xs = [a.lat1, a.lon1, a.lat2, a.lon2]
    if not core.has_sym(xs):
        return _contract.REAL.spherical_geometry.sphere_distance(*xs)
    E = core.engine()
    r = SNum(z3.Function("distance", R, R, R, R, R)(*[core.real(*core.lift(x)) for x in xs]), "r")
    E.assume(r.e >= 0)
    return r


DIST = {"spherical_geometry.sphere_distance": Contract("stub", dict(lat1=None, lon1=None, lat2=None, lon2=None), None, [], spec=dist)}


def sphere(*xs):
    return dist(NS(**dict(zip(("lat1", "lon1", "lat2", "lon2"), xs))))


class BuoyRep(SymRep):
    def getvar(self, name):
        if name in ("LAT", "LON"):
            return Lazy(*self.sv.raw(name, self.i))
        return SymRep.getvar(self, name)

    def getext(self, name):
        if name != "time_diff":
            raise core.Unsupported(name)
        E = core.engine()
        if bool(And(self.i != 0, self.sv.absent(self.i))):
            E.memo.setdefault("witnesses", []).append(self.i)
            raise AssertionError("unknown extended variable name time_diff")
        return Lazy(*self.sv.raw(name, self.i))

    def get_qc(self, t, f):
        E = core.engine()
        if E.branch(core.boolexpr(self.i == self.sv.k)):
            return self.sv.flag((t, f))
        return E.int("flag of another")


class Drift(Desc):
    """a drifting buoy: still or moving for stretches, with the odd jump and gap"""

    def __init__(self, hi=14):
        self.hi = hi

    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n.e >= 1)
        return Buoy(E, name, n)

    def rand(self, rng, pool):
        import datetime
        n = rng.randint(1, self.hi)
        lat, lon, t = rng.choice([0., 40.25, -60.5, rng.uniform(-80, 80)]), rng.choice([0., 179.99, -179.995, 20.]), 0.
        step = rng.choice([1., 3., 6., 12., 24., 48.])
        move = rng.random() < 0.5
        out = []
        for i in range(n):
            d = datetime.datetime(2003, 12, 28) + datetime.timedelta(hours=t)
            r = dict(ID="BUOY12345", UID="U%d" % i, PT=7, YR=d.year, MO=d.month, DY=d.day, HR=d.hour + d.minute / 60.,
                     LAT=round(lat, 4), LON=round((lon + 180) % 360 - 180, 4))
            if rng.random() < 0.08:
                r["LAT"] = round(r["LAT"] + rng.choice([-1, 1, 3, 0.02]), 3)
            out.append(r)
            if rng.random() < 0.3:
                move = not move
            v = rng.choice([0.3, 1.0, 4.0, 15.]) * step / 111. if move else rng.choice([0, 0, 0.001, 0.005])
            lat = max(-85, min(85, lat + v * rng.choice([1, -1, 0.5])))
            lon += v * rng.choice([1, -1, 0.5])
            t += step if rng.random() < 0.8 else rng.choice([0., 0.5, step / 2, 3 * step, 72.])
        x = rng.random()
        if x < 0.04 and n > 1:
            out[0], out[-1] = out[-1], out[0]
        elif x < 0.08:
            out[rng.randrange(n)]["drop"] = rng.choice(["LAT", "LON"])
        elif x < 0.10 and n > 1:
            out[rng.randrange(1, n)]["notime"] = rng.choice(["absent", None])
        return out


def buoy(W, recs):
    v = build(W, [{k: x for k, x in r.items() if k not in ("drop", "notime")} for r in recs])
    for r, d in zip(v.reps, recs):
        if "drop" in d:
            r.setvar(d["drop"], None)
        if "notime" in d:
            if d["notime"] == "absent":
                r.ext.pop("time_diff", None)
            else:
                r.setext("time_diff", None)
    return v


def flags_of(v, flag):
    return [r.get_qc("POS", flag) for r in v.reps]


class CopyRep(BuoyRep):
    """a copy of a report, changed freely"""

    def __init__(self, sv, i):
        BuoyRep.__init__(self, sv, i)
        self.now = {}

    def setvar(self, name, val):
        self.now[name] = val

    def set_qc(self, t, f, val):
        self.now[t, f] = val

    def get_qc(self, t, f):
        if (t, f) != ("POS", "iquam_track") or not core.engine().memo.get("iquam"):
            raise core.Unsupported("flag of a copy")
        return self.sv.F(self.i)


class Shadow(object):
    """The voyage made of the copies: C25's contract of add_report and C11's of iquam_track_check."""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self):
        self.count = 0

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise core.Unsupported("%s of a voyage of copies" % name)

    def add_report(self, rep):
        E = core.engine()
        if not isinstance(rep, CopyRep):
            raise core.Unsupported("a report that is no copy")
        E.prove(rep.i == self.count, "the copies are added in order", aux=True)
        if rep.now != {"PT": 5, ("POS", "iquam_track"): 0}:
            raise core.Unsupported("a copy that is not a ship without track flag")
        self.count = self.count + 1

    def iquam_track_check(self, parameters):
        E = core.engine()
        E.prove(self.count == E.args.v.n, "all copies are in the voyage checked", aux=True)
        E.prove(parameters is E.memo["P"].iquam_parameters, "with the parameters given", aux=True)
        E.memo["iquam"] = True

    def rep_feed(self):
        V = core.engine().args.v
        return FnSeq(self.count, lambda i: CopyRep(V, i))


# ------------------------------------------------------------- running a check

def recog(V):
    def f(op, arr, *more):
        if op == "cumsum":
            if same(arr, V.td, V.n):
                g = arrays.generic("td")
                if valid(Implies(And(g >= 0, g < V.n), Or(g == 0, usable(V, g)))):
                    return arrays.SymArr(V.n, lambda j: (False, V.T(j)))
        if op == "median" and isinstance(arr, arrays.View):
            for name in ("LAT", "LON"):
                if same(arr, lambda j: V.raw(name, arr.lo + j)):
                    return V.med(name, arr.lo, arr.n)
        return None
    return f


def usable(V, g):
    """by the facts found so far, report g is usable"""
    mention(g)
    m, x = V.td(g)
    return And(Not(m), x >= 0)


def run(fn, flag, *names):
    def f(W, a):
        E = core.engine()
        P = [getattr(a, x) for x in names]
        if isinstance(a.v, SymVoyage):
            V = a.v
            E.memo["arrays"] = True
            E.memo["recognise"] = recog(V)
            E.memo["P"] = a
            reps = Reps(V)
        else:
            v = buoy(W, a.v)
            reps = v.reps
        try:
            getattr(W.trackqc, fn)(reps, *P)
        except AssertionError as err:
            return "refused", (V if isinstance(a.v, SymVoyage) else flags_of(v, flag))
        return "done", (V if isinstance(a.v, SymVoyage) else flags_of(v, flag))
    return f


class Reps(FnSeq):
    """the list of reports, or a copy of it"""

    def __init__(self, V, copied=False):
        FnSeq.__init__(self, V.n, lambda i: CopyRep(V, i) if copied else BuoyRep(V, i))
        self.V = V

    def __deepcopy__(self, memo):
        return Reps(self.V, True)


def verdict(flag, params_ok, short, want, cspec):
    """post of a check: want(V, a) the flag of report k; cspec(V, a) the flags of all"""
    key = ("POS", flag)

    def post(a, r):
        how, got = r
        if not isinstance(a.v, SymVoyage):
            w = cspec(a)
            return [("the flags, or refused without any", r == (("refused", [9] * len(a.v)) if w is None else ("done", w)))]
        V, E = a.v, core.engine()
        if how == "refused":
            ws = E.memo.get("witnesses", [])
            return [("only bad parameters or reports are refused", Or(Not(params_ok(a)), And(Not(short(V, a)), Or(*[And(w >= 0, w < V.n, V.bad(w)) for w in ws])))),
                    ("without flags", key not in V.flags() and not V.flags())]
        mention(V.k)
        others = [k for k in V.flags() if k != key]
        return [("parameters allowed", params_ok(a)), ("no bad report", Or(short(V, a), Not(V.bad(V.k)))),
                ("no other flag", not others and not V.exts()),
                ("flag as specified", V.flag(key) == Ite(short(V, a), 0, Ite(want(V, a), 1, 0)))]
    return post


def fill_loop():
    def V():
        return core.engine().args.v
    hv, inv = filled(lon=lambda i, j: (Or(j >= i, V().raw("LON", j)[0]), V().raw("LON", j)[1]),
                     lat=lambda i, j: (Or(j >= i, V().raw("LAT", j)[0]), V().raw("LAT", j)[1]),
                     hrs=lambda i, j: (Or(j >= i, V().td(j)[0]), V().td(j)[1]))
    g = arrays.generic
    mark = {}

    def present(v, s):
        """every report seen had a time difference (else the loop would have ended)"""
        E = core.engine()
        if not isinstance(s.i, core.Sym):
            return True
        if "seen" not in E.memo:
            E.memo["seen"] = E.int("seen")
        j = E.memo["seen"]
        return Implies(And(j >= 1, j < s.i), Not(V().absent(j)))

    def entry(E, v, s):
        E.memo.pop("absence", None)

    def full(v, s):
        return inv(v, s) + [("time differences found", present(v, s))]

    def out(v, s):
        n = V().n
        forall(lambda j: Implies(And(j >= 1, j < n), Not(V().absent(j))))
    return LoopSpec(full, hv, onexit=out)


class KFlags(Flags):
    def sv(self, v):
        return core.engine().args.v


def kloop(inv, keys=(), havoc=None, **kw):
    return KFlags(keys, (), inv, havoc, **kw).spec


def zero_loop(key):
    return kloop(lambda v, s, V: [("flags so far", Implies(V.k < s.i, V.flag(key) == 0))], keys=[key])


# ------------------------------------------------------------------ aground

AGR = ("POS", "drf_agr")
TOL = _contract.REAL.spherical_geometry.sphere_distance(0, 0, 0.01, 0.01)


class Smooth(object):
    """the smoothed record, and where the buoy came to rest (new: against the last report; else within windows)"""

    def __init__(self, V, a, new):
        E = core.engine()
        self.V, self.a, self.new = V, a, new
        self.w = a.smooth_win
        self.half = (self.w - 1) // 2
        self.m = V.n - self.w + 1
        self.minh = a.min_win_period * 24
        self.lasts = []
        m = self.m
        # the first report from which the record is too short
        e = self.e = E.int("e")
        E.assume(core.boolexpr(And(e >= 0, e < m, self.H(m - 1) - self.H(e) < self.minh,
                                   Or(e == 0, self.H(m - 1) - self.H(e - 1) >= self.minh))))
        # the last report after which it moved, and the first assessed still after that
        p, s = self.p, self.s = E.int("p"), E.int("s")
        E.assume(core.boolexpr(And(p >= -1, p < s, s <= e)))
        E.assume(core.boolexpr(Or(p == -1, self.moved(p))))
        E.assume(core.boolexpr(Or(s == e, self.still(s))))
        forall(lambda j: And(Implies(And(j > p, j < s), Not(self.still(j))), Implies(And(j > p, j < e), Not(self.moved(j)))), "j")

    def H(self, j):
        return self.V.T(j + self.half)

    def last(self, j):
        """the last report within the longest window from j"""
        E = core.engine()
        if self.new:
            return self.m - 1
        L = SNum(z3.Function("last", I, I)(ix(j)), "i")
        if not any(ix(j).eq(x) for x in self.lasts):
            self.lasts.append(ix(j))
            lim = self.H(j) + self.a.max_win_period * 24
            m = self.m
            E.assume(core.boolexpr(Implies(And(j >= 0, j < m), And(L >= j, L < m, self.H(L) <= lim))))
            forall(lambda i: Implies(And(j >= 0, j < m, i > L, i < m), self.H(i) > lim))
        return L

    def pos(self, j):
        return self.V.med("LAT", j, self.w), self.V.med("LON", j, self.w)

    def assessed(self, j):
        return And(j >= 0, j < self.e, True if self.new else self.H(self.last(j)) - self.H(j) >= self.minh)

    def gone(self, j):
        return sphere(*(self.pos(j) + self.pos(self.last(j))))

    def moved(self, j):
        return And(self.assessed(j), self.gone(j) > TOL)

    def still(self, j):
        return And(self.assessed(j), self.gone(j) <= TOL)

    def want(self):
        s = self.s
        return And(s < self.e, self.V.k >= Ite(s > 0, s + self.half, 0))


def smooth(new):
    E = core.engine()
    if "smooth" not in E.memo:
        E.memo["smooth"] = Smooth(E.args.v, E.memo["P"], new)
    return E.memo["smooth"]


def smooth_loop():
    def q():
        E = core.engine()
        return E.args.v, E.memo["P"]

    def med(name):
        def f(i, j):
            V, a = q()
            return j >= i, V.med(name, j, a.smooth_win)
        return f

    def hours(i, j):
        V, a = q()
        return j >= i, V.T(j + (a.smooth_win - 1) // 2)
    hv, inv = filled(lon_smooth=med("LON"), lat_smooth=med("LAT"), hrs_smooth=hours)
    return LoopSpec(inv, hv)


def aground_while(new):
    def havoc(E, v, s):
        if "aground" not in E.memo:
            E.memo["aground"] = bool(E.branch(E.bool("aground").e))
        return E.memo["aground"]

    def first(E, v, s):
        return E.int("i_aground") if havoc(E, v, s) else float("nan")

    def ghost_(E, v, s):
        E.memo["ends"] = []

    def inv(v, s):
        E = core.engine()
        S = smooth(new)
        i = v.i
        mention(i, "j")
        E.memo["at"] = S
        for L in E.memo.get("ends", []):
            # the last report of the code's window is the specification's
            mention(S.last(i - 1))
            lemma(Implies(i >= 1, L == S.last(i - 1)), "the window's last report")
        out = [("i within the record", And(i >= 0, i <= S.e)), ("time to the end", v.time_to_end == S.H(S.m - 1) - S.H(i))]
        ag = v.is_aground
        ia = v.i_aground
        if core.nonfinite(ia) is not None:
            ia = -1
        elif not core.is_intlike(ia):
            raise core.Unsupported("i_aground is no whole number")
        out.append(("no report when not aground", Or(ag, ia == -1)))
        out.append(("aground so far", And(Implies(ag, And(ia >= 0, ia < i)), Implies(And(S.p < i, i <= S.s), Not(ag)),
                                          Implies(i > S.s, And(ag, ia == S.s)))))
        return out
    return LoopSpec(inv, dict(is_aground=havoc, i_aground=first, _ghost=ghost_,
                              displace=lambda E, v, s: None, f_win=lambda E, v, s: None, win_len=lambda E, v, s: None),
                    measure=lambda v: smooth(new).m - v.i, varies=("i_aground",))


def aground_flags(new):
    def inv(v, s, V):
        S = smooth(new)
        return [("flags so far", Implies(V.k < s.i, V.flag(AGR) == Ite(S.want(), 1, 0)))]
    return kloop(inv, keys=[AGR])


def aground_concrete(a, new):
    v = buoy(_contract.REAL, a.v)
    n, w = len(a.v), a.smooth_win
    maxd = a.min_win_period if new else a.max_win_period
    if w < 1 or w % 2 == 0 or a.min_win_period < 1 or maxd < 1 or maxd < a.min_win_period:
        return None
    if n <= w:
        return [0] * n
    tds = times(v, a.v)
    if tds is None:
        return None
    half, m = (w - 1) // 2, n - w + 1
    med = lambda x: sorted(x)[len(x) // 2]
    lat = [med([v.reps[j].getvar("LAT") for j in range(i, i + w)]) for i in range(m)]
    lon = [med([v.reps[j].getvar("LON") for j in range(i, i + w)]) for i in range(m)]
    H = tds[half:half + m]
    near = lambda x, y: gt(x, y) or gt(y, x)
    minh = a.min_win_period * 24
    state = None
    sd = _contract.REAL.spherical_geometry.sphere_distance
    for j in range(m):
        near(H[m - 1] - H[j], minh)
        if H[m - 1] - H[j] < minh:
            break
        L = m - 1
        if not new:
            for i in range(m):
                near(H[i], H[j] + 24 * maxd)
            L = max(i for i in range(m) if H[i] <= H[j] + 24 * maxd)
            near(H[L] - H[j], minh)
            if H[L] - H[j] < minh:
                continue
        d = sd(lat[j], lon[j], lat[L], lon[L])
        near(d, TOL)
        if abs(d - TOL) < 1e-6:
            NEAR[0] = True
        if d > TOL:
            state = None
        elif state is None:
            state = j
    if state is None:
        return [0] * n
    start = state + half if state > 0 else 0
    return [1 if i >= start else 0 for i in range(n)]


def times(v, recs):
    """hours since the first report; None when a report cannot be used"""
    out, t = [], 0.0
    for i, r in enumerate(v.reps):
        if r.getvar("LAT") is None or r.getvar("LON") is None:
            return None
        if i:
            try:
                d = r.getext("time_diff")
            except AssertionError:
                return None
            if d is None or d < 0:
                return None
            t += d
        out.append(t)
    return out


class Par(Desc):
    def __init__(self, kind, values):
        self.kind, self.values = kind, values

    def sym(self, E, name):
        return E.int("a." + name) if self.kind == "i" else E.real("a." + name)

    def rand(self, rng, pool):
        return rng.choice(self.values)


def agr_params(new):
    def ok(a):
        r = And(a.smooth_win >= 1, a.smooth_win % 2 == 1, a.min_win_period >= 1)
        return r if new else And(r, a.max_win_period >= a.min_win_period)
    return ok


def add_aground(fn, new):
    q = TQ + fn
    L = {q + "#0": zero_loop(AGR), q + "#1": fill_loop(), q + "#2": smooth_loop(), q + "#3": aground_while(new), q + "#4": aground_flags(new)}
    ps = dict(v=Drift(), smooth_win=Par("i", [1, 3, 3, 5, 1, 2, 0, 41]), min_win_period=Par("i", [1, 1, 2, 1, 8, 0]))
    if not new:
        ps["max_win_period"] = Par("i", [1, 2, 2, 3, 10, 0])
    add("%s: exactly the final stretch without movement" % fn, ps, run(fn, "drf_agr", *[x for x in ps if x != "v"]), [q],
        post=verdict("drf_agr", agr_params(new), lambda V, a: V.n <= a.smooth_win, lambda V, a: smooth(new).want(),
                     lambda a: aground_concrete(a, new)),
        use=DIST, loops=L, diff=False, samples=600, guard=clear_of(lambda a: aground_concrete(a, new)))


add_aground("aground_check", False)
add_aground("new_aground_check", True)


# ------------------------------------------------------------------- speed

SPD = ("POS", "drf_spd")


class Windows(object):
    """the windows of the speed checks (new: the shortest at least so long, between reports that pass the track check;
    else the longest allowed) and whether one that is too fast holds report k"""

    def __init__(self, V, a, new):
        E = core.engine()
        self.V, self.a, self.new = V, a, new
        self.minh = a.min_win_period * 24.0
        self.known = []
        n, k = V.n, V.k
        e = self.e = E.int("e")
        H = V.T
        E.assume(core.boolexpr(And(e >= 0, e < n, Or(e == n - 1, H(n - 1) - H(e) < self.minh),
                                   Or(e == 0, H(n - 1) - H(e - 1) >= self.minh))))
        self.hit = bool(E.branch(E.bool("hit").e))
        if self.hit:
            x = self.x = E.int("x")
            E.assume(core.boolexpr(self.covers(x)))
        else:
            self.x = None
            forall(lambda i: Not(self.covers(i)), "j")

    def end(self, i):
        """(there is one, the other report of the window from i)"""
        E = core.engine()
        V, a, n = self.V, self.a, self.V.n
        L = SNum(z3.Function("other end", I, I)(ix(i)), "i")
        some = core.mkb(z3.Function("window", I, B)(ix(i))) if self.new else True
        if any(ix(i).eq(x) for x in self.known):
            return some, L
        self.known.append(ix(i))
        H = V.T
        inside = And(i >= 0, i < n)
        if not self.new:
            lim = H(i) + a.max_win_period * 24.0
            E.assume(core.boolexpr(Implies(inside, And(L >= i, L < n, H(L) <= lim))))
            forall(lambda j: Implies(And(inside, j > L, j < n), H(j) > lim))
        else:
            ok = lambda j: And(H(j) >= H(i) + self.minh, H(j) > H(i), V.F(j) == 0)
            E.assume(core.boolexpr(Implies(And(inside, some), And(L >= 0, L < n, ok(L)))))
            forall(lambda j: Implies(And(inside, some, j >= 0, j < L), Not(ok(j))))
            forall(lambda j: Implies(And(inside, Not(some), j >= 0, j < n), Not(ok(j))))
        mention(L)
        return some, L

    def fast(self, i):
        V, H = self.V, self.V.T
        some, L = self.end(i)
        span = H(L) - H(i)
        pos = lambda j: (V.raw("LAT", j)[1], V.raw("LON", j)[1])
        speed = div(sphere(*(pos(i) + pos(L))), span) * 1000. / (60. * 60)
        return And(i >= 0, i < self.e, some, span >= self.minh, span > 0, True if not self.new else V.F(i) == 0, speed > self.a.speed_limit)

    def covers(self, i):
        return And(self.fast(i), i <= self.V.k, self.V.k <= self.end(i)[1])


def windows(new):
    E = core.engine()
    if "windows" not in E.memo:
        E.memo["windows"] = Windows(E.args.v, E.memo["P"], new)
    return E.memo["windows"]


def speed_while(new):
    def inv(v, s, V):
        E = core.engine()
        S = windows(new)
        i = v.i
        mention(i, "j")
        for L in E.memo.get("ends", []):
            some, M = S.end(i - 1)
            lemma(Implies(i >= 1, And(some, L == M)), "the window's other end")
        f = V.flag(SPD)
        out = [("i within the record", And(i >= 0, i <= S.e)), ("time to the end", v.time_to_end == V.T(V.n - 1) - V.T(i)),
               ("flags are 0 or 1", Or(f == 0, f == 1)), ("flagged for a window", Or(f == 0, S.hit))]
        if S.hit:
            out.append(("flagged for the window", Implies(i > S.x, f == 1)))
        return out

    def fresh(E, v, s):
        E.memo["ends"] = []
    q = kloop(inv, keys=[SPD], measure=lambda v: core.engine().args.v.n - v.i)
    hv = q.hav["_ghost"]

    def both(E, v, s):
        fresh(E, v, s)
        return hv(E, v, s)
    q.hav["_ghost"] = both
    for x in ("displace", "f_win", "win_len", "speed"):
        q.hav.setdefault(x, lambda E, v, s: None)
    return q


def speed_flags():
    def inv(v, s, V):
        E = core.engine()
        if not isinstance(s.i, core.Sym):
            E.memo["before"] = V.flag(SPD)
        lo = s.seq.lo
        return [("flags so far", V.flag(SPD) == Ite(And(V.k >= lo, V.k < lo + s.i), 1, E.memo["before"]))]
    return kloop(inv, keys=[SPD])


def copy_loop():
    def hv(E, v, s):
        v.v.count = E.int("count")
        return v.v
    return LoopSpec(lambda v, s: [("copies so far", v.v.count == s.i)], dict(v=hv))


def list_loop():
    def cell():
        E = core.engine()
        if "cell" not in E.memo:
            E.memo["cell"] = E.int("cell")
        return E.memo["cell"]

    def hv(E, v, s):
        V = E.args.v
        n = E.int("n.qc")
        E.assume(n >= 0)

        def toarray(xs):
            if len(xs) != 1:
                raise core.Unsupported("list")
            return arrays.SymArr(n, lambda j: (False, V.F(j)), "i")
        v.qc_list[:] = [Ghost(n, None, none=False, val=V.F(cell()), toarray=toarray)]
        return v.qc_list

    def inv(v, s):
        V = core.engine().args.v
        j = cell()
        none, x = gat(v.qc_list, j)
        return [("one flag each", glen(v.qc_list) == s.i), ("the flags", Implies(And(j >= 0, j < s.i), And(Not(none), x == V.F(j))))]
    return LoopSpec(inv, dict(qc_list=hv))


def speed_concrete(a, new):
    v = buoy(_contract.REAL, a.v)
    n = len(a.v)
    maxd = a.min_win_period if new else a.max_win_period
    if a.speed_limit < 0 or a.min_win_period < 0 or maxd < a.min_win_period:
        return None
    if n <= 1:
        return [0] * n
    H = times(v, a.v)
    if H is None:
        return None
    out = [0] * n
    minh = 24. * a.min_win_period
    clean = [True] * n
    if new:
        w = build(_contract.REAL, [dict(r, PT=5) for r in a.v])
        w.iquam_track_check(a.iquam_parameters)
        clean = [f == 0 for f in flags_of(w, "iquam_track")]
    sd = _contract.REAL.spherical_geometry.sphere_distance
    near = lambda x, y: gt(x, y) or gt(y, x)
    for i in range(n - 1):
        near(H[n - 1] - H[i], minh)
        for j in range(n):
            near(H[j], H[i] + minh)
            near(H[j] - H[i], minh)
            near(H[j], H[i] + 24. * maxd)
        if H[n - 1] - H[i] < minh:
            break
        if new:
            c = [j for j in range(n) if H[j] >= H[i] + minh and H[j] > H[i] and clean[j]]
            if not clean[i] or not c:
                continue
            L = c[0]
        else:
            L = max(j for j in range(n) if H[j] <= H[i] + 24. * maxd)
            if H[L] - H[i] < minh or H[L] == H[i]:
                continue
        sp = sd(v.reps[i].getvar("LAT"), v.reps[i].getvar("LON"), v.reps[L].getvar("LAT"), v.reps[L].getvar("LON")) / (H[L] - H[i]) / 3.6
        if abs(sp - a.speed_limit) < 1e-6:
            NEAR[0] = True
        if sp > a.speed_limit:
            for j in range(i, L + 1):
                out[j] = 1
    return out


class Given(Desc):
    """parameters only handed on"""

    def sym(self, E, name):
        return Handed()

    def rand(self, rng, pool):
        return dict(number_of_neighbours=rng.choice([0, 1, 5]), buoy_speed_limit=15., ship_speed_limit=rng.choice([60., 20.]), delta_d=1.11, delta_t=0.01)


class Handed(object):
    __ghost__ = True
    __symbolic__ = True

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        raise ValueError("not concrete")


def shadow(W):
    E = core.engine()

    def voyage():
        return Shadow() if isinstance(getattr(core.engine().args, "v", None), SymVoyage) else REALV()
    REALV = W.Extended_IMMA.Voyage
    W.Extended_IMMA.Voyage = voyage


def spd_params(new):
    def ok(a):
        r = And(a.speed_limit >= 0, a.min_win_period >= 0)
        return r if new else And(r, a.max_win_period >= a.min_win_period)
    return ok


def add_speed(fn, new):
    q = TQ + fn
    L = {q + "#0": zero_loop(SPD), q + "#1": fill_loop()}
    n = 2
    if new:
        L[q + "#2"], L[q + "#3"] = copy_loop(), list_loop()
        n = 4
    L.update({q + "#%d" % n: zero_loop(SPD), q + "#%d" % (n + 1): speed_while(new), q + "#%d" % (n + 2): speed_flags()})
    ps = dict(v=Drift(12))
    if new:
        ps["iquam_parameters"] = Given()
    ps["speed_limit"] = Par("r", [2.5, 3.0, 0.5, 0., 2.5, -1.])
    ps["min_win_period"] = Par("r", [0.8, 0.375, 0.5, 0.1, 1.0, 0., 2., -0.5])
    if not new:
        ps["max_win_period"] = Par("r", [1., 1., 2., 0.8, 3., 0.])
    add("%s: exactly the reports within windows that are too fast" % fn, ps, run(fn, "drf_spd", *[x for x in ps if x != "v"]), [q],
        post=verdict("drf_spd", spd_params(new), lambda V, a: V.n <= 1, lambda V, a: windows(new).hit, lambda a: speed_concrete(a, new)),
        use=DIST, loops=L, diff=False, samples=600, guard=clear_of(lambda a: speed_concrete(a, new)), setup=shadow if new else None)


add_speed("speed_check", False)
add_speed("new_speed_check", True)


# ------------------------------------------------- the checks of a voyage

def wrapped(meth, fn, names, keys, concrete, iq=False, make=None, parname={}):
    """Voyage.<meth> hands a drifter's reports, in time order, and its parameters to trackqc.<fn>"""
    def stub(a):
        E = core.engine()
        E.memo["calls"].append(("check", a))
        if E.branch(E.bool("refuse").e):
            raise AssertionError("refused")
        return None
    params = dict(reps=None)
    if iq:
        params["iq"] = None
    for x in names:
        params[x] = None
    use = {TQ + fn: Contract("stub", params, None, [], spec=stub),
           VO + "sort": Contract("stub", dict(self=None), None, [], spec=lambda a: core.engine().memo["calls"].append(("sort", a.self)))}

    def call(W, a):
        P = {parname.get(x, x): getattr(a, x) for x in names}
        args = ([a.iquam_parameters] if iq else []) + [P] + ([] if a.sort is None else [a.sort])
        if isinstance(a.v, SymVoyage):
            E = core.engine()
            v = voyage(W, a.v)
            E.memo["calls"] = []
            E.memo["reps"] = v.reps
            E.memo["voyage"] = v
        else:
            v = make(W, a.v)
            for r in v.reps:
                r.setvar("PT", a.pt)
        try:
            getattr(v, meth)(*args)
            how = "done"
        except AssertionError:
            how = "refused"
        return how, (None if isinstance(a.v, SymVoyage) else [[r.get_qc(*key) for r in v.reps] for key in keys])

    def post(a, r):
        how, got = r
        if not isinstance(a.v, SymVoyage):
            return [("the flags of the check on the reports in time order", (how, got) == concrete(a))]
        E = core.engine()
        calls = E.memo["calls"]
        miss, pt = a.v.raw("PT", 0)
        drifter = And(a.v.n > 0, Not(miss), pt == 7)
        ran = [c for c in calls if c[0] == "check"]
        if not ran:
            return [("a drifter is checked", Not(drifter)), ("no drifter, no flags", how == "done" and not a.v.flags())]
        c = ran[0][1]
        ok = len(ran) == 1 and c.reps is E.memo["reps"] and (not iq or c.iq is a.iquam_parameters)
        want = [] if a.sort is False else [("sort", E.memo["voyage"])]
        out = [("only drifters are checked", drifter), ("once, on its reports", ok),
               ("sorted before, if asked to", [x for x in calls[:calls.index(ran[0])]] == want and calls[-1] is ran[0]), ("no flags by itself", not a.v.flags())]
        for x in names:
            out.append(("parameter %s" % x, getattr(c, x) == getattr(a, x)))
        return out
    return call, post, use


class Sort(Desc):
    def sym(self, E, name):
        return [None, True, False][E.choose(3)]

    def rand(self, rng, pool):
        return rng.choice([None, True, False])


class PT(Desc):
    def sym(self, E, name):
        return 7

    def rand(self, rng, pool):
        return rng.choice([7, 7, 7, 7, 6, 5, None])


class Maybe(Drift):
    """a voyage that may be empty, its reports with positions"""

    def __init__(self, of=None):
        self.of = of or Drift()

    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n.e >= 0)
        V = Buoy.__new__(Buoy)
        SymVoyageInit(V, E, name, n)
        return V

    def rand(self, rng, pool):
        if rng.random() < 0.05:
            return []
        return [{k: x for k, x in r.items() if k not in ("drop", "notime")} if isinstance(r, dict) else r for r in self.of.rand(rng, pool)]


def SymVoyageInit(V, E, name, n):
    V.E, V.name, V.n, V.pt = E, name, n, None
    V.const, V.fns, V.seen = {"ID": "BUOY12345", "UID": "U"}, {}, set()
    V.k = E.int("a." + name + ".k")


def through(fn, keys, names, iq=False, make=None):
    """the concrete specification: the check itself, on the sorted reports"""
    def f(a):
        v = make(_contract.REAL, a.v)
        for r in v.reps:
            r.setvar("PT", a.pt)
        flags = lambda: [[r.get_qc(*key) for r in v.reps] for key in keys]
        if not v.reps or a.pt != 7:
            return "done", flags()
        if a.sort is not False:
            v.sort()
        try:
            getattr(_contract.REAL.trackqc, fn)(*([v.reps] + ([a.iquam_parameters] if iq else []) + [getattr(a, x) for x in names]))
        except AssertionError:
            return "refused", flags()
        return "done", flags()
    return f


def add_wrapper(S, meth, fn, keys, ps, iq=False, v=None, make=buoy, parname={}):
    names = list(ps)
    call, post, use = wrapped(meth, fn, names, keys, through(fn, keys, names, iq, make), iq, make, parname)
    d = dict(v=v or Maybe(), pt=PT(), sort=Sort())
    if iq:
        d["iquam_parameters"] = Given()
    d.update(ps)
    S.add("Voyage.%s: a drifter's reports in time order, and no other's" % meth, d, call, [VO + meth], post=post, use=use, diff=False, samples=300)


VO = "Extended_IMMA.Voyage."
WIN = dict(smooth_win=Par("i", [1, 3, 3, 5, 0]), min_win_period=Par("i", [1, 1, 2, 0]))
add_wrapper(CONTRACTS, "buoy_aground_check", "aground_check", [AGR], dict(WIN, max_win_period=Par("i", [1, 2, 3, 0])))
add_wrapper(CONTRACTS, "new_buoy_aground_check", "new_aground_check", [AGR], WIN)
add_wrapper(CONTRACTS, "buoy_speed_check", "speed_check", [SPD],
            dict(speed_limit=Par("r", [2.5, 0.5, -1.]), min_win_period=Par("r", [0.8, 0.1, 0., -1.]), max_win_period=Par("r", [1., 2., 0.2])))
add_wrapper(CONTRACTS, "new_buoy_speed_check", "new_speed_check", [SPD], dict(speed_limit=Par("r", [2.5, 0.5, -1.]), min_win_period=Par("r", [0.375, 0.1, -1.])), iq=True)
