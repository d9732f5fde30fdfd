"""C14: the SST checks of drifting buoys: bad tails, and records biased or noisy as a whole.

Matchups: the usable night-time reports, in order; U(j) is the report of matchup j, C(i) how many there are before
report i. Statistics over a window of matchups are named functions of its first matchup and its length, handed out
only for windows that hold (proved for an arbitrary element) the anomalies, or background errors, of those matchups.
Followed: the flags of one arbitrary report k."""
import math
import z3
from .C13 import *
from .C13 import add_wrapper
from pyvc import arrays, contract as _contract
from pyvc.arrays import forall, mention, root, window

CONTRACTS = Specs()
add = CONTRACTS.add
EXT = {"OSTIA": ("r", None), "ICE": ("r", None), "BGVAR": ("r", None)}
TAIL1, TAIL2 = ("SST", "drf_tail1"), ("SST", "drf_tail2")
BIAS, NOISE, SHORT = ("SST", "drf_bias"), ("SST", "drf_noise"), ("SST", "drf_short")


class Matched(SymVoyage):
    """reports matched to the background analysis, in any state"""

    def raw(self, name, i):
        e = ix(i)
        if name in EXT or name == "time_diff":
            return core.mkb(self._f("no " + name, 1, B)(e)), SNum(self._f(name, 1, R)(e), "r")
        if name in ("MO", "DY", "YR"):
            return False, SNum(self._f(name, 1, I)(e), "i")
        if name in ("HR", "LAT", "LON", "SST"):
            return False, SNum(self._f(name, 1, R)(e), "r")
        raise core.Unsupported(name)

    def absent(self, name, i):
        return core.mkb(self._f("absent " + name, 1, B)(ix(i)))

    def day(self, i):
        return core.mkb(self._f("day", 1, B)(ix(i)))

    def refused(self, i):
        """the day test cannot tell"""
        return core.mkb(self._f("no day test", 1, B)(ix(i)))

    def ice(self, i):
        m, x = self.raw("ICE", i)
        return Ite(m, 0.0, x)

    def unmatched(self, i):
        """daytime, land or ice"""
        return Or(self.day(i), self.raw("OSTIA", i)[0], self.ice(i) > 0.15)

    def masked(self, i):
        """the background is too uncertain"""
        m, x = self.raw("BGVAR", i)
        return And(Not(m), x > core.engine().memo["P"].background_err_lim)

    def usable(self, i):
        u = Not(self.unmatched(i))
        return And(u, Not(self.masked(i))) if core.engine().memo["noisy"] else u

    def bad(self, i):
        m, x = self.raw("time_diff", i)
        bm, bx = self.raw("OSTIA", i)
        vm, vx = self.raw("BGVAR", i)
        ice = self.ice(i)
        return Or(*([self.absent(n, i) for n in EXT] + [ice < 0, ice > 1, self.refused(i), And(i != 0, Or(self.absent("time_diff", i), m, x < 0)),
                  And(self.usable(i), Or(bx < -5, bx > 45, vm, vx < 0, vx > 10))]))

    # matchups
    def C(self, i):
        E = core.engine()
        f = self._f("matchups before", 1, I)
        e = ix(i)
        if "counted" not in E.memo:
            E.memo["counted"] = []
            E.assume(f(z3.IntVal(0)) == 0)
        if not any(e.eq(x) for x in E.memo["counted"]):
            E.memo["counted"].append(e)
            u = self.usable(SNum(e, "i"))
            E.assume(core.boolexpr(Implies(i >= 0, And(SNum(f(e), "i") >= 0, SNum(f(z3.simplify(e + 1)), "i") == SNum(f(e), "i") + Ite(u, 1, 0),
                                                       Implies(u, self.U(SNum(f(e), "i")) == i)))))
        return SNum(f(e), "i")

    @property
    def Ufn(self):
        return self._f("matchup", 1, I)

    def U(self, j):
        return SNum(self.Ufn(ix(j)), "i")

    def sound(self, j):
        """matchup j's variance is in range (reports being good)"""
        x = self.var(j)
        return And(x >= 0, x <= 10)

    @property
    def N(self):
        return self.C(self.n)

    def anom(self, j):
        u = self.U(j)
        return self.raw("SST", u)[1] - self.raw("OSTIA", u)[1]

    def var(self, j):
        return self.raw("BGVAR", self.U(j))[1]

    def err(self, j):
        return root(self.var(j))

    def stat(self, name, lo, n):
        return SNum(z3.Function(name, I, I, R)(ix(lo), ix(n)), "r")

    def holds(self, name, lo, n):
        return core.mkb(z3.Function(name, I, I, B)(ix(lo), ix(n)))

    def limit(self, j):
        P = core.engine().memo["P"]
        n = P.err_std_n if core.engine().memo["noisy"] else P.short_err_std_n
        x = self.err(j)
        return n * root(x * x + P.drif_inter * P.drif_inter + P.drif_intra * P.drif_intra)

    def exceeds(self, j):
        lim = self.limit(j)
        return Or(self.anom(j) > lim, self.anom(j) < -lim)

    def uncertain(self, j):
        return self.err(j) > root(core.engine().memo["P"].background_err_lim)


class MatchRep(SymRep):
    def touch(self):
        core.engine().memo.setdefault("touched", []).append(self.i)

    def getvar(self, name):
        self.touch()
        return self.sv.raw(name, self.i)[1]

    def getext(self, name):
        self.touch()
        if bool(self.sv.absent(name, self.i)):
            raise AssertionError("unknown extended variable name")
        m, x = self.sv.raw(name, self.i)
        return None if bool(m) else x


def daystub(a):
    E = core.engine()
    V = E.args.v
    i = E.memo["touched"][-1]
    xs = [a.year, a.month, a.day, a.hour, a.lat, a.lon]
    E.prove(And(*[x == V.raw(n, i)[1] for n, x in zip(("YR", "MO", "DY", "HR", "LAT", "LON"), xs)]), "day or night at the report's own time and place", aux=True)
    E.prove(a.elevdlim == -2.5, "night is when the sun is 2.5 degrees below the horizon", aux=True)
    if bool(V.refused(i)):
        raise AssertionError("no day test")
    return V.day(i)


def of_window(name):
    def f(a):
        return arrays.recognise(name, a.inarr, a.trim)
    return f


STUBS = {TQ + "track_day_test": Contract("stub", dict(year=None, month=None, day=None, hour=None, lat=None, lon=None, elevdlim=-2.5), None, [], spec=daystub),
         TQ + "trim_mean": Contract("stub", dict(inarr=None, trim=None), None, [], spec=of_window("trim_mean")),
         TQ + "trim_std": Contract("stub", dict(inarr=None, trim=None), None, [], spec=of_window("trim_std"))}


def recognised(V):
    def f(op, arr, *more):
        if op in ("mean", "std", "trim_mean", "trim_std"):
            name = op + "".join(".%s" % (m,) for m in more)
            w = arrays.windows(arr, V.Ufn, [("anomaly", lambda j: (False, V.anom(j))), ("error", lambda j: (False, V.err(j))),
                                            ("error^2", lambda j: (False, V.err(j) * V.err(j)))], V.N, V.sound)
            if w is not None:
                return V.stat("%s of %s" % (name, w[0]), w[1], arr.n)
        if op == "any":
            lo = window(arr, V.Ufn, V.uncertain, V.N, V.sound)
            if lo is not None:
                return V.holds("uncertain", lo, arr.n)
        if op == "sum":
            lo = window(arr, V.Ufn, V.exceeds, V.N, V.sound)
            if lo is not None:
                r = SNum(z3.Function("exceeding", I, I, I)(ix(lo), ix(arr.n)), "i")
                core.engine().assume(core.boolexpr(And(r >= 0, Or(arr.n < 0, r <= arr.n))))
                return r
        return None
    return f


class Matchups(Drift):
    """a drifter's record: mostly good night-time matchups with stretches of bias, noise, ice, land and daylight"""

    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n.e >= 1)
        return Matched(E, name, n)

    def rand(self, rng, pool):
        x = rng.random()
        n = rng.randint(1, self.hi) if x < 0.97 else rng.randint(100, 130)
        out = []
        bias, noise = rng.choice([0, 0, 0.9, 1.5, -2.0]), rng.choice([0, 0.1, 0.5, 2.])
        night = rng.random() < 0.8
        for i in range(n):
            r = dict(ID="BUOY12345", UID="U%d" % i, PT=7, YR=2003, MO=12, DY=1 + i // 20, HR=round((0.1 if night else 0.6) * (i % 20), 2), LAT=0.0, LON=0.0)
            if rng.random() < 0.25:
                bias, noise = rng.choice([0, 0, 0, 1.2, -1.3, 4.0]), rng.choice([0, 0, 0.2, 1., 3.])
            r["OSTIA"] = 5.0
            r["SST"] = round(5.0 + bias + rng.uniform(-noise, noise), 2)
            r["BGVAR"] = rng.choice([0.01, 0.01, 0.01, 0.01, 0.04, 0.25])
            r["ICE"] = rng.choice([0.0, 0.0, 0.0, 0.1, None, 0.15])
            x = rng.random()
            if x < 0.02:
                r["BGVAR"] = rng.choice([0.3, 0.31, 1.0, 10.])
            elif x < 0.07:
                r["ICE"] = rng.choice([0.16, 0.5, 1.0])
            elif x < 0.12:
                r["OSTIA"] = None
                r["BGVAR"] = rng.choice([None, 0.01])
            out.append(r)
        x = rng.random()
        if x < 0.02:
            rng.choice(out)["ICE"] = rng.choice([-0.1, 1.1])
        elif x < 0.04:
            rng.choice(out)["BGVAR"] = rng.choice([-0.1, 10.1, None])
        elif x < 0.06:
            rng.choice(out)["OSTIA"] = rng.choice([-5.1, 45.1])
        elif x < 0.08:
            rng.choice(out)["drop"] = rng.choice(["LAT", "HR", "MO"])
        elif x < 0.10:
            rng.choice(out)["noext"] = rng.choice(["ICE", "OSTIA", "BGVAR"])
        elif x < 0.12 and n > 1:
            out[rng.randrange(1, n)]["notime"] = rng.choice(["absent", None, -1.0])
        return out


def matched(W, recs):
    keys = ("drop", "notime", "noext") + tuple(EXT)
    v = build(W, [{k: x for k, x in r.items() if k not in keys} for r in recs])
    for r, d in zip(v.reps, recs):
        for n in EXT:
            if d.get("noext") != n:
                r.setext(n, d[n])
        if "drop" in d:
            r.setvar(d["drop"], None)
        if "notime" in d:
            if d["notime"] == "absent":
                r.ext.pop("time_diff", None)
            else:
                r.setext("time_diff", d["notime"])
    return v


def usable_reports(v, a, noisy):
    """[(report, anomaly, variance)], or None when a report cannot be used; and whether an error was too large"""
    out, masked = [], False
    day = _contract.REAL.trackqc.track_day_test
    for i, r in enumerate(v.reps):
        if any(n not in r.ext for n in EXT):
            return None
        bg, ice, var = [r.ext[n] for n in ("OSTIA", "ICE", "BGVAR")]
        ice = 0.0 if ice is None else ice
        if not 0 <= ice <= 1:
            return None
        try:
            light = day(*[r.getvar(n) for n in ("YR", "MO", "DY", "HR", "LAT", "LON")] + [-2.5])
        except AssertionError:
            return None
        if i and (r.ext.get("time_diff") is None or r.ext["time_diff"] < 0):
            return None
        if var is not None and var > a.background_err_lim:
            masked = True
            if noisy:
                continue
        if light or bg is None or ice > 0.15:
            continue
        if not -5 <= bg <= 45 or var is None or not 0 <= var <= 10:
            return None
        out.append((i, r.getvar("SST") - bg, var))
    return out, masked


def mean(xs):
    return math.fsum(xs) / len(xs)


def std(xs):
    m = mean(xs)
    return math.sqrt(mean([(x - m) ** 2 for x in xs]))


def trimmed(f, xs, trim=100):
    k = len(xs) // trim
    return f(sorted(xs)[k:len(xs) - k])


def runit(fn, keys, *names, **kw):
    noisy = kw["noisy"]

    def f(W, a):
        E = core.engine()
        P = [getattr(a, x) for x in names]
        if isinstance(a.v, SymVoyage):
            V = a.v
            E.memo.update(arrays=True, products="opaque", recognise=recognised(V), P=a, noisy=noisy)
            reps = FnSeq(V.n, lambda i: MatchRep(V, i))
            got = lambda: V
        else:
            v = matched(W, a.v)
            reps = v.reps
            got = lambda: [[r.get_qc(*key) for r in v.reps] for key in keys]
        try:
            getattr(W.trackqc, fn)(reps, *P)
        except AssertionError:
            return "refused", got()
        return "done", got()
    return f


def outcome(keys, params_ok, want, cspec):
    def post(a, r):
        how, got = r
        if not isinstance(a.v, SymVoyage):
            w = cspec(a)
            return [("the flags, or refused without any", r == (("refused", [[9] * len(a.v) for _ in keys]) if w is None else ("done", w)))]
        V, E = a.v, core.engine()
        if how == "refused":
            ws = E.memo.get("touched", [])
            return [("only bad parameters or reports are refused", Or(Not(params_ok(a)), *[And(w >= 0, w < V.n, V.bad(w)) for w in ws])),
                    ("without flags", not V.flags())]
        out = [("parameters allowed", params_ok(a)), ("no bad report", Not(V.bad(V.k))), ("no other flag", not [k for k in V.flags() if k not in keys] and not V.exts())]
        for key, w in zip(keys, want(V, a)):
            out.append(("flag %s as specified" % key[1], V.flag(key) == Ite(w, 1, 0)))
        return out
    return post


def matchup_loop(noisy, lists=("reps_ind", "sst_anom", "bgvar")):
    CONTENT = {"reps_ind": lambda V, j: V.U(j), "sst_anom": lambda V, j: V.anom(j), "bgvar": lambda V, j: V.var(j)}

    def cell():
        E = core.engine()
        if "cell" not in E.memo:
            E.memo["cell"] = E.int("cell")
        return E.memo["cell"]

    def hav(name):
        def h(E, v, s):
            V = E.args.v
            n = E.int("n." + name)
            E.assume(n.e >= 0)

            def toarray(xs):
                if len(xs) != 1:
                    raise core.Unsupported("list")
                return arrays.SymArr(n, lambda j: (False, CONTENT[name](V, j)), "i" if name == "reps_ind" else "r")
            x = E.int("at." + name) if name == "reps_ind" else E.real("at." + name)
            getattr(v, name)[:] = [Ghost(n, None, none=False, val=x, toarray=toarray)]
            return getattr(v, name)
        return h

    def inv(v, s):
        E = core.engine()
        V = E.args.v
        c = cell()
        out = []
        for name in lists:
            xs = getattr(v, name)
            none, x = gat(xs, c)
            out.append(("%s: one for each matchup so far" % name, glen(xs) == V.C(s.i)))
            out.append(("%s: the matchup's" % name, Implies(And(c >= 0, c < glen(xs)), And(Not(none), x == CONTENT[name](V, c)))))
        out.append(("no bad report so far", Implies(V.k < s.i, Not(V.bad(V.k)))))
        if noisy:
            ever(V)
            mention(s.i, "m")
            out.append(("whether the background was ever uncertain", v.bgvar_is_masked == (ever(V) < s.i)))
        return out

    def out(v, s):
        V = core.engine().args.v
        c = cell()
        core.engine().assume(core.boolexpr(V.N >= 0))
    hv = {n: hav(n) for n in lists}
    for n in ("bg_val", "ice_val", "bgvar_val", "daytime", "time_diff", "land_match", "ice_match", "bgvar_mask"):
        hv[n] = lambda E, v, s: None
    if noisy:
        hv["bgvar_is_masked"] = lambda E, v, s: E.bool("masked")
    hv["_ghost"] = lambda E, v, s: E.memo.__setitem__("touched", [])
    return LoopSpec(inv, hv, onexit=out)


def ever(V):
    """the first report with too uncertain a background, or the number of reports"""
    E = core.engine()
    if "ever" not in E.memo:
        w = E.memo["ever"] = E.int("first masked")
        E.assume(core.boolexpr(And(w >= 0, w <= V.n, Implies(w < V.n, V.masked(w)))))
        forall(lambda j: Implies(And(j >= 0, j < w), Not(V.masked(j))), "m")
    return E.memo["ever"]


def zeros(keys):
    return kloop(lambda v, s, V: [("%s so far" % (key[1],), Implies(V.k < s.i, V.flag(key) == 0)) for key in keys], keys=keys)


def set_loop(key, which):
    """a loop that sets a flag for some reports"""
    def inv(v, s, V):
        E = core.engine()
        if not isinstance(s.i, core.Sym):
            E.memo["before", key] = V.flag(key)
        return [("%s so far" % (key[1],), V.flag(key) == Ite(And(V.k < s.i, which(V)), 1, E.memo["before", key]))]
    return kloop(inv, keys=[key])


# -------------------------------------------------------------------- tails

class Tails(object):
    def __init__(self, V, P):
        E = core.engine()
        self.V, self.P = V, P
        N, L, W = V.N, P.long_win_len, P.short_win_len
        self.N, self.L, self.W, self.mid = N, L, W, (L - 1) // 2
        M = self.M = Ite(N >= L, N - L + 1, 0)
        S1, S2 = self.S1, self.S2 = E.int("S1"), E.int("S2")
        E.assume(core.boolexpr(And(S1 >= 0, S1 <= M, S2 >= 0, S2 <= M)))
        E.assume(core.boolexpr(And(Implies(S1 < M, Not(self.fails(S1))), Implies(S2 < M, Not(self.fails(N - L - S2))))))
        forall(lambda lo: Implies(Or(And(lo >= 0, lo < S1), And(lo > N - L - S2, lo <= N - L)), self.fails(lo)), "long")
        mention(S1, "long")
        mention(N - L - S2, "long")
        self.start0 = Ite(S1 > 0, S1 - 1 + self.mid, -1)
        self.end0 = Ite(S2 > 0, N - 1 - (S2 - 1) - self.mid, N)
        self.first = self.start0 + 1
        self.n = self.end0 - self.first
        self.active = And(self.start0 < self.end0, self.n >= W)
        K = self.K = Ite(self.active, self.n - W + 1, 0)
        T1, T2 = self.T1, self.T2 = E.int("T1"), E.int("T2")
        E.assume(core.boolexpr(And(T1 >= 0, T1 <= K, T2 >= 0, T2 <= K)))
        E.assume(core.boolexpr(And(Implies(T1 < K, Not(self.suspect(self.first + T1))), Implies(T2 < K, Not(self.suspect(self.end0 - W - T2))))))
        forall(lambda lo: Implies(Or(And(lo >= self.first, lo < self.first + T1), And(lo > self.end0 - W - T2, lo <= self.end0 - W)), self.suspect(lo)), "short")
        mention(self.first + T1, "short")
        mention(self.end0 - W - T2, "short")
        self.start = self.start0 + self.short_steps(T1, T1)
        self.end = self.end0 - self.short_steps(T2, T2)

    def short_steps(self, T, i):
        """how far the tail reaches after i failing short windows of T: whole windows once all have failed"""
        return Ite(And(self.active, i == self.K), i - 1 + self.W, i)

    def fails(self, lo):
        """the long window from lo is reliable and biased or noisy (the meaning is given where a window is looked at)"""
        return self.V.holds("fails", lo, self.L)

    def meaning(self, lo):
        V, P, L = self.V, self.P, self.L
        avg, sd = V.stat("trim_mean.100 of anomaly", lo, L), V.stat("trim_std.100 of anomaly", lo, L)
        e, e2 = V.stat("mean of error", lo, L), V.stat("mean of error^2", lo, L)
        E = core.engine()
        E.assume(core.boolexpr(And(e2 >= 0, sd >= 0)))
        r = root(e2)
        biased = abs(avg) > P.long_err_std_n * root(P.drif_inter * P.drif_inter + e * e)
        noisy = sd > root(P.drif_intra * P.drif_intra + r * r)
        return And(Not(V.holds("uncertain", lo, L)), Or(biased, noisy))

    def suspect(self, lo):
        """the short window from lo is reliable and holds too many suspicious matchups"""
        V, W = self.V, self.W
        n = SNum(z3.Function("exceeding", I, I, I)(ix(lo), ix(W)), "i")
        return And(Not(V.holds("uncertain", lo, W)), n >= self.P.short_win_n_bad)

    def tail1(self):
        V = self.V
        return And(self.start < self.end, self.start >= 0, V.k <= V.U(self.start))

    def tail2(self):
        V = self.V
        return And(self.start < self.end, self.end < self.N, V.k >= V.U(self.end))


def tails():
    E = core.engine()
    if "tails" not in E.memo:
        E.memo["tails"] = Tails(E.args.v, E.memo["P"])
    return E.memo["tails"]


NONE = lambda E, v, s: None


def long_loop():
    def inv(v, s):
        T = tails()
        i = s.i
        if v.forward:
            if isinstance(i, core.Sym):
                mention(i, "long")
            return [("windows failed so far", i <= T.S1), ("start tail so far", v.start_tail_ind == Ite(i > 0, i - 1 + T.mid, -1)), ("no end tail yet", v.end_tail_ind == T.N)]
        if isinstance(i, core.Sym):
            mention(T.N - T.L - i, "long")
        return [("windows failed so far, backwards", i <= T.S2), ("end tail so far", v.end_tail_ind == Ite(i > 0, T.N - 1 - (i - 1) - T.mid, T.N)),
                ("start tail found", v.start_tail_ind == T.start0)]
    def look(E, v, s):
        T = tails()
        lo = s.now if v.forward else T.N - T.L - s.now
        m = T.meaning(lo)
        E.assume(core.boolexpr(And(Or(T.fails(lo), Not(m)), Or(Not(T.fails(lo)), m))))
    return LoopSpec(inv, dict(_ghost=look, sst_anom_winvals=NONE, bgerr_winvals=NONE, sst_anom_avg=NONE, sst_anom_stdev=NONE, bgerr_avg=NONE, bgerr_rms=NONE))


def short_loop():
    def inv(v, s):
        T = tails()
        i = s.i
        if v.forward:
            mention(T.first + i, "short")
            return [("windows failed so far", i <= T.T1), ("start tail so far", v.start_tail_ind == T.start0 + T.short_steps(T.T1, i)), ("end tail", v.end_tail_ind == T.end0)]
        mention(T.end0 - T.W - i, "short")
        return [("windows failed so far, backwards", i <= T.T2), ("end tail so far", v.end_tail_ind == T.end0 - T.short_steps(T.T2, i)), ("start tail found", v.start_tail_ind == T.start)]
    return LoopSpec(inv, dict(sst_anom_winvals=NONE, bgerr_winvals=NONE, limit=NONE, exceed_limit=NONE))


def tail_concrete(a):
    v = matched(_contract.REAL, a.v)
    n = len(a.v)
    L, W = a.long_win_len, a.short_win_len
    if L < 1 or L % 2 == 0 or W < 1 or a.short_win_n_bad < 1 or min(a.long_err_std_n, a.short_err_std_n, a.drif_inter, a.drif_intra, a.background_err_lim) < 0:
        return None
    u = usable_reports(v, a, False)
    if u is None:
        return None
    ms = u[0]
    N = len(ms)
    an, er = [m[1] for m in ms], [math.sqrt(m[2]) for m in ms]
    unsure = lambda lo, k: any([gt(x, math.sqrt(a.background_err_lim)) for x in er[lo:lo + k]])

    def fails(lo):
        if unsure(lo, L):
            return False
        x, e = an[lo:lo + L], er[lo:lo + L]
        p = gt(abs(trimmed(mean, x)), a.long_err_std_n * math.sqrt(a.drif_inter ** 2 + mean(e) ** 2))
        q = gt(trimmed(std, x), math.sqrt(a.drif_intra ** 2 + mean([y * y for y in e])))
        return p or q

    def suspect(lo):
        if unsure(lo, W):
            return False
        bad = [gt(abs(an[j]), a.short_err_std_n * math.sqrt(er[j] ** 2 + a.drif_inter ** 2 + a.drif_intra ** 2)) for j in range(lo, lo + W)]
        return sum(bad) >= a.short_win_n_bad
    mid = (L - 1) // 2
    start, end = -1, N
    los = list(range(N - L + 1))
    for lo in los:
        if not fails(lo):
            break
        start = lo + mid
    for lo in reversed(los):
        if not fails(lo):
            break
        end = lo + mid
    if start < end and end - start - 1 >= W:
        los = list(range(start + 1, end - W + 1))
        s, e = start, end
        for lo in los:
            if not suspect(lo):
                break
            s = lo if lo != los[-1] else lo + W - 1
        for lo in reversed(los):
            if not suspect(lo):
                break
            e = lo + W - 1 if lo != los[0] else lo
        start, end = s, e
    if start >= end:
        start, end = -1, N
    first = ms[start][0] if start >= 0 else -1
    last = ms[end][0] if end < N else n
    return [[1 if i <= first else 0 for i in range(n)], [1 if i >= last else 0 for i in range(n)]]


TAILPAR = dict(long_win_len=Par("i", [3, 3, 5, 1, 7, 2, 0, 121, 101]), long_err_std_n=Par("r", [3.0, 1.0, 0.5, -1.]),
               short_win_len=Par("i", [1, 2, 3, 4, 1, 3, 0, 30]), short_err_std_n=Par("r", [3.0, 2.0, 0.5, 1.0, -1.]),
               short_win_n_bad=Par("i", [1, 1, 2, 2, 0]), drif_inter=Par("r", [0.29, 0.29, 0.1, -0.1]),
               drif_intra=Par("r", [1.0, 1.0, 0.3, -0.1]), background_err_lim=Par("r", [0.3, 0.3, 0.3, 1.0, -0.1]))


def tail_ok(a):
    return And(a.long_win_len >= 1, a.long_win_len % 2 == 1, a.long_err_std_n >= 0, a.short_win_len >= 1, a.short_err_std_n >= 0,
               a.short_win_n_bad >= 1, a.drif_inter >= 0, a.drif_intra >= 0, a.background_err_lim >= 0)


T_ = TQ + "sst_tail_check"
add("sst_tail_check: exactly the stretches before and after the good matchups", dict(v=Matchups(16), **TAILPAR),
    runit("sst_tail_check", [TAIL1, TAIL2], *TAILPAR, noisy=False), [T_],
    post=outcome([TAIL1, TAIL2], tail_ok, lambda V, a: [And(V.N > 0, tails().tail1()), And(V.N > 0, tails().tail2())], tail_concrete),
    use=STUBS, diff=False, samples=1500, guard=clear_of(tail_concrete), budget=900,
    loops={T_ + "#0": matchup_loop(False), T_ + "#1": zeros([TAIL1, TAIL2]), T_ + "#3": long_loop(), T_ + "#5": short_loop(),
           T_ + "#6": set_loop(TAIL1, lambda V: V.k <= V.U(tails().start)), T_ + "#7": set_loop(TAIL2, lambda V: V.k >= V.U(tails().end))})


# ------------------------------------------------------- bias and noise

def noisy_concrete(a):
    v = matched(_contract.REAL, a.v)
    n = len(a.v)
    if a.n_eval < 1 or a.n_bad < 1 or min(a.bias_lim, a.drif_intra, a.drif_inter, a.err_std_n, a.background_err_lim) < 0:
        return None
    u = usable_reports(v, a, True)
    if u is None:
        return None
    ms, masked = u
    b = q = s = False
    if ms:
        an, va = [m[1] for m in ms], [m[2] for m in ms]
        if len(ms) >= a.n_eval:
            b = gt(abs(mean(an)), a.bias_lim)
            q = gt(std(an), math.sqrt(a.drif_intra ** 2 + mean(va)))
        elif not masked:
            s = sum([gt(abs(x), a.err_std_n * math.sqrt(y + a.drif_inter ** 2 + a.drif_intra ** 2)) for x, y in zip(an, va)]) >= a.n_bad
    return [[1 if x else 0] * n for x in (b, q, s)]


def noisy_want(V, a):
    N = V.N
    long_ = And(N > 0, N >= a.n_eval)
    e2 = V.stat("mean of error^2", 0, N)
    core.engine().assume(core.boolexpr(e2 >= 0))
    r = root(e2)
    return [And(long_, abs(V.stat("mean of anomaly", 0, N)) > a.bias_lim),
            And(long_, V.stat("std of anomaly", 0, N) > root(a.drif_intra * a.drif_intra + r * r)),
            And(N > 0, N < a.n_eval, ever(V) >= V.n, SNum(z3.Function("exceeding", I, I, I)(ix(0), ix(N)), "i") >= a.n_bad)]


NOISYPAR = dict(n_eval=Par("i", [3, 5, 10, 30, 1, 0]), bias_lim=Par("r", [1.1, 1.1, 0.2, -1.]), drif_intra=Par("r", [1.0, 1.0, 0.3, -0.1]),
                drif_inter=Par("r", [0.29, 0.29, 0.1, -0.1]), err_std_n=Par("r", [3.0, 1.0, 0.5, -1.]), n_bad=Par("i", [1, 2, 2, 0]),
                background_err_lim=Par("r", [0.3, 0.3, 0.3, 1.0, -0.1]))


def noisy_ok(a):
    return And(a.n_eval >= 1, a.bias_lim >= 0, a.drif_intra >= 0, a.drif_inter >= 0, a.err_std_n >= 0, a.n_bad >= 1, a.background_err_lim >= 0)


B_ = TQ + "sst_biased_noisy_check"
KEYS = [BIAS, NOISE, SHORT]
always = lambda V: True
add("sst_biased_noisy_check: exactly the records that are biased, noisy, or short and suspicious", dict(v=Matchups(16), **NOISYPAR),
    runit("sst_biased_noisy_check", KEYS, *NOISYPAR, noisy=True), [B_],
    post=outcome(KEYS, noisy_ok, noisy_want, noisy_concrete), use=STUBS, diff=False, samples=1200, guard=clear_of(noisy_concrete),
    loops={B_ + "#0": matchup_loop(True, ("sst_anom", "bgvar")), B_ + "#1": zeros(KEYS), B_ + "#2": set_loop(BIAS, always),
           B_ + "#3": set_loop(NOISE, always), B_ + "#4": set_loop(SHORT, always)})


add_wrapper(CONTRACTS, "buoy_tail_check", "sst_tail_check", [TAIL1, TAIL2], TAILPAR, v=Maybe(Matchups(12)), make=matched, parname={"drif_inter": "drift_inter"})
add_wrapper(CONTRACTS, "buoy_bias_noise_check", "sst_biased_noisy_check", KEYS, NOISYPAR, v=Maybe(Matchups(12)), make=matched)
