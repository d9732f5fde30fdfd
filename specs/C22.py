"""C22: base QC: each flag is the verdict of its check on the report's own data."""
import z3
from .report import *
from .C01 import Store, flag0, parts
from . import C02, C03, C21, C24
from pyvc.facade import Lazy

CONTRACTS = Specs()
add = CONTRACTS.add
MQ = "Extended_IMMA.MarineReportQC."
NEED = ("LAT", "LON", "YR", "MO")         # the checks of position and date refuse to work without


def lon_of(st):
    x = get(st, "LON")
    return Ite(x > 180, x - 360, x)


def is_one(x, xs):
    return False if x is None else Or(*[x == y for y in xs])


# ------------------------------------------------- what each flag should be

def norms(a, var):
    """(mean, standard deviation) attached for a variable, None where missing"""
    return a.norms.get(var, (None, None))


def p_pos(a):
    return {("POS", "pos"): b(Not(And(get(a.st, "LAT") >= -90, get(a.st, "LAT") <= 90, get(a.st, "LON") >= -180, get(a.st, "LON") <= 360)))}


def p_date(a):
    return {("POS", "date"): C03.date_spec(NS(y=get(a.st, "YR"), m=get(a.st, "MO"), d=get(a.st, "DY")))}


def p_time(a):
    h = get(a.st, "HR")
    return {("POS", "time"): 1 if h is None else b(Not(And(h >= 0, h < 24)))}


def p_black(a):
    g = lambda n: get(a.st, n)
    return {("POS", "blklst"): black(NS(id=a.id, deck=g("DCK"), year=g("YR"), month=g("MO"), lat=g("LAT"), lon=lon_of(a.st), pt=g("PT")))}


def black(x):
    """as C24 has it, also without a deck"""
    return C24.black(NS(**dict(x.__dict__, deck=-1)) if x.deck is None else x)


def day_of(g):
    """day_test's verdict (C21)"""
    return C21.day_spec(g)


def p_buoy(a):
    return {("POS", "isbuoy"): b(is_one(get(a.st, "PT"), [6, 7])), ("POS", "isdrifter"): b(is_one(get(a.st, "PT"), [7]))}


SHIPS = [0, 1, 2, 3, 4, 5, 10, 11, 12, 17]


def p_ship(a):
    return {("POS", "isship"): b(is_one(get(a.st, "PT"), SHIPS))}


def p_780(a):
    return {("POS", "is780"): b(is_one(get(a.st, "DCK"), [780]))}


def p_windbl(a):
    return {("W", "wind_blacklist"): b(is_one(get(a.st, "DCK"), [708, 780]))}


def p_humbl(a):
    return {("DPT", "hum_blacklist"): b(Not(is_one(get(a.st, "PT"), [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15])))}


# west, south, east, north: the North Atlantic, Suez and the Indian Ocean
BOXES = [(-80, 40, 0, 55), (-10, 35, 30, 45), (15, -10, 45, 40), (15, -10, 95, 15), (95, -10, 105, 5)]


def p_matbl(a, last=1892, var="AT"):
    pt, deck = get(a.st, "PT"), get(a.st, "DCK")
    r = And(is_one(pt, [5]), is_one(deck, [780]))
    if deck is not None:
        y, lat, lon = get(a.st, "YR"), get(a.st, "LAT"), lon_of(a.st)
        r = Or(r, And(deck == 193, y >= 1880, y <= last,
                      Or(*[And(lon >= w, lon <= e, lat >= s, lat <= n) for w, s, e, n in BOXES])))
    return {(var, "mat_blacklist"): b(r)}


def noval(x):
    return 1 if x is None else 0


def hard(x, lims):
    return 1 if x is None else b(Or(x < lims[0], x > lims[1]))


def clim(x, c, lim):
    return 1 if x is None or c is None else b(C02.far(x, c, lim))


def p_wind(a):
    w, d = get(a.st, "W"), get(a.st, "D")
    if d is None:
        c = 0
    elif w is None:
        c = b(d == 361)
    else:
        c = b(Or(And(d == 361, w != 0), And(d == 362, w > a.P["variable_limit"])))
    return {("W", "noval"): noval(w), ("W", "hardlimit"): hard(w, a.P["hard_limits"]), ("W", "consistency"): c}


def p_slp(a):
    x = get(a.st, "SLP")
    m, s = norms(a, "SLP")
    return {("SLP", "noval"): noval(x), ("SLP", "nonorm"): noval(m),
            ("SLP", "clim"): C02.lowbar(NS(v=x, c=m, s=s, limit=a.P["maximum_standardised_anomaly"], lowbar=a.P["lowbar"]))}


def p_sst(a):
    x = get(a.st, "SST")
    m, s = norms(a, "SST")
    return {("SST", "noval"): noval(x), ("SST", "nonorm"): noval(m), ("SST", "hardlimit"): hard(x, a.P["hard_limits"]),
            ("SST", "freez"): 0 if x is None else b(x < a.P["freezing_point"]),
            ("SST", "clim"): clim(x, m, a.P["maximum_anomaly"])}


def p_at(a, var="AT"):
    x = get(a.st, var) if var != "DAT" else a.dat
    m, s = norms(a, var)
    return {(var, "noval"): noval(x), (var, "nonorm"): noval(m), (var, "hardlimit"): hard(x, a.P["hard_limits"]),
            (var, "clim"): clim(x, m, a.P["maximum_anomaly"])}


def spread(a, var):
    m, s = norms(a, var)
    return C02.plus_stdev(NS(v=get(a.st, var), c=m, s=s, lims=a.P["minmax_standard_deviation"], limit=a.P["maximum_standardised_anomaly"]))


def p_kate(a):
    x = get(a.st, "AT2")
    return {("AT2", "noval"): noval(x), ("AT2", "nonorm"): noval(norms(a, "AT2")[0]), ("AT2", "hardlimit"): hard(x, a.P["hard_limits"]),
            ("AT2", "clim"): spread(a, "AT2")}


def p_dpt(a):
    x, t = get(a.st, "DPT"), get(a.st, "AT2")
    return {("DPT", "noval"): noval(x), ("DPT", "nonorm"): noval(norms(a, "DPT")[0]), ("DPT", "clim"): spread(a, "DPT"),
            ("DPT", "ssat"): 1 if x is None or t is None else b(x > t)}


# ----------------------------------------------------- each check by itself

OTHER = Tup(Str("POS", "SST", "AT", "AT2", "DPT", "SLP", "W", "D"), Str("noval", "clim", "pos", "bud", "hardlimit", "trk"))


class Norms(Desc):
    """normals attached: of the variables named, and a different one of another"""

    def __init__(self, *names):
        self.names = names

    def sym(self, E, name):
        d = {}
        for n in self.names:
            k = E.choose(4)
            x, s = E.real("a.mean." + n), E.real("a.sd." + n)
            E.assume(s > 0)
            d[n] = (x if k & 1 else None, s if k & 2 else None)
        return d

    def rand(self, rng, pool):
        d = {}
        for n in self.names:
            if rng.random() < 0.9:
                x = rng.choice([1000., 1010.5]) if n == "SLP" else rng.choice([0., 10., 20.5])
                d[n] = (None if rng.random() < 0.15 else x, None if rng.random() < 0.15 else rng.choice([0.5, 1., 4.]))
        return d


def qreport(W, a):
    r = rep(W, a.st, "MarineReportQC", ID=a.id)
    for v, (c, s) in a.norms.items():
        r.add_climate_variable(v, c, s)
    r.add_climate_variable("WW", 77.0, 3.0)
    if "dat" in a.__dict__ and a.dat is not None:
        r.setext("DAT", a.dat)
    if W.symbolic:
        r.qc = Store("qc", flag0)
    else:
        r.qc = {}
        for t, f, x in a.before:
            r.set_qc(t, f, x)
    return r


class Before(Desc):
    """flags set before; for symbols any"""

    def sym(self, E, name):
        return ()

    def rand(self, rng, pool):
        return [(rng.choice(["POS", "SST", "AT", "DPT", "W"]), rng.choice(["noval", "clim", "pos", "bud", "hardlimit", "trk"]), rng.randint(0, 9))
                for _ in range(rng.choice([0, 0, 3, 12]))]


def data_now(r):
    d = r.data
    if isinstance(d, Data):
        return sorted(d.written)
    return [None if x != x else float(x) for x in d]


def run_of(method, *args):
    def run(W, a):
        r = qreport(W, a)
        was, data = r.get_qc(*a.other), data_now(r)
        getattr(r, method)(*[a.P if x == "P" else x for x in args])
        return r, was, data
    return run


def post_of(want):
    def post(a, out):
        r, was, data = out
        w = want(a)
        res = [("%s/%s as documented" % k, r.get_qc(*k) == x) for k, x in w.items()]
        hit = [And(a.other[0] == t, a.other[1] == f) for t, f in w]
        if isinstance(r.data, Data):
            res.append(("nothing else is written", not r.data.written))
        else:
            res.append(("nothing else is written", data_now(r) == data))
        res.append(("other flags stay", Or(Or(*hit), r.get_qc(*a.other) == was)))
        return res
    return post


def one(name, method, only, want, norm=(), P=None, args=(), ident=Const("SHIP"), pre=None, extra=None, rep_extra=None, **kw):
    params = dict(st=AnyReport(only=only, full=[n for n in NEED if n in only], extra=rep_extra), id=ident, norms=Norms(*norm), other=OTHER, before=Before())
    if P is not None:
        params["P"] = P
    params.update(extra or {})
    fn = [MQ + method, "Extended_IMMA.MarineReport.set_qc"]
    kw.setdefault("samples", 800)
    add(name, params, run_of(method, *args), fn, post=post_of(want), pre=pre, diff=False, **kw)


class Dict(Desc):
    def __init__(self, **ds):
        self.ds = ds

    def sym(self, E, name):
        return {k: d.sym(E, name + "." + k) for k, d in self.ds.items()}

    def rand(self, rng, pool):
        return {k: d.rand(rng, pool) for k, d in self.ds.items()}


class Lims(Desc):
    def __init__(self, lo, hi, usual):
        self.lo, self.hi, self.usual = lo, hi, usual

    def sym(self, E, name):
        x, y = E.real("a." + name + ".lo"), E.real("a." + name + ".hi")
        E.assume(And(x >= self.lo, y <= self.hi, x < y))
        return [x, y]

    def rand(self, rng, pool):
        return list(self.usual)


DECKS = {"DCK": [193, 780, 708, 874, 732, 701, 201], "PT": [0, 5, 6, 7, 13, 9, 15, 17], "YR": [1880, 1892, 1893, 1879, 1960, 2005, 1850],
         "LAT": [40., 55., 35., 45., -10., 15., 5., 0., 30.], "LON": [0., 350., 280., 30., 15., 95., 105., 200., 20.]}
one("position", "do_position_check", ("LAT", "LON"), p_pos)
one("date", "do_date_check", ("YR", "MO", "DY"), p_date)
one("time", "do_time_check", ("HR",), p_time)
one("blacklist", "do_blacklist", ("LAT", "LON", "YR", "MO", "DCK", "PT"), p_black, ident=Opt(C24.ID), rep_extra=DECKS, budget=120)
one("buoys", "is_buoy", ("PT",), p_buoy)
one("ships", "is_ship", ("PT",), p_ship)
one("deck 780", "is_deck_780", ("DCK",), p_780, rep_extra=DECKS)
one("wind blacklist", "wind_blacklist", ("DCK",), p_windbl, rep_extra=DECKS)
one("humidity blacklist", "humidity_blacklist", ("PT",), p_humbl)
one("air temperature blacklist", "mat_blacklist", ("DCK", "PT", "YR", "LAT", "LON"), p_matbl, rep_extra=dict(DECKS, DCK=[193, 780]), samples=3000)

WP = Dict(hard_limits=Lims(0, 200, (0., 50.)), variable_limit=Real(0, 50, extra=(3.,)))
SP = Dict(maximum_anomaly=Real(0, 50), maximum_standardised_anomaly=Real(0.1, 10, extra=(3.,)), lowbar=Real(0, 50, extra=(10.,)))
TP = Dict(hard_limits=Lims(-150, 150, (-5., 45.)), maximum_anomaly=Real(0, 50, extra=(8.,)), freezing_point=Real(-3, 1, extra=(-1.8,)),
          freeze_check_n_sigma=Real(0, 5, extra=(2.,)))
KP = Dict(hard_limits=Lims(-150, 150, (-80., 65.)), minmax_standard_deviation=Lims(0.01, 50, (1., 4.)),
          maximum_standardised_anomaly=Real(0.1, 10, extra=(4.,)))
one("wind speed", "do_base_wind_qc", ("W", "D"), p_wind, P=WP, args=("P",), rep_extra={"D": [361., 362., 0.], "W": [0., 3., 50., 50.5]})
one("pressure", "do_base_slp_qc", ("SLP", "AT"), p_slp, P=SP, args=("P",), norm=("SLP",))
one("sea temperature", "do_base_sst_qc", ("SST", "AT"), p_sst, P=TP, args=("P",), norm=("SST",), rep_extra={"SST": [-1.8, -1.81, 45., -5., 45.5]})
one("air temperature", "do_base_mat_qc", ("AT", "SST", "AT2"), p_at, P=TP, args=("P",), norm=("AT",))
one("air temperature for humidity", "do_kate_mat_qc", ("AT2", "AT"), p_kate, P=KP, args=("P",), norm=("AT2",))
one("dew point", "do_base_dpt_qc", ("DPT", "AT2", "AT"), p_dpt, P=KP, args=("P",), norm=("DPT",))
one("day air temperature", "do_base_dat_qc", ("AT",), lambda a: p_at(a, "DAT"), P=TP, args=("P",), norm=("DAT", ), extra=dict(dat=Opt(Real(-99, 99))))


# --------------------------------------------------------- hours, day and night

def hour_run(W, a):
    r = qreport(W, a)
    was = r.get_qc(*a.other)
    r.calculate_dt()
    r.do_fix_missing_hour()
    r.do_fix_deck201_zero_hour()
    return [get_now(r, x) for x in ("HR", "DCK", "YR", "MO", "DY", "LAT", "SST")] + [fields_of(r.dt), r.get_qc(*a.other) == was]


def get_now(r, x):
    return r.getvar(x)


def filled(a):
    """a missing hour of deck 701 before 1860 is midnight"""
    h, deck, y = get(a.st, "HR"), get(a.st, "DCK"), get(a.st, "YR")
    if h is None and deck is not None and y is not None and bool(And(deck == 701, y < 1860)):
        return 0.0
    return h


class Midnight(object):
    """the report with its hour filled in"""

    def __init__(self, st, h):
        self.st, self.h = st, h

    def get(self, x):
        return self.h if x == "HR" else get(self.st, x)


def hour_spec(a):
    h = filled(a)
    d = Midnight(a.st, h)
    return [h] + [get(a.st, x) for x in ("DCK", "YR", "MO", "DY", "LAT", "SST")] + [when_of(d), True]


def when_of(d):
    vs = [d.get(x) for x in ("YR", "MO", "DY", "HR")]
    if any(v is None for v in vs):
        return None
    y, m, dd, h = vs
    if not bool(And(m >= 1, m <= 12, h >= 0, h < 24)) or not bool(And(dd >= 1, dd <= mlen(y, m))):
        return None
    return [y, m, dd, Floor(h), Floor(60 * (h - Floor(h)))]


HOURS = {"DCK": [701, 201, 700], "YR": [1859, 1860, 1850, 1899], "HR": [0., 12.]}
add("a missing hour of deck 701 before 1860 is midnight",
    dict(st=AnyReport(only=("DCK", "YR", "MO", "DY", "HR", "LAT", "SST"), full=("YR", "MO"), extra=HOURS, miss=0.3), id=Const("SHIP"), norms=Norms(), other=OTHER, before=Before()),
    hour_run, [MQ + "do_fix_missing_hour", MQ + "do_fix_deck201_zero_hour"], spec=hour_spec, samples=2000, diff=False)


def stub(spec, *names, **kw):
    return Contract("stub", dict.fromkeys(names), None, [], spec=spec, **kw)


def sunny(year, month, day, hour, lat, lon, since):
    E = core.engine()
    es = [core.real(*core.lift(x)) for x in (year, month, day, hour, lat, lon, since)]
    v = core.SNum(z3.Function("day_test", *([z3.RealSort()] * 7 + [z3.IntSort()]))(*es), "i")
    E.assume(And(v >= 0, v <= 1))
    return v


def valid_time(a):
    if any(getattr(a, x) is None for x in ("year", "month", "day", "hour", "lat", "lon")):
        return False
    return And(validdate(a.year, a.month, a.day), a.hour >= 0, a.hour <= 24, a.lat >= -90, a.lat <= 90)


DAY = stub(lambda a: sunny(a.year, a.month, a.day, a.hour, a.lat, a.lon, a.since), "year", "month", "day", "hour", "lat", "lon", "since",
           pre=valid_time)
DAY.params["since"] = Const(1.0)
DAY.params["since"].default = 1.0
SUN = {"qc.day_test": DAY}


def p_day(a, hour=None):
    """day when the position, the date or the time is wrong, else as the sun stands"""
    g = {x: get(a.st, x) for x in ("YR", "MO", "DY", "HR", "LAT")}
    if hour is not None:
        g["HR"] = hour[0]
    h = g["HR"]
    ok = p_pos(a)[("POS", "pos")] == 0
    if g["DY"] is None or h is None:
        return {("POS", "day"): 1}
    if not bool(And(ok, p_date(a)[("POS", "date")] == 0, h >= 0, h < 24)):
        return {("POS", "day"): 1}
    if isinstance(a.st, State):
        return {("POS", "day"): sunny(g["YR"], g["MO"], g["DY"], h, g["LAT"], lon_of(a.st), a.since)}
    return {("POS", "day"): C21.day_spec(NS(year=g["YR"], month=g["MO"], day=g["DY"], hour=h, lat=g["LAT"], lon=lon_of(a.st), since=a.since))}


def clear_sky(a):
    """not within rounding of sunrise or sunset"""
    g = {x: get(a.st, x) for x in ("YR", "MO", "DY", "HR", "LAT")}
    g["HR"] = filled(a)
    if any(x is None for x in g.values()) or not validdate(g["YR"], g["MO"], g["DY"]) or not 0 <= g["HR"] < 24:
        return True
    return C21.clear(lambda x: 0)(NS(year=g["YR"], month=g["MO"], day=g["DY"], hour=g["HR"], lat=g["LAT"], lon=lon_of(a.st), since=a.since))


def day_run(W, a):
    r = qreport(W, a)
    r.do_position_check()
    r.do_date_check()
    r.do_time_check()
    was, data = r.get_qc(*a.other), data_now(r)
    r.do_day_check(a.since)
    return r, was, data


SINCE = Real(0, 24, lo_open=True, extra=(1.0,))
add("day and night", dict(st=AnyReport(only=("LAT", "LON", "YR", "MO", "DY", "HR"), full=NEED, extra={"YR": [1900, 1999, 2024, 2025]}), id=Const("SHIP"),
                          norms=Norms(), other=OTHER, before=Before(), since=SINCE), day_run, [MQ + "do_day_check"],
    post=post_of(p_day), use=SUN, guard=clear_sky, samples=1500, diff=False, budget=150)


# ------------------------------------------------------------ the whole of base QC

FLAGS_OF = {
    "do_position_check": [("POS", "pos")], "do_date_check": [("POS", "date")], "do_time_check": [("POS", "time")],
    "do_blacklist": [("POS", "blklst")], "do_day_check": [("POS", "day")], "is_buoy": [("POS", "isbuoy"), ("POS", "isdrifter")],
    "is_ship": [("POS", "isship")], "is_deck_780": [("POS", "is780")], "wind_blacklist": [("W", "wind_blacklist")],
    "humidity_blacklist": [("DPT", "hum_blacklist")], "mat_blacklist": [("AT", "mat_blacklist")],
    "do_base_wind_qc": [("W", x) for x in ("noval", "hardlimit", "consistency")],
    "do_base_slp_qc": [("SLP", x) for x in ("noval", "clim", "nonorm")],
    "do_base_sst_qc": [("SST", x) for x in ("noval", "freez", "clim", "nonorm", "hardlimit")],
    "do_base_mat_qc": [("AT", x) for x in ("noval", "clim", "nonorm", "hardlimit")],
    "do_base_dat_qc": [("DAT", x) for x in ("noval", "clim", "nonorm", "hardlimit")],
    "do_kate_mat_qc": [("AT2", x) for x in ("clim", "noval", "nonorm", "hardlimit")],
    "do_base_dpt_qc": [("DPT", x) for x in ("clim", "noval", "nonorm", "ssat")]}
WITH = {"do_base_wind_qc": "W", "do_base_slp_qc": "SLP", "do_base_sst_qc": "SST", "do_base_mat_qc": "AT", "do_base_dat_qc": "DAT",
        "do_kate_mat_qc": "AT", "do_base_dpt_qc": "DPT"}


def verdict(key):
    return core.SNum(z3.Int("verdict.%s/%s" % key), "i")


def done(self):
    return [k for k, v in self.qc.puts]


def check_stub(name):
    """the contract proved above: the check's flags get its verdicts (on a report whose hour has been filled in)"""
    def spec(a):
        for k in FLAGS_OF[name]:
            a.self.qc[k] = verdict(k)
        core.engine().memo.setdefault("called", []).append(name)

    def pre(a):
        ok = getattr(a.self, "filled", False)
        if name == "do_day_check":
            d = done(a.self)
            ok = ok and all(k in d for k in (("POS", "pos"), ("POS", "date"), ("POS", "time"))) and a.P is core.engine().memo["P"]["base"]["time_since_sun_above_horizon"]
        elif name in WITH:
            ok = ok and a.P is core.engine().memo["P"][WITH[name]]
        return ok
    names = ["self"] + (["P"] if name in WITH or name == "do_day_check" else [])
    return stub(spec, *names, pre=pre)


def fill(a):
    a.self.filled = True


CHECKS = {MQ + n: check_stub(n) for n in FLAGS_OF}
CHECKS[MQ + "do_fix_missing_hour"] = stub(fill, "self", pre=lambda a: not done(a.self))
CHECKS[MQ + "do_fix_deck201_zero_hour"] = stub(lambda a: None, "self")

PERFORM = {
    "perform_base_qc": ["is_buoy", "is_ship", "is_deck_780", "do_position_check", "do_date_check", "do_time_check", "do_blacklist", "do_day_check",
                        "humidity_blacklist", "mat_blacklist", "wind_blacklist", "do_base_sst_qc", "do_base_mat_qc", "do_base_dpt_qc",
                        "do_base_slp_qc", "do_base_wind_qc", "do_kate_mat_qc"],
    "perform_base_wind_qc": ["is_buoy", "is_ship", "wind_blacklist", "do_position_check", "do_date_check", "do_time_check", "do_blacklist",
                             "do_base_wind_qc"],
    "perform_base_dat_qc": ["is_buoy", "is_ship", "mat_blacklist", "do_position_check", "do_date_check", "do_time_check", "do_blacklist",
                            "do_day_check", "do_base_dat_qc"],
    "perform_base_slp_qc": ["is_buoy", "is_ship", "is_deck_780", "do_position_check", "do_date_check", "do_time_check", "do_blacklist",
                            "do_day_check", "do_base_slp_qc"],
    "perform_base_sst_qc": ["is_buoy", "is_ship", "is_deck_780", "do_position_check", "do_date_check", "do_time_check", "do_blacklist",
                            "do_day_check", "do_base_sst_qc"]}
ORACLE = {
    "do_position_check": p_pos, "do_date_check": p_date, "do_blacklist": p_black, "is_buoy": p_buoy, "is_ship": p_ship, "is_deck_780": p_780,
    "wind_blacklist": p_windbl, "humidity_blacklist": p_humbl, "mat_blacklist": p_matbl}


class Params(Desc):
    """the parameters of every variable"""

    def sym(self, E, name):
        P = {v: NS(of=v) for v in ("SST", "AT", "DPT", "SLP", "W", "DAT", "SHU", "RH")}
        for v in ("AT", "DPT", "SHU", "RH"):
            P[v] = {"hard_limits": Lims(-200, 200, None).sym(E, "lim" + v)}
        P["base"] = {"time_since_sun_above_horizon": 1.0}
        E.memo["P"] = P
        return P

    def rand(self, rng, pool):
        P = {}
        for v, ds in dict(SST=TP, AT=TP, DAT=TP, DPT=KP, SLP=SP, W=WP, SHU=KP, RH=KP).items():
            P[v] = dict(KP.rand(rng, pool), **ds.rand(rng, pool))
        P["AT"]["hard_limits"], P["SHU"]["hard_limits"], P["RH"]["hard_limits"] = [-80., 65.], [0., 65.], [0., 150.]
        P["DPT"]["hard_limits"] = [-80., 65.]
        P["base"] = {"time_since_sun_above_horizon": rng.choice([1.0, 1.0, 2.5])}
        P["SST"]["maximum_anomaly"], P["AT"]["maximum_anomaly"] = rng.choice([8.0, 20.]), rng.choice([10., 15.])
        return P


def silly(a):
    """a value among those of humidity is missing or beyond its limits"""
    r = False
    for v, p in (("AT", "AT"), ("DPT", "DPT"), ("SHU", "SHU"), ("CRH", "RH")):
        if isinstance(a.st, State):
            r = Or(r, s_hard(NS(x=Lazy(*a.st.raw(v)), lims=a.P[p]["hard_limits"])) == 1)
        else:
            r = r or hard(get(a.st, v), a.P[p]["hard_limits"]) == 1
    return b(r)


def perform_run(method):
    def run(W, a):
        r = qreport(W, a)
        was, data = r.get_qc(*a.other), data_now(r)
        if W.symbolic:
            a.P = core.engine().memo["P"]
        getattr(r, method)(a.P)
        return r, was, data
    return run


def perform_want(method, a):
    w = {}
    if isinstance(a.st, State):
        for n in PERFORM[method]:
            for k in FLAGS_OF[n]:
                w[k] = verdict(k)
    else:
        h = filled(a)
        a2 = NS(**dict(a.__dict__, st=dict(a.st, HR=h) if h is not None else a.st, since=a.P["base"]["time_since_sun_above_horizon"]))
        for n in PERFORM[method]:
            if n in ORACLE:
                w.update(ORACLE[n](a2))
            elif n == "do_time_check":
                w[("POS", "time")] = p_time(a2)[("POS", "time")]
            elif n == "do_day_check":
                w.update(p_day(a2))
            else:
                f = dict(do_base_wind_qc=p_wind, do_base_slp_qc=p_slp, do_base_sst_qc=p_sst, do_base_mat_qc=p_at,
                         do_base_dat_qc=lambda x: p_at(x, "DAT"), do_kate_mat_qc=p_kate, do_base_dpt_qc=p_dpt)[n]
                w.update(f(NS(**dict(a2.__dict__, P=a.P[WITH[n]], dat=None))))
    if method == "perform_base_qc":
        w[("DPT", "hardlimit")] = silly(a)
    return w


def perform_post(method):
    def post(a, out):
        r, was, data = out
        w = perform_want(method, a)
        res = [("%s/%s as documented" % k, r.get_qc(*k) == x) for k, x in w.items()]
        hit = Or(*[And(a.other[0] == t, a.other[1] == f) for t, f in w])
        if isinstance(r.data, Data):
            res.append(("the data stay", not r.data.written))
        else:
            now = data_now(r)
            i = NAMES_AT("HR")
            if filled(a) is not None:
                data = data[:i] + [float(filled(a))] + data[i + 1:]
            res.append(("the data stay, but for a missing hour filled in", now == data))
        res.append(("other flags stay", Or(hit, r.get_qc(*a.other) == was)))
        return res
    return post


def NAMES_AT(x):
    return _contract.REAL.Extended_IMMA.VARLIST.index(x)


from pyvc import contract as _contract  # noqa: E402


class Any(AnyReport):
    """for the solver only the humidity values matter, the rest is seen through the checks' contracts"""

    def sym(self, E, name):
        return State(name + ".", self.gone, (), self.ranges, ("AT", "DPT", "SHU", "CRH"))


class SomeNorms(Norms):
    def sym(self, E, name):
        return {}


WHOLE = dict(DECKS, W=[0., 3., 50.5, 200.], D=[361., 362., 0.], SST=[-1.8, -1.9, 15., 45.5], AT=[10., 15., 66., -81.], AT2=[10., 15.],
             DPT=[10., 15., 16.], SLP=[1000., 1010., 960.], SHU=[5., 66., -1.], CRH=[50., 151., -0.5, 100.], HR=[0., 12., 23.5, 5.])


def since_of(a):
    return clear_sky(NS(**dict(a.__dict__, since=a.P["base"]["time_since_sun_above_horizon"])))


def two(x):
    return (x.miss, x.val) if isinstance(x, Lazy) else (x is None, 0.0 if x is None else x)


def lazy_var(a):
    """a variable, through getvar's contract"""
    return None if not isinstance(a.self.data, Data) else Lazy(*a.self.data.st.raw(a.name))


def s_hard(a):
    m, x = two(a.x)
    return Ite(m, 1, hard(x, a.lims))


MR = "Extended_IMMA.MarineReport."
SEEN = dict(CHECKS, **{MR + "getvar": stub(lazy_var, "self", "name"), "qc.hard_limit": stub(s_hard, "x", "lims", pre=lambda a: a.lims[0] < a.lims[1])})
for _m in PERFORM:
    add(_m, dict(st=Any(full=NEED, extra=WHOLE, miss=0.05), id=Const("SHIP"), norms=SomeNorms("SST", "AT", "AT2", "DPT", "SLP"), other=OTHER, before=Before(), P=Params()),
        perform_run(_m), [MQ + _m], post=perform_post(_m), use=SEEN, samples=1200, guard=since_of, diff=False)


# --------------------------------------------------- the same for a report, as one function

def base_run(W, a):
    r = qreport(W, a)
    was, data = r.get_qc(*a.other), data_now(r)
    out = W.qc.base_qc_report(r)
    return r, was, data


def base_want(a):
    w = {}
    for f in (p_pos, p_date, p_780, p_ship, p_black):
        w.update(f(a))
    w[("POS", "isbuoy")] = p_buoy(a)[("POS", "isbuoy")]
    w.update(p_matbl(a, 1893, "POS"))
    w.update(p_day(a))
    for v, lim in (("SST", 8.0), ("AT", 10.0)):
        x, m = get(a.st, v), norms(a, v)[0]
        w.update({(v, "noval"): noval(x), (v, "nonorm"): noval(m), (v, "clim"): clim(x, m, lim)})
    x = get(a.st, "SST")
    w[("SST", "freez")] = 0 if x is None else b(x < -1.8)
    return w



# seen through the contracts of its callees (C02, C03, C20, C24), values of SST and AT and their normals without telling
# the missing ones apart

def var_of(a):
    if a.name in ("ID", "UID"):
        return a.self.id if a.name == "ID" else a.self.uid
    if not isinstance(a.self.data, Data):
        return None                       # while a report without data is made
    if a.name in ("SST", "AT"):
        return Lazy(*a.self.data.st.raw(a.name))
    return a.self.data.st.get(a.name)


def norm_of(a):
    return Lazy(core.mkb(z3.Bool("no norm " + a.name)), core.SNum(z3.Real("norm " + a.name), "r"))


def s_clim(a):
    (m, x), (n, c) = two(a.x), two(a.c)
    return Ite(Or(m, n), 1, b(C02.far(x, c, a.lim)))


def s_none(a):
    return b(two(a.x)[0])


def s_freeze(a):
    m, x = two(a.x)
    return Ite(m, 0, b(x < -1.8 - 2 * a.u))


REST = dict(SUN, **{
    MR + "getvar": stub(var_of, "self", "name"), MR + "getnorm": stub(norm_of, "self", "name"),
    "qc.climatology_check": stub(s_clim, "x", "c", "lim"), "qc.value_check": stub(s_none, "x"), "qc.no_normal_check": stub(s_none, "x"),
    "qc.sst_freeze_check": stub(s_freeze, "x", "u"),
    "qc.position_check": stub(lambda a: p_pos(NS(st={"LAT": a.lat, "LON": a.lon}))[("POS", "pos")], "lat", "lon"),
    "qc.date_check": stub(lambda a: C03.date_spec(a), "y", "m", "d"), "qc.time_check": stub(lambda a: p_time(NS(st={"HR": a.h}))[("POS", "time")], "h"),
    "qc.blacklist": stub(lambda a: listed(a.id, a.deck, a.year, a.month, a.lat, a.lon, a.pt), "id", "deck", "year", "month", "lat", "lon", "pt")})


def listed(*xs):
    """for symbols, blacklist's verdict (C24): a function of its arguments"""
    es = []
    for x in xs[1:]:
        es += [z3.BoolVal(x is None), z3.RealVal(0) if x is None else core.real(*core.lift(x))]
    es = [z3.BoolVal(xs[0] is None), z3.StringVal("") if xs[0] is None else core.SStr._l(xs[0])] + es
    v = core.SNum(z3.Function("blacklist", *([e.sort() for e in es] + [z3.IntSort()]))(*es), "i")
    core.engine().assume(And(v >= 0, v <= 1))
    return v


def base_sym(a):
    """the same, on what the callees' contracts speak of"""
    g = lambda n: get(a.st, n)
    w = {}
    for f in (p_pos, p_date, p_780, p_ship):
        w.update(f(a))
    w[("POS", "blklst")] = listed(a.id, g("DCK"), g("YR"), g("MO"), g("LAT"), lon_of(a.st), g("PT"))
    w[("POS", "isbuoy")] = p_buoy(a)[("POS", "isbuoy")]
    w.update(p_matbl(a, 1893, "POS"))
    w.update(p_day(a))
    for v, lim in (("SST", 8.0), ("AT", 10.0)):
        x, m = Lazy(*a.st.raw(v)), norm_of(NS(name=v))
        w.update({(v, "noval"): s_none(NS(x=x)), (v, "nonorm"): s_none(NS(x=m)), (v, "clim"): s_clim(NS(x=x, c=m, lim=lim))})
    w[("SST", "freez")] = s_freeze(NS(x=Lazy(*a.st.raw("SST")), u=0.0))
    return w


def at_once(post):
    """for symbols, all in one obligation"""
    def f(a, out):
        r = post(a, out)
        return r if not isinstance(a.st, State) else [("every flag as documented, nothing else changed", And(*[c for n, c in r]))]
    return f


add("base_qc_report", dict(st=AnyReport(full=NEED, extra=WHOLE, only=("LAT", "LON", "YR", "MO", "DY", "HR", "PT", "DCK", "SST", "AT"), miss=0.08), id=Opt(C24.ID),
                           norms=SomeNorms("SST", "AT"), other=OTHER, before=Before(), since=Const(1.0)), base_run, ["qc.base_qc_report"],
    post=at_once(post_of(lambda a: base_sym(a) if isinstance(a.st, State) else base_want(a))), use=REST, samples=2500, guard=clear_sky, diff=False, budget=300,
    pre=lambda a: isinstance(a.st, State) or all(x in a.st for x in NEED))
