"""C28: a run over months (the mains of marine_qc, marine_qc_hires and marine_qc_track_only).

The collaborators of main (records, reports, decks, fields, files) are ghost stand-ins that note what main does with them;
each has its own contracts under the other properties. QC filters, the climatology library and the calendar functions are
the real ones."""
import types

from .common import *

CONTRACTS = Specs()
add = CONTRACTS.add

PROGRAMS = ("marine_qc", "marine_qc_hires", "marine_qc_track_only")


class Beyond(BaseException):
    """main asks a stand-in for something it does not have: the contract says nothing about that"""


def beyond(what):
    if core.engine() is not None:
        raise core.Unsupported(what)
    raise Beyond(what)


class Stand(object):
    __ghost__ = True

    def __getattr__(self, n):
        if n.startswith("__") or n in ("slen", "sget"):
            raise AttributeError(n)
        beyond("%s.%s" % (type(self).__name__, n))


def parser_for(values):
    """argparse.ArgumentParser: what is parsed has the arguments that were added, and no other"""
    class Parser(Stand):
        def __init__(self, *x, **k):
            self.names = []

        def add_argument(self, *x, **k):
            self.names.append(k.get("dest") or x[-1].lstrip("-"))

        def parse_args(self, *x):
            v = dict(values)
            return types.SimpleNamespace(**{n: v.get(n) for n in self.names})
    return Parser


def Config_for(known):
    """a configuration file: "section/option" of each entry but those known"""
    class Config(Stand):
        def read(self, f):
            if f != "config file":
                beyond("another configuration file")

        def get(self, s, o):
            k = s + "/" + o
            return known[k] if isinstance(k, str) and k in known else k
    return Config


class Params(dict):
    def __missing__(self, k):
        beyond("parameter %s" % k)


MEANS = ["SST", "AT", "SLP2", "SHU", "CRH", "CWB", "DPD", "DPT", "AT2", "SLP", "VAP"]
STDEVS = ["DPT", "AT2", "SLP"]
PARAMS = dict(icoads_dir="icoads dirs", icoads_filenames="icoads names", background_dir="background dirs",
              background_filenames="background names", runid="RUN",
              climatologies=[[v, "mean", "file of %s" % v, "nc %s" % v] for v in MEANS] +
                            [[v, "stdev", "stdev file of %s" % v, "ncs %s" % v] for v in STDEVS],
              hires_climatologies=[["SST", "stdev", "hires stdev", "x"], ["SST", "mean", "hires file", "x"], ["AT", "mean", "hires AT", "x"]])
for _k in ("track_check", "IQUAM_track_check", "IQUAM_spike_check", "saturated_runs", "multiple_rounded_values",
           "find_repeated_values", "mds_buddy_check", "slp_buddy_check", "bayesian_buddy_check", "base", "SST", "AT", "DPT", "SLP"):
    PARAMS[_k] = "p " + _k


class Value(object):
    """what a field says: which field, looked up how and where; by how much it was shifted"""

    def __init__(self, key, by=0):
        self.key, self.by = key, by

    def __sub__(self, x):
        return Value(self.key, self.by - x)

    def __add__(self, x):
        return Value(self.key, self.by + x)

    def plain(self):
        return list(self.key) + [self.by]


class Field(Stand):
    def __init__(self, run, file, var):
        self.run, self.file, self.var = run, file, var

    def get_value(self, lat, lon, mo, dy):
        return Value(["value", self.file, self.var, lat, lon, mo, dy])

    def get_value_mds_style(self, lat, lon, mo, dy):
        return Value(["mds", self.file, self.var, lat, lon, mo, dy])

    def get_value_ostia(self, lat, lon):
        if self.run.a.masked or self.file is None or (isinstance(self.file, Before) and self.file.none()):
            return None
        return Value(["ostia", self.file, self.var, lat, lon])


class Data(dict):
    """the variables of a record, as far as it could be read"""
    whole = False

    def __missing__(self, k):
        if self.whole:
            beyond("variable %s" % k)
        raise KeyError(k)


class Record(Stand):
    def __init__(self, run):
        self.run, self.data, self.lines, self.attachments = run, Data(), [], []

    def readstr(self, line):
        key = line.strip()
        if key == "":
            return 1
        l = self.run.lines[key]
        self.lines.append(key)
        if l.kind == "unreadable from the start":
            raise ValueError("invalid literal")
        if l.kind.startswith("unreadable"):
            self.data["ID"] = "BADID    " if l.kind.endswith("excluded") else "SHIP1    "
            raise ValueError("invalid literal")
        self.data.update(ID={"excluded": "BADID    ", "nameless": None, "usable": "SHIP1    "}[l.kind], YR=l.yr, MO=l.mo, DY=l.dy)
        self.data.whole = True
        return 1


class Report(Stand):
    def __init__(self, run, rec):
        self.run, self.src = run, list(rec.lines)
        self.l = run.lines[self.src[-1]] if self.src else None
        self.id = rec.data["ID"]
        self.date = dict(YR=rec.data["YR"], MO=rec.data["MO"], DY=rec.data["DY"])
        self.clim, self.sets, self.ext, self.flags, self.based, self.hum = {}, {}, {}, {}, [], None

    def getvar(self, n):
        if n in self.date:
            return self.date[n]
        if n == "ID":
            return self.id
        if n in self.ext:
            return self.ext[n]
        return self.sets.get(n, "%s of %s" % (n, self.src[-1]))

    def lat(self):
        return self.getvar("LAT")

    def lon(self):
        return "lon of %s" % self.src[-1]

    def setvar(self, n, v):
        self.sets[n] = v

    def setext(self, n, v):
        self.ext[n] = v

    def add_climate_variable(self, n, v, sd=None):
        self.clim[n] = [v.plain() if isinstance(v, Value) else v, sd.plain() if isinstance(sd, Value) else sd]

    def calculate_humidity_variables(self, names):
        self.hum = [sorted(names), sorted(self.clim)]

    def base(self, how, p):
        self.based.append([how, p is self.run.params, dict(self.clim), dict(self.sets), self.hum])
        self.date = dict(YR=self.l.yr2, MO=self.l.mo2, DY=self.l.dy)       # base QC may correct the date

    def perform_base_qc(self, p):
        self.base("all", p)

    def perform_base_sst_qc(self, p):
        self.base("sst", p)

    def set_qc(self, t, f, v):
        self.flags[t, f] = v

    def plain(self):
        return dict(src=self.src, based=self.based, flags={"%s %s" % k: v for k, v in self.flags.items()},
                    ext={k: v.plain() if isinstance(v, Value) else v for k, v in self.ext.items()})


POSITION = ["POS date", "POS time", "POS pos", "POS blklst"]
SEEN = {"track": POSITION,
        "SST": POSITION + ["POS trk", "POS is780", "SST noval", "SST freez", "SST clim", "SST nonorm"],
        "AT": POSITION + ["POS trk", "POS day", "POS isship", "AT mat_blacklist", "AT noval", "AT clim", "AT nonorm"],
        "DPT": POSITION + ["POS trk", "DPT hum_blacklist", "DPT noval", "DPT clim", "DPT nonorm"],
        "SLP": POSITION + ["POS trk", "SLP noval", "SLP clim", "SLP nonorm"],
        "drifters": ["POS month_match", "POS isdrifter"]}
ONE = ("POS isship", "POS month_match", "POS isdrifter")       # the flags that are good when set
FLAGS = sorted(set(sum(SEEN.values(), []))) + ["SST bud", "POS iquam_track", "AT hardlimit", "POS isbuoy"]


def good(flag, value):
    return value == (1 if flag in ONE else 0)


class Probe(Stand):
    """a report with the given flags, all others good"""

    def __init__(self, run):
        self.run = run

    def get_qc(self, t, f):
        name = "%s %s" % (t, f)
        if name not in FLAGS:
            beyond("flag %s" % name)
        if name in self.run.a.flags:
            return self.run.a.flags[name]
        return 1 if name in ONE else 0


def seen_by(check, a):
    """whether a report with these flags takes part in the check"""
    return And(*[good(n, a.flags[n]) for n in SEEN[check] if n in a.flags])


class Ship(Stand):
    def __init__(self, deck, i, s):
        self.deck, self.i = deck, i
        self.n, self.id = s.n, s.id

    def slen(self):
        return self.n

    def __len__(self):
        return int(self.n)

    def getrep(self, k):
        if not And(k >= 0, k < self.n):
            raise IndexError("report %s" % (k,))
        return Of(self)


class Of(Stand):
    """a report of a ship"""

    def __init__(self, ship):
        self.ship = ship

    def getvar(self, n):
        return self.ship.id if n == "ID" else beyond("variable %s" % n)


def _ship(name):
    def method(self, *args, **kw):
        if name == "find_repeated_values":
            if len(args) == 1:
                args = args + (kw.pop("intype", "SST"),)
        if kw:
            beyond("keywords")
        self.deck.log.append(["ship", self.i, name] + [self.deck.run.known(x) for x in args])
    return method


for _n in ("track_check", "iquam_track_check", "spike_check", "find_saturated_runs", "find_multiple_rounded_values",
           "find_repeated_values", "write_output", "write_qc"):
    setattr(Ship, _n, _ship(_n))


class Deck(Stand):
    def __init__(self, run):
        self.run, self.reps, self.log, self.filt, self.asked, self.round = run, [], [], None, 0, []
        run.decks.append(self)

    def __len__(self):
        return len(self.reps)

    def append(self, rep):
        self.reps.append(rep)

    def add_filter(self, f):
        self.filt = f

    def passes(self):
        """whether the report of the run passes the filter, the time it is watched"""
        self.asked += 1
        if self.run.a.watch != self.asked - 1:
            return None
        return True if self.filt is None else self.filt.test_report(Probe(self.run)) == 0

    def get_one_platform_at_a_time(self):
        self.log.append(["see", self.passes()])
        self.round.append(None)
        if isinstance(self.run.a.ships, Any):
            return AnyShips(self)
        return iter([Ship(self, i, s) for i, s in enumerate(self.run.a.ships)])

    def bayesian_buddy_check(self, *args):
        self.log.append(["bayesian"] + [self.run.known(x) for x in args] + [self.passes()])

    def mds_buddy_check(self, *args):
        self.log.append(["mds"] + [self.run.known(x) for x in args] + [self.passes()])

    def write_output(self, *args):
        self.log.append(["write_output"] + [self.run.known(x) for x in args])

    def write_qc(self, *args):
        self.log.append(["write_qc"] + [self.run.known(x) for x in args])


class Dated(object):
    """a file or directory of a year and month (and day)"""

    def __init__(self, what, *date):
        self.what, self.date = what, list(date)

    def __add__(self, s):
        return Dated(self.what + s, *self.date)

    def plain(self):
        return [self.what] + self.date


class Run(object):
    """one run of a main on the arguments a"""

    def __init__(self, W, prog, a):
        self.W, self.a, self.prog = W, a, prog
        self.params = Params(PARAMS)
        self.decks, self.lines, self.idfiles, self.asked = [], {}, [], []
        for k, f in a.files.items():
            if f is not None and f != "any":
                for i, l in enumerate(f):
                    self.lines["%s.%d" % (k, i)] = l

    def known(self, x):
        if x is self.params:
            return "parameters"
        if isinstance(x, Field):
            return [x.file, x.var]
        if isinstance(x, Dated):
            return x.plain()
        if isinstance(x, str) and x.startswith("dir "):
            w = x.split()
            return ["dir", int(w[1]), int(w[2])]
        if isinstance(x, dict):
            return {k: sorted(v) for k, v in x.items()}
        return x

    def dated(self, what, *date):
        return Dated(what, *date) if self.W.symbolic else " ".join([what] + ["%d" % d for d in date])

    # ---- stand-ins for the modules
    def icoads(self, d, n, y, m):
        if (d, n) != ("icoads dirs", "icoads names"):
            beyond("other directories")
        return self.dated("icoads", y, m)

    def gz(self, name, mode="r"):
        if isinstance(name, Dated):
            y, m = name.date
        else:
            y, m = [int(x) for x in name.split()[1:]]
        base = self.a.y * 12 + self.a.m
        for k in self.a.files:
            if bool(y * 12 + m == base + int(k)):
                self.asked.append(int(k))
                if self.a.files[k] == "any":
                    self.a.files[k] = None if core.engine().choose(2) else Any()
                if self.a.files[k] is None:
                    raise IOError("no such file")
                if isinstance(self.a.files[k], Any):
                    return AnyFile(self, k)
                return Open(["\n" if l.kind == "blank" else "%s.%d\n" % (k, i) for i, l in enumerate(self.a.files[k])])
        self.asked.append("another month")
        raise IOError("no such file")

    def background(self, d, n, y, m, dd):
        if y is None or m is None or dd is None:
            return None
        if (d, n) != ("background dirs", "background names"):
            beyond("other directories")
        return ["background", y, m, dd]

    def opened(self, name, mode="r"):
        if name == "Files/parameter_file":
            return Open([], "parameters")
        w = name.plain() if isinstance(name, Dated) else name
        if isinstance(w, str) and w.startswith("dir "):
            x, rest = w.split("/", 1)
            w = ["dir/" + rest] + [int(k) for k in x.split()[1:]]
        f = Open([], w)
        self.idfiles.append(f)
        return f

    def modules(self):
        a, W = self.a, self.W

        e = a.y * 12 + a.m - 1 + a.span
        Parser = parser_for(dict(config="config file", year1=a.y, month1=a.m, year2=e // 12, month2=e % 12 + 1, tracking=a.tracking))

        run = self

        class Module(Stand):
            def __init__(self, **k):
                self.__dict__.update(k)
        ex = W.Extended_IMMA
        return dict(
            argparse=Module(ArgumentParser=Parser),
            ConfigParser=Module(ConfigParser=Config_for({})),
            json=Module(load=lambda f: run.params if f.name == "parameters" else beyond("another file")),
            gzip=Module(open=run.gz),
            IMMA=lambda: Record(run),
            bf=Module(process_bad_id_file=lambda f: ["OTHER    ", "BADID    "] if f == "Files/IDs_to_exclude" else [],
                      icoads_filename_from_stub=run.icoads, get_background_filename=run.background,
                      safe_make_dir=lambda o, y, m: run.dated("dir" if o == "Directories/out_dir" else "wrong dir", y, m)),
            clim=Module(Climatology=Module(from_filename=lambda f, v: Field(run, f, v))),
            ex=Module(Deck=lambda: Deck(run), MarineReportQC=lambda rec: Report(run, rec), QC_filter=ex.QC_filter,
                      ClimatologyLibrary=ex.ClimatologyLibrary, safe_filename=ex.safe_filename),
            open=run.opened)

    def __call__(self):
        M = getattr(self.W, self.prog)
        new = self.modules()
        old = {k: M.__dict__[k] for k in new if k in M.__dict__}
        M.__dict__.update(new)
        try:
            M.main([])
        except Beyond as ex:
            return "beyond the contract: %s" % (ex,)
        finally:
            for k in new:
                if k in old:
                    M.__dict__[k] = old[k]
                else:
                    del M.__dict__[k]
        return dict(decks=[dict(reps=[r.plain() for r in d.reps], log=d.log) for d in self.decks], asked=self.asked,
                    idfiles=[[f.name, f.written, f.closed] for f in self.idfiles])


class Any(list):
    """the lines of a file (the ships of a deck), any number: one of them stands for each"""

    def __deepcopy__(self, memo):
        return self


class AnyFile(Stand):
    def __init__(self, run, k):
        self.run, self.k = run, k

    def slen(self):
        n = core.engine().int("lines")
        core.engine().assume(n >= 0)
        return n

    def sget(self, i):
        l, key = LINE.sym(core.engine(), "line" + self.k), self.k + ".0"
        self.run.a.files[self.k].append(l)
        self.run.lines[key] = l
        return "\n" if l.kind == "blank" else key + "\n"

    def __iter__(self):
        raise core.Unsupported("the lines of a file outside the loop of the contract")

    def __enter__(self):
        return self

    def __exit__(self, *x):
        pass

    def close(self):
        pass


class AnyShips(AnyFile):
    """the ships of a deck, any number of them: one stands for each"""

    def __init__(self, deck):
        self.deck = deck

    def sget(self, i):
        s = SHIP.sym(core.engine(), "ship%d" % len(self.deck.round))
        self.deck.run.a.ships.append(s)
        self.deck.round[-1] = s
        return Ship(self.deck, 0, s)


class Earlier(object):
    """the reports of the lines of a file so far"""
    __ghost__ = True

    def __init__(self, k):
        self.k = k

    def plain(self):
        return dict(src=["any of " + self.k])


def line_loop(prog):
    """after i lines: the usable records among them, and only those, are taken in; the next record starts afresh; and the
    background at hand is that of the last day seen"""
    tracked = prog != "marine_qc_hires"

    def inv(v, s):
        deck, run = v.reps, v.reps.run
        k = str(run.asked[-1])
        at = [i for i, x in enumerate(deck.reps) if isinstance(x, Earlier) and x.k == k]
        out = [("a fresh record", isinstance(v.rec, Record) and v.rec.lines == [] and v.rec.data == {} and v.rec.attachments == [])]
        if not at:
            out.append(("nothing of this file yet", not any(not isinstance(x, Earlier) for x in deck.reps)))
        else:
            new = [x.plain() for x in deck.reps[at[0] + 1:]]
            if getattr(deck, "started", None) == k:
                want = [expected_rep(run.a, prog, 0, int(k), k + ".0", l) for l in run.a.files[k] if usable(run.a, int(k), l)]
                out.append(("exactly the usable records", [x["src"] for x in new] == [x["src"] for x in want]))
                for x, w in zip(new, want):
                    out.append(("its climatology, base QC and month flag", same_rep(run.a, int(k), x, w)))
        if tracked and run.a.tracking and not (isinstance(v.lastday, int) and v.lastday == -99):
            b = Before(run.a, int(k), v.lastday)
            out.append(("the background of the last day", Or(v.lastday == -99, And(
                *[And(b.same(f.file), f.var == w) for f, w in ((v.climlib.get_field("OSTIA", "background"), "analysed_sst"),
                                                               (v.climlib.get_field("OSTIA", "ice"), "sea_ice_fraction"))]))))
        return out

    def record(E, v, s):
        deck = v.reps
        k = str(deck.run.asked[-1])
        deck.reps.append(Earlier(k))
        deck.__dict__["started"] = k
        return Record(deck.run)

    def lastday(E, v, s):
        run = v.reps.run
        if not run.a.tracking:
            return -99
        d = E.int("lastday")
        E.assume(Or(d == -99, And(d >= 1, d <= 31)))
        b = Before(run.a, run.asked[-1], d)
        v.climlib.add_field("OSTIA", "background", Field(run, b, "analysed_sst"))
        v.climlib.add_field("OSTIA", "ice", Field(run, b, "sea_ice_fraction"))
        return d
    return LoopSpec(inv, havoc=dict(rec=record, **({"lastday": lastday} if tracked else {})), changes=("climlib",), varies=("lastday",))


def checked(prog, i):
    """what is done to ship i"""
    return [["ship", i, METHOD[p], "p " + p] for p in ["track_check"] + (MORE if prog != "marine_qc_hires" else [])] + [
        ["ship", i, "find_repeated_values", "p find_repeated_values", v] for v in (["SST", "AT", "AT2", "DPT", "SLP"] if prog == "marine_qc" else ["SST"])]


def written(prog, a, i):
    y, m = month(a, 0)
    return ["ship", i] + (["write_qc", "hires_RUN", ["dir", y, m], y, m, OUT] if prog == "marine_qc_hires" else ["write_output", "RUN", ["dir", y, m], y, m])


def has_id(s):
    return s.n > 0 and s.id is not None


def listed(s):
    return "%s,%s\n" % (s.id, s.id.replace("/", "_"))


ALL = ["ships", "every one"]


def ship_loop(prog, second):
    """after i ships: each of them had its checks, and nothing else (or: each with an identity was written and listed)"""
    def inv(v, s):
        deck = v.reps
        run, one = deck.run, deck.round[-1]
        if ALL not in deck.log[max(i for i, x in enumerate(deck.log) if x[0] == "see"):]:
            return [("no ship yet", deck.log[-1][0] == "see" and (not second or run.idfiles[-1].written == ""))]
        at = max(i for i, x in enumerate(deck.log) if x == ALL)
        new = deck.log[at + 1:]
        if not second:
            want = [] if one is None else checked(prog, 0)
            return [("every ship is checked", sorted(map(repr, new)) == sorted(map(repr, want)))]
        want = [] if one is None or not has_id(one) else [one]
        return [("every drifter is written", eq(new, [written(prog, run.a, 0) for _ in want])),
                ("and listed", run.idfiles[-1].written == "..." + "".join(map(listed, want)))]

    def ship(E, v, s):
        deck = v.reps
        deck.log.append(ALL)
        deck.round[-1] = None
        if second:
            deck.run.idfiles[-1].written = "..."
        return Stand()
    return LoopSpec(inv, havoc=dict(one_ship=ship), varies=("one_ship", "varname", "thisid"))


class Before(object):
    """the background of the day before day d of the k-th month"""
    __ghost__ = True

    def __init__(self, a, k, d):
        self.a, self.k, self.d = a, int(k), d

    def none(self):
        y, m = month(self.a, self.k)
        return not And(self.d >= 1, self.d <= mlen(y, m))

    def file(self):
        y, m = month(self.a, self.k)
        r = day_before(y, m, self.d)
        return None if r[0] is None else ["background"] + r

    def same(self, x):
        if isinstance(x, Before):
            return And(x.k == self.k, x.d == self.d)
        return eq(x, self.file())


class Open(Stand):
    def __init__(self, lines, name=None):
        self.lines, self.name, self.written, self.closed = lines, name, "", False

    def __iter__(self):
        return iter(self.lines)

    def __enter__(self):
        return self

    def __exit__(self, *x):
        self.closed = True

    def close(self):
        self.closed = True

    def write(self, s):
        self.written += s


# ---------------------------------------------------------------- what is required

def month(a, k):
    e = a.y * 12 + a.m - 1 + k
    return e // 12, e % 12 + 1


def usable(a, k, l):
    y, m = month(a, k)
    return l.kind in ("usable", "nameless") and l.yr is not None and l.mo is not None and bool(And(l.yr == y, l.mo == m))


def expected_reps(a, prog, t):
    """the reports of the run for target month t, in order"""
    out = []
    for k in (t - 1, t, t + 1):
        if isinstance(a.files[str(k)], Any) or a.files[str(k)] == "any":
            out.append(dict(src=["any of %d" % k]))
            continue
        for i, l in enumerate(a.files[str(k)] or []):
            if usable(a, k, l):
                out.append(expected_rep(a, prog, t, k, "%d.%d" % (k, i), l))
    return out


def expected_rep(a, prog, t, k, key, l):
    here = ["LAT of " + key, "lon of " + key, l.mo, l.dy]
    f = lambda how, v, stat="": [how, "%sfile of %s" % (stat, v), "nc%s %s" % ("s" if stat else "", v)] + here + [0]
    if prog == "marine_qc_hires":
        clim = {"SST": [["value", "hires file", "temperature"] + here + [0], None]}
    else:
        clim = {"SST": [f("mds", "SST"), None]}
    sets, hum = {}, None
    if prog == "marine_qc":
        clim["AT"] = [f("mds", "AT"), None]
        for v in ("SLP2", "SHU", "CRH", "CWB", "DPD"):
            clim[v] = [f("value", v), None]
        for v in STDEVS:
            clim[v] = [f("value", v), f("value", v, "stdev ")]
        sets = {"AT2": "AT of " + key}
        hum = [["CRH", "CWB", "DPD", "SHU", "VAP"], sorted(clim)]
    y, m = month(a, t)
    ext = {}
    if a.tracking and prog != "marine_qc_hires" and l.dy is not None and bool(month(a, k)[0] >= 1985):
        b = Before(a, k, l.dy)
        ext["OSTIA"] = None if a.masked or b.none() else ["ostia", b, "analysed_sst"] + here[:2] + [-273.15]
        ext["ICE"] = None if a.masked or b.none() else ["ostia", b, "sea_ice_fraction"] + here[:2] + [0]
        ext["BGVAR"] = ["mds", None, "bg_var"] + here + [0]
    return dict(src=[key], based=[["sst" if prog == "marine_qc_hires" else "all", True, clim, sets, hum]],
                flags={"POS month_match": Ite(And(l.yr2 == y, l.mo2 == m), 1, 0)}, ext=ext)


def season(m):
    return pick(m - 1, ["DJF", "DJF", "MAM", "MAM", "MAM", "JJA", "JJA", "JJA", "SON", "SON", "SON", "DJF"])


def day_before(y, m, d):
    """as C04 requires of qc.yesterday, in years after the first"""
    if not And(d >= 1, d <= mlen(y, m)):
        return [None, None, None]
    return [Ite(And(m == 1, d == 1), y - 1, y), Ite(d > 1, m, Ite(m == 1, 12, m - 1)), Ite(d > 1, d - 1, Ite(m == 1, 31, mlen(y, m - 1)))]


YESTERDAY = Contract("yesterday", dict(y=Int(1802), m=Int(1, 12), d=Int()), None, ["qc.yesterday"],
                     pre=lambda a: And(a.y > 1, a.m >= 1, a.m <= 12), spec=lambda a: day_before(a.y, a.m, a.d))
SEASON = Contract("season", dict(m=Int(1, 12)), None, ["qc.season"], pre=lambda a: And(a.m >= 1, a.m <= 12), spec=lambda a: season(a.m))


def same_rep(a, k, got, want):
    w = want["ext"].get("BGVAR")
    if w is not None:
        w[1] = "Climatologies/" + season(month(a, k)[1]) + "_ostia_background"
    out = []
    got = dict(got, ext={n: list(g) if isinstance(g, list) else g for n, g in got["ext"].items()})
    for n in ("OSTIA", "ICE"):
        w, g = want["ext"].get(n), got["ext"].get(n)
        if isinstance(w, list) and isinstance(g, list) and isinstance(w[1], Before):
            out.append(w[1].same(g[1]))
            w[1] = g[1] = "compared"
    return And(eq(got, want), *out)


def records_post(prog):
    def post(a, r):
        if isinstance(r, str):
            return [("beyond the contract", True)]
        out = [("one deck for each month", len(r["decks"]) == a.span + 1)]
        for t, d in enumerate(r["decks"][:a.span + 1]):
            want = expected_reps(a, prog, t)
            out.append(("exactly the usable records, in order", [x["src"] for x in d["reps"]] == [x["src"] for x in want]))
            if [x["src"] for x in d["reps"]] == [x["src"] for x in want]:
                for x, w in zip(d["reps"], want):
                    if len(w) == 1:
                        continue
                    k = int(w["src"][0].split(".")[0])
                    out.append(("its climatology, base QC and month flag", same_rep(a, k, x, w)))
            w = [x for x in d["log"] if x[0] in ("write_output", "write_qc")]
            y, m = month(a, t)
            if prog == "marine_qc_track_only":
                out.append(("nothing but the drifters is written", w == []))
            else:
                out.append(("written once, as its month", len(w) == 1 and And(eq(w[0][1], ("hires_" if prog == "marine_qc_hires" else "") + "RUN"),
                                                                              eq(w[0][2], ["dir", y, m]), eq(w[0][3:5], [y, m]))))
        return out
    return post


GENERAL = ["find_repeated_values", "track_check"]
MORE = ["IQUAM_track_check", "IQUAM_spike_check", "saturated_runs", "multiple_rounded_values"]
METHOD = {"IQUAM_track_check": "iquam_track_check", "IQUAM_spike_check": "spike_check", "saturated_runs": "find_saturated_runs",
          "multiple_rounded_values": "find_multiple_rounded_values", "track_check": "track_check"}
BUDDY = ["Climatologies/SST_buddy_one_box_to_buddy_avg", "Climatologies/SST_buddy_one_ob_to_box_avg", "Climatologies/SST_buddy_avg_sampling"]
OUT = {'SST': sorted(['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit'])}


def checks_post(prog):
    def post(a, r):
        if isinstance(r, str):
            return [("beyond the contract", True)]
        out = []
        d = r["decks"][0]
        log = d["log"]
        y, m = month(a, 0)
        isbuddy = [i for i, x in enumerate(log) if x[0] in ("bayesian", "mds")]
        iswrite = [i for i, x in enumerate(log) if x[0] in ("write_output", "write_qc")]
        first = min(isbuddy) if isbuddy else len(log)
        last = max(isbuddy) if isbuddy else -1
        see = [i for i, x in enumerate(log) if x[0] == "see"]
        out.append(("tracks before neighbours", len(see) == 1 + bool(a.tracking) and see[0] < first and all(i > last for i in see[1:])))
        if not see:
            return out
        if log[see[0]][1] is not None:
            out.append(("the track check takes in reports of good position and date", eq(log[see[0]][1], seen_by("track", a))))
        # every ship has every check
        got = [x for x in log[:first] if x[0] in ("ship", "ships")]
        want = [ALL] if isinstance(a.ships, Any) else sum([checked(prog, i) for i in range(len(a.ships))], [])
        out.append(("every ship is checked", sorted(map(repr, got)) == sorted(map(repr, want))))
        # neighbours
        want = {"bayesian SST": [[[f, "sst"] for f in BUDDY] + ["parameters"], "SST"],
                "mds SST": [[["Climatologies/Old_SST_stdev_climatology", "sst"], "p mds_buddy_check"], "SST"]}
        if prog == "marine_qc":
            want.update({"bayesian AT": [want["bayesian SST"][0], "AT"], "mds AT": [want["mds SST"][0], "AT"],
                         "mds DPT": [[["stdev file of DPT", "ncs DPT"], "p mds_buddy_check"], "DPT"],
                         "mds SLP": [[["stdev file of SLP", "ncs SLP"], "p slp_buddy_check"], "SLP"]})
        got = {"%s %s" % (log[i][0], log[i][1]): log[i][2:] for i in isbuddy}
        out.append(("the neighbour checks", set(got) == set(want) and len(isbuddy) == len(want)))
        for k in want:
            if k in got:
                out.append(("%s: its fields and parameters" % k, eq(got[k][:-1], want[k][0])))
                if got[k][-1] is not None:
                    out.append(("%s takes in only reports that passed" % k, eq(got[k][-1], seen_by(want[k][1], a))))
        # output
        if prog != "marine_qc_track_only":
            out.append(("written after its checks", len(iswrite) == 1 and iswrite[0] > last))
            if iswrite:
                x = ["write_qc", "hires_RUN", ["dir", y, m], y, m, OUT] if prog == "marine_qc_hires" else ["write_output", "RUN", ["dir", y, m], y, m]
                out.append(("written as its month", eq(log[iswrite[0]], x)))
        late = [x for x in log[last + 1:] if x[0] in ("ship", "ships")]
        if a.tracking:
            if len(see) > 1 and log[see[1]][1] is not None:
                out.append(("drifters of the month", eq(log[see[1]][1], seen_by("drifters", a))))
            ids = [(i, s) for i, s in enumerate(a.ships) if has_id(s)]
            some = isinstance(a.ships, Any)
            out.append(("each of them written", eq(late, [ALL] if some else [written(prog, a, i) for i, _ in ids])))
            out.append(("and listed", eq(r["idfiles"], [[["dir/ID_file.txt", y, m], "..." if some else "".join(listed(s) for _, s in ids), True]])))
        else:
            out.append(("nothing written by drifter", late == [] and r["idfiles"] == []))
        return out
    return post


YEAR, MON = Int(1801, 2100), Int(1, 12)
DATED = dict(yr=YEAR, mo=MON, dy=Int(1, 31), yr2=YEAR, mo2=MON)
LINE = OneOf(Rec(**dict(DATED, kind=Const("usable"), yr=Opt(YEAR), mo=Opt(MON), dy=Opt(Int(1, 31)))), Rec(**dict(DATED, kind=Const("usable"))),
             Rec(**dict(DATED, kind=Enum("nameless", "excluded", "unreadable", "unreadable excluded", "unreadable from the start", "blank"))))
FINE = Rec(kind=Const("usable"), yr=YEAR, mo=MON, dy=Const(5), yr2=YEAR, mo2=MON)


class Files(Desc):
    """month offset -> None, or the lines of the file"""

    def __init__(self, offsets, at=None, n=1, line=LINE, second=None, other=FINE, missing=True):
        self.second = second or line
        self.offsets, self.at, self.n, self.line, self.other, self.missing = offsets, at, n, line, other, missing

    def make(self, pick, one, mk):
        at = one(len(self.offsets)) if self.at is None else self.offsets.index(self.at)
        gone = self.missing and one(2) == 1
        return {str(k): [mk(self.line if i == 0 else self.second, "l%d.%d" % (k, i)) for i in range(self.n)] if j == at else
                None if gone else [mk(self.other, "l%d" % k)] for j, k in enumerate(self.offsets)}

    def sym(self, E, name):
        return self.make(None, E.choose, lambda d, n: d.sym(E, name + n))

    def rand(self, rng, pool):
        return self.make(None, lambda n: rng.randrange(n), lambda d, n: d.rand(rng, pool))


def own_month(a):
    """the lines that must be dated, dated within their file's month"""
    return And(*[And(l.yr == month(a, int(k))[0], l.mo == month(a, int(k))[1]) for k, f in a.files.items() for l in f or []
                 if l.kind == "usable" and l.dy == 5])


def mostly_own(a, rng):
    for k, f in a.files.items():
        y, m = month(a, int(k))
        for l in f or []:
            if (l.kind == "usable" and l.dy == 5) or rng.random() < 0.8:
                l.yr, l.mo = y, m
            if rng.random() < 0.4:
                l.yr2, l.mo2 = y, m
            if l.dy != 5 and rng.random() < 0.15:
                l.yr, l.mo = y + 12 - m, m


class AsFound(dict):
    """files of which nothing is settled before they are opened"""

    def __deepcopy__(self, memo):
        return self


class AnyFiles(Desc):
    """the three files of a month, each missing or of any length"""

    def sym(self, E, name):
        return AsFound({k: "any" for k in ("-1", "0", "1")})

    def rand(self, rng, pool):
        return {k: None if rng.random() < 0.15 else [LINE.rand(rng, pool) for _ in range(rng.choice([0, 1, 2, 3, 4]))] for k in ("-1", "0", "1")}


SHIPS = {"marine_qc": (7, 9), "marine_qc_hires": (4, 5), "marine_qc_track_only": (5, 7)}
LINES = {"marine_qc": 3, "marine_qc_hires": 3, "marine_qc_track_only": 3}
NONE = dict(span=Const(0), ships=Const([]), tracking=Const(False), masked=Const(False), flags=Const({}), watch=Const(-1))
SHIP = Rec(n=Int(0, extra=(0, 1, 2)), id=Enum(None, "SHIP1    ", "A/B      "))


class Flags(Desc):
    """every flag of a report, with any value"""

    def sym(self, E, name):
        return {f: E.int(name + f) for f in FLAGS}

    def rand(self, rng, pool):
        bad = rng.sample(FLAGS, rng.choice([0, 1, 1, 2, 3]))
        return {f: rng.choice([0, 1, 1, 9, 2]) if f in bad else 1 if f in ONE else 0 for f in FLAGS}


class Ships(Desc):
    def sym(self, E, name):
        return Any()

    def rand(self, rng, pool):
        return [SHIP.rand(rng, pool) for _ in range(rng.choice([0, 1, 2, 3]))]


def main_of(prog):
    return lambda W, a: Run(W, prog, a)()


for _p in PROGRAMS:
    _f = ["%s.main" % _p]
    for _t, _m, _w in ((False, False, ""), (True, False, ", with tracking"), (True, True, ", with tracking, under land or ice")):
        if _t and _p == "marine_qc_hires":
            continue
        add("%s: every record of every file%s" % (_p, _w), dict(NONE, y=YEAR, m=MON, files=AnyFiles(), masked=Const(_m), tracking=Const(_t)),
            main_of(_p), _f, post=records_post(_p), aim=mostly_own, loops={"%s.main#%d" % (_p, LINES[_p]): line_loop(_p)}, use={"qc.yesterday": YESTERDAY, "qc.season": SEASON}, samples=200, budget=170)
    add("%s: several months" % _p, dict(NONE, y=YEAR, m=MON, span=Cases(0, 2), files=Files([-1, 0, 1, 2, 3], at=0, n=1, line=FINE)),
        main_of(_p), _f, post=records_post(_p), pre=own_month, aim=mostly_own, bounded="up to three months", samples=60, budget=170)
    add("%s: the checks of a month" % _p, dict(NONE, y=YEAR, m=MON, files=Const({"-1": None, "0": None, "1": None}), tracking=Enum(False, True),
                                               ships=Ships(), flags=Flags(), watch=Cases(0, 7)), main_of(_p), _f, post=checks_post(_p),
        loops={"%s.main#%d" % (_p, n): ship_loop(_p, k) for k, n in enumerate(SHIPS[_p])}, samples=150)


# ---------------------------------------------------------------- the exclusion list

class Lines(Desc):
    """the lines of a list of identities; the last may lack its end"""
    some = ["", " ", "SHIP1", "SHIP1    ", "123456789", "ABCDEFGHIJKL", " X", "A B", "\t", "12345678"]

    def sym(self, E, name):
        n = E.choose(3)
        out = [self.some[E.choose(len(self.some))] + "\n" for _ in range(n)]
        return out[:-1] + [out[-1][:-1]] if out and out[-1] != "\n" and E.choose(2) else out

    def rand(self, rng, pool):
        return ["".join(rng.choice("AB1 9") for _ in range(rng.choice([0, 1, 3, 8, 9, 10]))) + "\n" for _ in range(rng.choice([0, 1, 4]))]


def exclusion(W, a):
    M = W.BackgroundField
    f = Open(list(a.lines))

    def opened(name, mode="r"):
        if name != "the list":
            beyond("another file")
        return f
    M.__dict__["open"] = opened
    try:
        return M.process_bad_id_file("the list")
    except Beyond as ex:
        return "beyond the contract"
    finally:
        del M.__dict__["open"]


add("process_bad_id_file", dict(lines=Lines()), exclusion, ["BackgroundField.process_bad_id_file"],
    post=lambda a, r: r == "beyond the contract" or
    [("each identity as a record has it", r == [l.rstrip().ljust(9) for l in a.lines if l.strip() != ""])],
    bounded="up to two lines, of ten kinds", samples=300)
