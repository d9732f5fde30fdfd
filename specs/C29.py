"""C29: the tracking QC of one drifter (tracking_qc.main): what it reads, what each check sees, what it writes.

Voyages, reports and files are ghost stand-ins that note what main does with them; EasyImma, QC_filter and the calendar are
the real ones."""
import types
import z3

from .common import *
from .C28 import Beyond, Stand, Params, Config_for, beyond, parser_for

CONTRACTS = Specs()
add = CONTRACTS.add

VARS = ["UID", "DATE", "PENTAD", "ID", "YR", "MO", "DY", "HR", "LAT", "LON", "AT", "AT_anom", "SST", "SST_anom", "DPT", "DPT_anom",
        "SLP", "SLP_anom", "OSTIA", "ICE", "BGVAR"]
FLAGS = {"POS": ["day", "isship", "trk", "date", "time", "pos", "blklst", "isbuoy", "iquam_track", "isdrifter"],
         "SST": ["bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep", "spike", "hardlimit"]}
BASE = {"POS isbuoy": 1, "POS date": 0, "POS time": 0, "POS pos": 0, "POS blklst": 0}
SST = dict(BASE, **{"SST %s" % f: 0 for f in ("clim", "nonorm", "freez", "noval", "rep", "hardlimit")})
SST.update({"POS drf_agr": 0, "POS drf_spd": 0})
CHECKS = [("new_buoy_aground_check", ["new_buoy_aground_check"], BASE, ["POS drf_agr"]),
          ("new_buoy_speed_check", ["IQUAM_track_check", "new_buoy_speed_check"], BASE, ["POS drf_spd"]),
          ("buoy_tail_check", ["buoy_tail_check"], SST, ["SST drf_tail1", "SST drf_tail2"]),
          ("buoy_bias_noise_check", ["buoy_bias_noise_check"], dict(SST, **{"SST drf_tail1": 0, "SST drf_tail2": 0}), ["SST drf_bias"])]
PARAMS = {k: "p " + k for c in CHECKS for k in c[1]}
PARAMS.update({"runid": "RUN", "buoy_aground_check": "old", "buoy_speed_check": "old"})


class Table(Stand):
    """an open csv file: its header and rows"""

    def __init__(self, run, name):
        self.run, self.name = run, name
        self.header, self.rows = run.tables[name]
        self.read = False

    def __enter__(self):
        return self

    def __exit__(self, *x):
        pass

    def close(self):
        pass

    def __iter__(self):
        if self.read:
            beyond("rows outside the reader")
        return iter(([] if self.header is None else [self.header + "\n"]) + ["row\n"] * len(self.rows))

    def readline(self):
        self.read = True
        return "" if self.header is None else self.header + "\n"


class Report(Stand):
    def __init__(self, run, rec):
        self.run, self.data, self.ext, self.flags = run, dict(rec.data), {}, {}
        self.i = len(run.reps)
        run.reps.append(self)

    def getvar(self, n):
        if n == "UID":
            return self.data[n]
        beyond("variable %s" % n)

    def setext(self, n, v):
        self.ext[n] = v

    def set_qc(self, t, f, v):
        self.flags["%s %s" % (t, f)] = v

    def get_qc(self, t, f):
        return self.flags.get("%s %s" % (t, f), 9)


class Voyage(Stand):
    def __init__(self, run):
        self.run, self.reps, self.order = run, [], False

    def __len__(self):
        return len(self.reps)

    def add_report(self, rep):
        self.reps.append(rep)
        self.order = False

    def sort(self):
        self.order = True

    def write_tracking_output(self, *args):
        self.run.log.append(["write", [r.i for r in self.reps], self.order] + list(args))


def _check(name, sets):
    def method(self, *args):
        self.run.log.append([name, [r.i for r in self.reps], self.order or len(self.reps) < 2] + list(args))
        for r in self.reps:
            for f in sets:
                r.flags[f] = self.run.a.found[f] if r.i == self.run.a.probe else 0
    return method


for _n, _p, _f, _s in CHECKS:
    setattr(Voyage, _n, _check(_n, _s))


class Run(object):
    def __init__(self, W, a):
        self.W, self.a, self.tables, self.reps, self.log = W, a, {}, [], []
        n = 0
        for (y, m), mo in zip(months(a), a.months):
            pre = "OUT/%d/%02d/" % (y, m), "_%d%02d_%s_RUN.csv" % (y, m, name_of(a))
            if mo.state == "none":
                continue
            rows = [n + i for i in range(mo.n)]
            n += mo.n
            uid = lambda k: "UID%d " % k
            lines = []
            for k in rows:
                d = {v: "%s of %d" % (v, k) for v in VARS}
                d.update(UID=uid(k), OSTIA="%d.5" % k, ICE="\\N" if k == 1 else "0.25", BGVAR="%d.125" % k, SST="\\N" if k == 0 else "2.0")
                lines.append([d[v] for v in VARS])
            self.tables[pre[0] + "Variables" + pre[1]] = (",".join(VARS), lines)
            for t in ("POS", "SST"):
                lines = [[uid(k + 7 if mo.state == "another " + t and k == rows[-1] else k)] +
                         [self.flag("%s %s" % (t, f), k) for f in FLAGS[t]] for k in rows]
                if mo.state == "short " + t:
                    lines = lines[:-1]
                self.tables[pre[0] + t + "_qc" + pre[1]] = (None if mo.state == "empty " + t else ",".join(["UID"] + FLAGS[t]), lines)
                if mo.state == "missing " + t:
                    del self.tables[pre[0] + t + "_qc" + pre[1]]
            if mo.state == "missing Variables":
                del self.tables[pre[0] + "Variables" + pre[1]]

    def flag(self, f, k):
        if k == self.a.probe and f in self.a.flags:
            return self.a.flags[f]
        return 1 if f == "POS isbuoy" else 0

    def opened(self, name, mode="r"):
        if name == "Files/parameter_file":
            return Params_file()
        if name not in self.tables:
            raise IOError(name)
        return Table(self, name)

    def reader(self, f, fieldnames=None):
        if fieldnames is None or not isinstance(f, Table):
            beyond("another way of reading")
        for row in f.rows:
            yield dict(zip(fieldnames, row))

    def __call__(self):
        a, M, run = self.a, self.W.tracking_qc, self
        last = months(a)[-1]
        first = months(a)[0]
        args = types.SimpleNamespace(config="config file", id=a.id, yr1=first[0], mn1=first[1], yr2=last[0], mn2=last[1], edge=list(a.edge), runmonthid="200301-200412")

        class Module(Stand):
            def __init__(self, **k):
                self.__dict__.update(k)

        Parser = parser_for(args.__dict__)
        new = dict(argparse=Module(ArgumentParser=Parser), ConfigParser=Module(ConfigParser=Config_for({"Directories/out_dir": "OUT", "Directories/track_out_dir": "TRACK"})),
                   json=Module(load=lambda f: Params(PARAMS) if isinstance(f, Params_file) else beyond("another file")),
                   os=Module(path=Module(isfile=lambda n: n in run.tables)), csv=Module(DictReader=run.reader), open=run.opened,
                   ex=Module(MarineReportQC=lambda rec: Report(run, rec), QC_filter=self.W.Extended_IMMA.QC_filter, Voyage=lambda: Voyage(run), safe_filename=self.W.Extended_IMMA.safe_filename),
                   safe_make_tracking_dir=lambda o, y, m: ["tracking dir", o, y, m],
                   safe_make_edge_dir=lambda o, y, m, e, r: ["edge dir", o, y, m, e, r])
        old = {k: M.__dict__[k] for k in new if k in M.__dict__}
        M.__dict__.update(new)
        out = None
        try:
            M.main([])
        except Beyond as ex:
            return "beyond the contract: %s" % (ex,)
        except UserWarning:
            out = "UserWarning"
        finally:
            for k in new:
                if k in old:
                    M.__dict__[k] = old[k]
                else:
                    del M.__dict__[k]
        return dict(raised=out, log=self.log, reps=[dict(data=r.data, ext=r.ext, flags=r.flags) for r in self.reps])


class Params_file(Stand):
    def __enter__(self):
        return self

    def __exit__(self, *x):
        pass

    def close(self):
        pass


def months(a):
    e = 2003 * 12 + a.m - 1
    return [((e + k) // 12, (e + k) % 12 + 1) for k in range(len(a.months))]


def name_of(a):
    return (a.id + " " * (9 - len(a.id))).replace("/", "_").replace("*", "_")


def wanted(a):
    if any(not (mo.state in ("none", "good")) for mo in a.months):
        return "UserWarning"
    n = sum(mo.n for mo in a.months if mo.state == "good")
    return n or "UserWarning"


def post(a, r):
    if isinstance(r, str):
        return [("beyond the contract", True)]
    n = wanted(a)
    if n == "UserWarning":
        return [("nothing is checked or written from incomplete files", r["raised"] == "UserWarning" and r["log"] == [])]
    out = [("no warning", r["raised"] is None), ("every report of every month", len(r["reps"]) == n)]
    if len(r["reps"]) != n:
        return out
    flags = []
    for k, x in enumerate(r["reps"]):
        d = {v: "%s of %d" % (v, k) for v in VARS if v not in ("OSTIA", "ICE", "BGVAR", "UID", "SST")}
        out.append(("its own values", all(x["data"].get(v) == d[v] for v in d) and x["data"]["UID"].strip() == "UID%d" % k and
                    x["data"]["SST"] == (None if k == 0 else "2.0") and x["data"].get("PT") == 7))
        out.append(("its own background", x["ext"] == dict(OSTIA=k + 0.5, ICE=None if k == 1 else 0.25, BGVAR=k + 0.125)))
        f = {"%s %s" % (t, g): 1 if (t, g) == ("POS", "isbuoy") else 0 for t in FLAGS for g in FLAGS[t]}
        if k == a.probe:
            f.update(a.flags)
        out.append(("its own flags", And(*[eq(x["flags"].get(g), f[g]) for g in f])))
        flags.append(f)
    log = [x for x in r["log"]]
    names = [x[0] for x in log]
    out.append(("each check once, in order, then the output", names[:4] == [c[0] for c in CHECKS] and all(x == "write" for x in names[4:])))
    if names[:4] != [c[0] for c in CHECKS]:
        return out
    for x, (name, pars, need, sets) in zip(log, CHECKS):
        out.append(("%s: its parameters" % name, x[3:] == ["p " + p for p in pars] + [False]))
        out.append(("%s: reports in order of time" % name, x[2]))
        order = [i for i in range(n) if i in x[1]]
        out.append(("%s: each report once" % name, x[1] == order))
        for k in range(n):
            ok = And(*[eq(flags[k].get(f, 9), v) for f, v in need.items()] + ([flags[k]["SST bbud"] < 4] if "SST rep" in need else []))
            out.append(("%s sees exactly the reports that passed" % name, eq(k in x[1], ok)))
            if k in x[1]:
                for f in sets:
                    flags[k][f] = a.found[f] if k == a.probe else 0
    y, m = months(a)[-1]
    want = []
    if "new" in a.edge or "regular" in a.edge:
        want.append(["tracking dir", "TRACK", y, m])
    want += [["edge dir", "TRACK", y, m, e, "200301-200412"] for e in ("start_edge_case", "end_edge_case") if e in a.edge]
    got = [x[1:] for x in log[4:]]
    out.append(("all reports are written where the case says", sorted(map(repr, got)) == sorted(map(repr, [[list(range(n)), True, "RUN", d, y, m] for d in want]))))
    return out


class Flags(Desc):
    names = ["%s %s" % (t, g) for t in FLAGS for g in FLAGS[t]]

    def sym(self, E, name):
        return {f: E.int(name + f) for f in self.names}

    def rand(self, rng, pool):
        bad = rng.sample(self.names, rng.choice([0, 1, 1, 2, 3]))
        return {f: rng.choice([0, 1, 1, 3, 4, 9]) if f in bad else 1 if f == "POS isbuoy" else 0 for f in self.names}


FOUND = Dict(**{f: Int(0, 9) for c in CHECKS for f in c[3]})
GOOD = dict(flags=Const({}), found=Const({f: 0 for c in CHECKS for f in c[3]}), probe=Const(-1))
EDGE = Enum(["new"], ["regular"], ["start_edge_case"], ["end_edge_case"], ["new", "start_edge_case"], ["start_edge_case", "end_edge_case"])
STATES = ["none", "good", "missing POS", "missing SST", "missing Variables", "empty POS", "empty SST", "short POS", "short SST", "another POS", "another SST"]


def sensible(a):
    return all(mo.n > 0 or mo.state in ("none", "good", "missing POS", "missing SST", "missing Variables", "empty POS", "empty SST") for mo in a.months)


main = lambda W, a: Run(W, a)()
F = ["tracking_qc.main", "tracking_qc.EasyImma.__init__"]
add("tracking_qc: what each check sees", dict(m=Const(12), id=Const("1234567"), edge=Const(["regular"]), flags=Flags(), found=FOUND, probe=Enum(0, 1),
                                              months=Const([NS(state="good", n=1), NS(state="good", n=1)])), main, F, post=post, samples=200,
    bounded="two reports in two months, one of them with any flags and any outcome of each check")
add("tracking_qc: files of the months", dict(GOOD, m=Const(12), id=Const("1234567"), edge=Const(["regular"]),
                                             months=Lst(Rec(state=Enum(*STATES), n=Cases(0, 2)), [1, 2])),
    main, F, post=post, pre=sensible, samples=200, bounded="one or two months of up to two reports")
add("tracking_qc: where the output goes", dict(GOOD, m=Enum(11, 12, 3), id=Enum("1234567", "123456789", "1/2"), edge=EDGE,
                                               months=Lst(Rec(state=Enum("none", "good"), n=Cases(0, 1)), [1, 3])),
    main, F, post=post, samples=200, bounded="one to three months of up to one report")


class Row(Desc):
    """a row read from a file: some columns, each with some text or the mark of a missing value"""

    def sym(self, E, name):
        return {k: "\\N" if E.choose(2) else SStr(E.fresh(name + k, z3.StringSort())) for k in ("UID", "SST", "PT", "OSTIA") if E.choose(2)}

    def rand(self, rng, pool):
        return {k: rng.choice(["\\N", "7", "2.5", "", "N"]) for k in ("UID", "SST", "PT", "OSTIA") if rng.random() < 0.6}


def easy(W, a):
    row = dict(a.row)
    return dict(data=dict(W.tracking_qc.EasyImma(row).data), row=row)


def easy_post(a, r):
    out = [("its columns, and a platform type", set(r["data"]) == set(a.row) | {"PT"} and set(r["row"]) == set(a.row)),
           ("a drifter unless the file says otherwise", "PT" in a.row or r["data"].get("PT") == 7)]
    for k, v in a.row.items():
        x, y = r["data"].get(k), r["row"].get(k)
        out.append(("missing or as written", eq(v, "\\N") if x is None else And(eq(x, v), Not(eq(v, "\\N")))))
        out.append(("the row no other", Or(y is None and eq(v, "\\N"), y is not None and eq(y, v))))
    return out


add("EasyImma: a row as a record", dict(row=Row()), easy, ["tracking_qc.EasyImma.__init__"], post=easy_post, samples=200)


# ---------------------------------------------------------------- which chunks are run

MODES = ["standard", "all", "new", "noend"]


class Listing(Stand):
    """the list of identities of a month"""

    def __init__(self, lines):
        self.lines = lines

    def __iter__(self):
        return iter(self.lines)

    def __enter__(self):
        return self

    def __exit__(self, *x):
        pass

    def close(self):
        pass


def span(a):
    e = 2003 * 12 + a.m - 1
    return [((e + k) // 12, (e + k) % 12 + 1) for k in range(a.n)]


def wrapper(W, a):
    M, ms, sent = W.Tracking_QC_wrapper, span(a), []

    class Module(Stand):
        def __init__(self, **k):
            self.__dict__.update(k)

    Parser = parser_for(types.SimpleNamespace(config="config file", gap=a.gap, yr1=ms[0][0], mn1=ms[0][1], yr2=ms[-1][0], mn2=ms[-1][1], edge=a.edge).__dict__)

    def opened(name, mode="r"):
        if name == "Files/parameter_file":
            return Params_file()
        for k, (y, m) in enumerate(ms):
            if name.replace("//", "/") == "OUT/%d/%02d/ID_file.txt" % (y, m):
                return Listing(["%s,%s\n" % (i, i.replace("/", "_")) for i in a.has if a.has[i][k]])
        beyond("another file")
    new = dict(argparse=Module(ArgumentParser=Parser), json=Module(load=lambda f: Params(PARAMS)), open=opened,
               ConfigParser=Module(ConfigParser=Config_for({"Directories/out_dir": "OUT", "Directories/track_out_dir": "TRACK"})),
               write_submission=lambda *x: sent.append(list(x)))
    old = {k: M.__dict__[k] for k in new if k in M.__dict__}
    M.__dict__.update(new)
    try:
        M.main([])
    except Beyond as ex:
        return "beyond the contract: %s" % (ex,)
    finally:
        for k in new:
            if k in old:
                M.__dict__[k] = old[k]
            else:
                del M.__dict__[k]
    return [x[:6] + [sorted(x[6])] + x[7:] for x in sent]


def chunks(bits, gap):
    """(first, last) of the stretches of data between gaps"""
    out = []
    for i, b in enumerate(bits):
        if b and out and i - out[-1][1] - 1 < gap:
            out[-1][1] = i
        elif b:
            out.append([i, i])
    return out


def wrapper_post(a, r):
    if isinstance(r, str):
        return [("beyond the contract", True)]
    ms, want = span(a), []
    run = "%d%02d-%d%02d" % (ms[0] + ms[-1])
    for i, bits in a.has.items():
        for s, e in chunks(bits[:a.n], a.gap):
            early, late = s < a.gap, a.n - 1 - e < a.gap
            new = a.n - 1 - e == a.gap
            cl = sorted(["start_edge_case"] * early + ["end_edge_case"] * late + ["new"] * new + ["regular"] * (not early and not late))
            if a.edge == "all" or (a.edge == "noend" and not late) or (a.edge == "standard" and not early and not late) or (a.edge == "new" and new):
                want.append(["config file", i] + list(ms[s]) + list(ms[e]) + [cl, run, "TRACK", "RUN"])
    return [("each chunk its mode calls for, once", sorted(map(repr, r)) == sorted(map(repr, want)))]


class Months(Desc):
    """in which months each identity reports"""

    def __init__(self, lens):
        self.lens = lens

    def sym(self, E, name):
        return {"SHIP1    ": [E.choose(2) for _ in range(4)]}

    def rand(self, rng, pool):
        p = rng.choice([0.2, 0.5, 0.8])
        return {i: [int(rng.random() < p) for _ in range(12)] for i in rng.sample(["SHIP1    ", "A/B      ", "1234567  "], rng.choice([0, 1, 2, 3]))}


class Span(Desc):
    def sym(self, E, name):
        return 4

    def rand(self, rng, pool):
        return rng.randint(1, 12)


add("Tracking_QC_wrapper: which chunks are run", dict(m=Const(11), n=Span(), gap=Cases(1, 3), edge=Enum(*MODES), has=Months([4])), wrapper,
    ["Tracking_QC_wrapper.main"], post=wrapper_post, samples=400, bounded="one identity over four months")


class Job(Stand):
    def __init__(self):
        self.text = ""

    def __enter__(self):
        return self

    def __exit__(self, *x):
        pass

    def close(self):
        pass

    def write(self, s):
        self.text += s


def job(W, a):
    M, files, made, run = W.Tracking_QC_wrapper, {}, [], []

    class Module(Stand):
        def __init__(self, **k):
            self.__dict__.update(k)

    def opened(name, mode="r"):
        files[name] = Job()
        return files[name]
    new = dict(open=opened, os=Module(system=run.append), safemake=made.append, checkload=lambda u: 0, time=Module())
    old = {k: M.__dict__[k] for k in new if k in M.__dict__}
    M.__dict__.update(new)
    try:
        M.write_submission("the config", a.id, a.y1, a.m1, a.y2, a.m2, list(a.edge), "200301-200412", "TRACK", "RUN")
    except Beyond as ex:
        return "beyond the contract: %s" % (ex,)
    finally:
        for k in new:
            if k in old:
                M.__dict__[k] = old[k]
            else:
                del M.__dict__[k]
    return dict(files={k: f.text for k, f in files.items()}, made=made, run=run)


def job_post(a, r):
    if isinstance(r, str):
        return [("beyond the contract", True)]
    out = [("one job file, sent once", len(r["files"]) == 1 and len(r["run"]) == 1 and r["run"][0].split() == ["sbatch"] + list(r["files"]))]
    if len(r["files"]) != 1:
        return out
    lines = [l for l in list(r["files"].values())[0].split("\n") if "tracking_qc.py" in l]
    out.append(("one command", len(lines) == 1))
    if len(lines) == 1:
        got, at = {}, None
        for w in lines[0].split(">")[0].split("tracking_qc.py")[1].split():
            if w.startswith("-"):
                at = w
                got[at] = []
            elif at is not None:
                got[at].append(w)
        want = {"-id": [a.id.strip()], "-config": ["the", "config"], "-yr1": [str(a.y1)], "-mn1": [str(a.m1)], "-yr2": [str(a.y2)], "-mn2": [str(a.m2)],
                "-edge": list(a.edge), "-runmonthid": ["200301-200412"]}
        want["-config"] = "the config".split()
        out.append(("the command names the chunk", got == want))
    name = list(r["files"])[0]
    out.append(("a file of its own", "/" not in name[len("TRACK/TrackingQC/jobs/"):] and all(x in name for x in (a.id.replace(" ", "").replace("/", "_"), "%d%02d" % (a.y1, a.m1), "%d%02d" % (a.y2, a.m2), "200301-200412", "RUN"))))
    return out


add("Tracking_QC_wrapper: the job of a chunk", dict(id=Enum("SHIP1    ", "123456789", "A/1      "), y1=Enum(1999, 2003), m1=Enum(1, 12), y2=Enum(2003, 2004), m2=Enum(2, 11), edge=EDGE),
    job, ["Tracking_QC_wrapper.write_submission"], post=job_post, samples=100, bounded="some identities and months")
