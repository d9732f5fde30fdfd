"""C16: filters, decks, grouping by platform."""
import z3
from .voyage import *
from pyvc.core import SStr, SNum
from pyvc.seqs import FnSeq, Ghost, ghost, glen

CONTRACTS = Specs()
add = CONTRACTS.add
F, D, VO = "Extended_IMMA.QC_filter.", "Extended_IMMA.Deck.", "Extended_IMMA.Voyage."
I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
simp = lambda x: z3.simplify(core.lift(x)[0])


def stub(spec, *names):
    return Contract("stub", dict.fromkeys(names), None, [], spec=spec)


def count(name, of):
    """number of j < i with of(j): the function with count(0) = 0, count(j+1) = count(j) + of(j), unfolded where used"""
    f = z3.Function(name, I, I)

    def at(i):
        E = core.engine()
        e = simp(i)
        E.assume(f(z3.IntVal(0)) == 0)
        seen = E.memo.setdefault(("count", name), [])
        if not any(e.eq(j) for j in seen):
            seen.append(e)
            E.assume(f(z3.simplify(e + 1)) == f(e) + z3.If(core.boolexpr(of(SNum(e, "i"))), 1, 0))
            E.assume(z3.Implies(e >= 0, z3.And(f(e) >= 0, f(e) <= e)))
            for j in seen:          # monotone: a consequence by induction
                for a, b_ in ((e, j), (j, e)):
                    E.assume(z3.Implies(z3.And(0 <= a, a <= b_), z3.And(f(a) <= f(b_), f(b_) - f(a) <= b_ - a)))
                    E.assume(z3.Implies(z3.And(0 <= a, a < b_), f(z3.simplify(a + 1)) <= f(b_)))
        return SNum(f(e), "i")
    return at


# ------------------------------------------------------------------- filters

KIND = ("POS", "SST", "AT", "DPT")
FLAG = ("clim", "noval", "bud", "rep", "pos")


class Tests(Desc):
    """any number of tests [type, flag, status], and what a report answers to each"""

    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n >= 0)
        return SymTests(n)

    def rand(self, rng, pool):
        tests = [[rng.choice(KIND), rng.choice(FLAG), rng.choice([0, 0, 1, 9])] for _ in range(rng.randint(0, 5))]
        flags = {}
        for t, f, s in tests:
            if rng.random() < 0.8:
                flags[t + "/" + f] = s if rng.random() < 0.8 else rng.choice([0, 1, 9])
        for _ in range(rng.randint(0, 2)):
            flags.setdefault(rng.choice(KIND) + "/" + rng.choice(FLAG), rng.choice([0, 1]))
        return dict(tests=tests, flags=flags)


class SymTests(object):
    __ghost__ = True

    def __init__(self, n):
        self.n = n
        self.tests = FnSeq(n, lambda i: [self.s("type", i), self.s("flag", i), SNum(z3.Function("status", I, I)(simp(i)), "i")])

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        raise ValueError("symbolic tests")

    def s(self, what, i):
        return SStr(z3.Function(what, I, S)(simp(i)))

    def answer(self, t, f):
        return SNum(z3.Function("answer", S, S, I)(SStr._l(t), SStr._l(f)), "i")

    def ok(self, i):
        t = self.tests.sget(i)
        return self.answer(t[0], t[1]) == t[2]


class Answers(object):
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, st):
        self.st = st

    def __deepcopy__(self, memo):
        return self

    def get_qc(self, t, f):
        return self.st.answer(t, f)


def rank_bad(st):
    return count("failing", lambda i: Not(st.ok(i)))


def a_filter(W, tests):
    q = W.Extended_IMMA.QC_filter()
    for t in tests:
        q.add_qc_filter(*t)
    return q


def flagged(W, flags, **rec):
    r = W.Extended_IMMA.MarineReportQC(RecordOf(dict(dict(ID="A", LAT=0., LON=0.), **rec)))
    for k in flags:
        t, f = k.split("/")
        r.set_qc(t, f, flags[k])
    return r


def test_run(W, a):
    if isinstance(a.t, SymTests):
        q = W.Extended_IMMA.QC_filter.__new__(W.Extended_IMMA.QC_filter)
        q.filter = a.t.tests
        return q.test_report(Answers(a.t))
    return a_filter(W, a.t["tests"]).test_report(flagged(W, a.t["flags"]))


def holds_all(flags, tests):
    return all(flags.get(t + "/" + f, 9) == s for t, f, s in tests)


def test_spec(a):
    if isinstance(a.t, SymTests):
        return b(rank_bad(a.t)(a.t.n) > 0)
    return 0 if holds_all(a.t["flags"], a.t["tests"]) else 1


add("test_report: passes exactly when every test of the filter holds", dict(t=Tests()), test_run,
    [F + "__init__", F + "add_qc_filter", F + "test_report"], spec=test_spec, diff=False,
    loops={F + "test_report#0": LoopSpec(lambda v, s: [("so far", v.result == b(rank_bad(core.engine().args.t)(s.i) > 0))])})


# --------------------------------------------------- splitting by a filter

class Reports(Desc):
    """a deck of any number of reports"""

    def __init__(self, lo=0, hi=10, ids=("A", "B", "C", "PLAT     ")):
        self.lo, self.hi, self.ids = lo, hi, ids

    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n >= self.lo)
        return SymReports(E, n)

    def rand(self, rng, pool):
        ids = rng.sample(self.ids, rng.randint(1, len(self.ids)))
        return [dict(ID=rng.choice(ids), YR=2000, MO=rng.choice([1, 1, 2]), DY=rng.randint(1, 28), HR=float(rng.choice([0, 6, 12])),
                     LAT=0., LON=0., bad=rng.random() < 0.4) for _ in range(rng.randint(self.lo, self.hi))]


class SymReports(object):
    __ghost__ = True

    def __init__(self, E, n):
        self.n, self.k = n, E.int("a.k")
        E.assume(And(self.k >= 0, self.k < Ite(n > 0, n, 1)))

    def __deepcopy__(self, memo):
        return self

    def __concretize__(self, model):
        raise ValueError("symbolic reports")

    def bad(self, i):
        """the filter's verdict on report i"""
        return core.mkb(z3.Function("bad", I, B)(simp(i)))

    def ident(self, i):
        return SNum(z3.Function("identity", I, I)(simp(i)), "i")


class Item(object):
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, sr, i):
        self.sr, self.i = sr, i

    def __deepcopy__(self, memo):
        return self

    def getvar(self, name):
        if name != "ID":
            raise core.Unsupported("variable %s of a report" % name)
        return self.sr.ident(self.i)


class PopFront(object):
    """the reports of a deck from number pos on"""
    __ghost__ = True

    def __init__(self, sr):
        self.sr, self.pos = sr, 0

    def slen(self):
        return self.sr.n - self.pos

    def pop(self, at=0):
        if not bool(at == 0):
            raise core.Unsupported("pop elsewhere")
        if bool(self.pos >= self.sr.n):
            raise IndexError("pop from empty list")
        x = Item(self.sr, self.pos)
        self.pos = self.pos + 1
        return x


def at(xs, p):
    """(there, number of the report) at position p of a list of reports"""
    g, new = ghost(xs)
    n = g.n if g is not None else 0
    val = g.val if g is not None else -1
    for j, x in enumerate(new):
        val = Ite(n + j == p, x.i, val)
    return And(p >= 0, p < n + len(new)), val


def unknown(xs, name):
    E = core.engine()
    n = E.int("n." + name)
    E.assume(n >= 0)
    xs[:] = [Ghost(n, None, val=E.int("at." + name))]


def parts(sr):
    return count("passing", lambda i: Not(sr.bad(i)))


def split_ok(sr, passes, fails, i):
    """what the two parts hold after i reports, with regard to report k"""
    np, k = parts(sr), sr.k
    np(k)
    np(i)
    a, x = at(passes, np(k))
    c, y = at(fails, k - np(k))
    return [("number that pass", glen(passes) == np(i)), ("number that fail", glen(fails) == i - np(i)),
            ("a passing report is in its place", Implies(And(k < i, Not(sr.bad(k))), And(a, x == k))),
            ("a failing report is in its place", Implies(And(k < i, sr.bad(k)), And(c, y == k)))]


def split_inv(v, s):
    sr = core.engine().args.r
    return [("taken", v.reps.reps.pos == s.i)] + split_ok(sr, v.passes.reps, v.fails.reps, s.i)


def split_havoc(E, v, s):
    v.reps.reps.pos = E.int("taken")
    unknown(v.passes.reps, "passes")
    unknown(v.fails.reps, "fails")


def into(a):
    a.self.reps.append(a.rep)


def split_run(W, a):
    ex = W.Extended_IMMA
    if isinstance(a.r, SymReports):
        d = ex.Deck.__new__(ex.Deck)
        d.reps = PopFront(a.r)
        p, f = ex.QC_filter().split_reports(d)
        return p.reps, f.reps
    q = a_filter(W, [["POS", "pos", 0], ["SST", "clim", 0]])
    d = ex.Deck()
    made = some(W, a.r)
    for r in made:
        d.append(r)
    p, f = q.split_reports(d)
    no = lambda deck: [r.getext("number") for r in deck.reps]
    return no(p), no(f), groups(ex, p, made), groups(ex, f, made)


def some(W, recs):
    made = []
    for i, r in enumerate(recs):
        flags = {"POS/pos": 0, "SST/clim": 0}
        if r["bad"]:
            flags["SST/clim" if i % 2 else "POS/pos"] = 1
        x = flagged(W, flags, **{k: r[k] for k in r if k != "bad"})
        x.setext("number", i)
        made.append(x)
    return made


def groups(ex, deck, made):
    """identity -> numbers of the reports of its voyage"""
    out = []
    for v in deck.get_one_platform_at_a_time():
        ids = sorted({r.getvar("ID") for r in v.reps})
        out.append([ids, [r.getext("number") for r in v.reps]])
    return out


def by_ident(recs, numbers):
    out = {}
    for i in numbers:
        out.setdefault(recs[i]["ID"], []).append(i)
    return sorted([[k], v] for k, v in out.items())


def split_post(a, r):
    if isinstance(a.r, SymReports):
        return split_ok(a.r, r[0], r[1], a.r.n)
    want = [[i for i, x in enumerate(a.r) if x["bad"] == w] for w in (False, True)]
    return [("the reports that pass, in order", r[0] == want[0]), ("the reports that fail, in order", r[1] == want[1]),
            ("grouping of those that pass", sorted(r[2]) == by_ident(a.r, want[0])),
            ("grouping of those that fail", sorted(r[3]) == by_ident(a.r, want[1]))]


add("split_reports: every report in exactly one part, in order", dict(r=Reports()), split_run, [F + "split_reports", D + "__init__", D + "__len__", D + "pop"],
    post=split_post, diff=False, samples=200, use={F + "test_report": stub(lambda a: b(a.rep.sr.bad(a.rep.i)), "self", "rep"), D + "append": stub(into, "self", "rep")},
    loops={F + "split_reports#0": LoopSpec(split_inv, {"_ghost": split_havoc, "rep": lambda E, v, s: None}, changes=("passes", "fails", "reps"))})


# ------------------------------------------------------ the index by identity

class Tracker(object):
    """idtracker, with regard to one identity d: whether it is a key, and the list under it (of others: nothing)"""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, sr, d, has=False, held=None):
        self.sr, self.d, self.has, self.held = sr, d, has, held if held is not None else []

    def __deepcopy__(self, memo):
        return self

    def is_d(self, key):
        return bool(key == self.d)

    def __scontains__(self, key):
        if self.is_d(key):
            return self.has
        return core.engine().bool("other identity known")

    def __getitem__(self, key):
        if self.is_d(key):
            if not bool(self.has):
                raise KeyError(key)
            return self.held
        return Sink()

    def __setitem__(self, key, xs):
        if self.is_d(key):
            self.has, self.held = True, list(xs)

    def setdefault(self, key, xs):
        if self.is_d(key) and not bool(self.has):
            self[key] = xs
        return self[key]


class Sink(object):
    def append(self, x):
        pass


def rank(sr, d):
    """number of reports before i of identity d"""
    return count("rank", lambda i: sr.ident(i) == d)


def held_at(xs, p):
    g, new = ghost(xs)
    n = g.n if g is not None else 0
    val = g.val if g is not None else -1
    for j, x in enumerate(new):
        val = Ite(n + j == p, x, val)
    return And(p >= 0, p < n + len(new)), val


def index_ok(sr, t, i):
    """the index after i reports, with regard to identity d and report k"""
    c, k = rank(sr, t.d), sr.k
    c(k)
    c(i)
    a, x = held_at(t.held, c(k))
    return [("a key when a report has the identity", t.has == (c(i) > 0)),
            ("as many entries as reports of the identity", Implies(t.has, glen(t.held) == c(i))),
            ("each report at its place", Implies(And(k < i, sr.ident(k) == t.d), And(a, x == k)))]


def unknown_tracker(t, E):
    t.has = E.bool("known")
    n = E.int("n.held")
    E.assume(n >= 0)
    t.held = [Ghost(n, None, val=E.int("at.held"))]


def tracker_of(deck):
    """the deck's index: one made anew in the code is an empty dict"""
    if isinstance(deck.idtracker, dict) and not deck.idtracker:
        E = core.engine()
        deck.idtracker = Tracker(E.args.r, E.memo["d"])
    if not isinstance(deck.idtracker, Tracker):
        raise core.Unsupported("an index of another kind")
    return deck.idtracker


def index_inv(v, s):
    t = tracker_of(v.self)
    return index_ok(core.engine().args.r, t, s.i)


def index_havoc(E, v, s):
    unknown_tracker(tracker_of(v.self), E)


def deck(W, sr, t):
    d = W.Extended_IMMA.Deck.__new__(W.Extended_IMMA.Deck)
    d.reps = Growing(sr)
    d.idtracker = t
    d.filter = None
    return d


class Growing(FnSeq):
    def __init__(self, sr):
        FnSeq.__init__(self, sr.n, lambda i: Item(sr, i))
        self.sr, self.sorted = sr, False

    def append(self, x):
        if not bool(x.i == self.n):
            raise core.Unsupported("append of another report")
        self.n = self.n + 1

    def sort(self, key=None, reverse=False):
        if key is not None or reverse:
            raise core.Unsupported("sort with a key")
        self.sorted = True


def index_run(W, a):
    if isinstance(a.r, SymReports):
        E = core.engine()
        d = E.memo["d"] = E.int("a.d")
        t = Tracker(a.r, d)
        unknown_tracker(t, E)        # whatever was in the index before
        k = deck(W, a.r, t)
        k.index_by_id()
        return k
    ex = W.Extended_IMMA
    k = ex.Deck()
    made = some(W, a.r)
    for r in made:
        k.append(r)
        if r.getext("number") == a.again:
            k.index_by_id()
    appended = {x: list(y) for x, y in k.idtracker.items()}
    k.index_by_id()
    return appended, {x: list(y) for x, y in k.idtracker.items()}


def index_post(a, r):
    if isinstance(a.r, SymReports):
        return index_ok(a.r, tracker_of(r), a.r.n) + [("the reports stay", r.reps.n == a.r.n)]
    want = {x[0]: y for x, y in by_ident(a.r, range(len(a.r)))}
    return [("index kept by append", r[0] == want), ("index made anew", r[1] == want)]


add("index_by_id: under each identity the places of its reports, once each, whatever was there before", dict(r=Reports(), again=Enum(-1, 0, 1, 2)),
    index_run, [D + "index_by_id"], post=index_post, diff=False, samples=200,
    loops={D + "index_by_id#0": LoopSpec(index_inv, {"_ghost": index_havoc, "rep": lambda E, v, s: None, "i": lambda E, v, s: 0},
                                         changes=("self",))})


def append_run(W, a):
    if isinstance(a.r, SymReports):
        E = core.engine()
        d = E.memo["d"] = E.int("a.d")
        t = Tracker(a.r, d)
        unknown_tracker(t, E)
        for n, c in index_ok(a.r, t, a.r.n):
            E.assume(core.boolexpr(c))
        k = deck(W, a.r, t)
        k.append(Item(a.r, a.r.n))
        return k
    return index_run(W, NS(r=a.r, again=-1))


class OneMore(Reports):
    def sym(self, E, name):
        sr = Reports.sym(self, E, name)
        sr.k = E.int("a.k+")
        E.assume(And(sr.k >= 0, sr.k <= sr.n))
        return sr


def append_post(a, r):
    if isinstance(a.r, SymReports):
        return index_ok(a.r, tracker_of(r), a.r.n + 1) + [("one more report", r.reps.n == a.r.n + 1)]
    return index_post(a, r)


add("append: the report at the end, and the index with it", dict(r=OneMore()), append_run, [D + "append", D + "__len__"], post=append_post,
    diff=False, samples=200)


# ------------------------------------------------------------------ grouping

def passed(sr, el):
    """among the reports of one identity, in order, the number before p that pass the filter"""
    return count("passed", lambda p: Not(sr.bad(el(p))))


class Index(object):
    """idtracker with two arbitrary keys, e first and then d, whose lists are those of index_by_id"""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, sr, keys):
        self.sr, self.keys_ = sr, keys

    def __deepcopy__(self, memo):
        return self

    def __iter__(self):
        return iter(self.keys_)

    keys = __iter__

    def items(self):
        return [(x, self[x]) for x in self.keys_]

    def __getitem__(self, key):
        for x in self.keys_:
            if x is key:
                return FnSeq(x.m, x.el)
        raise core.Unsupported("another key")


class Key(object):
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, E, sr, name):
        self.name, self.sr = name, sr
        self.m = E.int("a.m." + name)
        self.p = E.int("a.p." + name)
        E.assume(And(self.m > 0, self.p >= 0, self.p < self.m))
        self.f = z3.Function("el." + name, I, I)

    def __deepcopy__(self, memo):
        return self

    def el(self, p):
        x = SNum(self.f(simp(p)), "i")
        core.engine().assume(Implies(And(p >= 0, p < self.m), And(x >= 0, x < self.sr.n)))
        return x

    def passed(self):
        return count("passed." + self.name, lambda p: Not(self.sr.bad(self.el(p))))


def group_ok(key, reps, i):
    np, p = key.passed(), key.p
    np(p)
    np(i)
    there, x = at(reps, np(p))
    return [("as many as pass", glen(reps) == np(i)),
            ("a report that passes is in its place", Implies(And(p < i, Not(key.sr.bad(key.el(p)))), And(there, x == key.el(p))))]


def group_inv(v, s):
    E = core.engine()
    if not isinstance(s.seq, FnSeq):
        raise core.Unsupported("another list")
    key = [k for k in E.memo["keys"] if k.m is s.seq.n][0]
    return group_ok(key, v.out_voyage.reps, s.i)


def group_run(W, a):
    ex = W.Extended_IMMA
    if isinstance(a.r, SymReports):
        E = core.engine()
        E.assume(a.r.n > 0)
        keys = E.memo["keys"] = [Key(E, a.r, "e"), Key(E, a.r, "d")]
        E.memo["index"] = Index(a.r, keys)
        d = deck(W, a.r, E.memo["index"])
        d.reps = FnSeq(a.r.n, lambda i: Item(a.r, i))
        d.filter = ex.QC_filter()
        return [v.reps for v in d.get_one_platform_at_a_time()], keys
    d = ex.Deck()
    made = some(W, a.r)
    if a.how % 2:
        d.add_filter(a_filter(W, [["POS", "pos", 0], ["SST", "clim", 0]]))
    gone, want = [], []
    for i, r in enumerate(made):
        d.append(r)
        if a.ops.get(i, "")[:3] == "pop":
            want.append(d.reps[i // 2 if a.ops[i] == "pop" and i // 2 < len(d.reps) else 0].getext("number"))
        if i in a.ops:
            if a.ops[i] == "sort":
                d.sort()
            elif a.ops[i] == "pop":
                gone.append(d.pop(i // 2 if i // 2 < len(d.reps) else 0))
            elif a.ops[i] == "pop0":
                gone.append(d.pop())
            elif a.ops[i] == "index":
                d.index_by_id()
            elif a.ops[i] == "group":
                list(d.get_one_platform_at_a_time())
    if a.how >= 2:
        d.sort()
    left = [r.getext("number") for r in d.reps]
    gone = [r.getext("number") for r in gone]
    return groups(ex, d, made), left, gone, gone == want, [[r.getvar("ID"), r.dt] for r in d.reps]


def group_post(a, r):
    if isinstance(a.r, SymReports):
        vs, keys = r
        out = [("one voyage for each identity", len(vs) == len(keys))]
        for v, k in zip(vs, keys):
            out += group_ok(k, v, k.m)
        return out
    got, left, gone, right, order = r
    n = len(a.r)
    keep = [i for i in left if not (a.how % 2 and a.r[i]["bad"])]
    full = [g for g in got if g[1]]
    return [("the report asked for is removed", right), ("nothing lost or doubled", sorted(left + gone) == list(range(n))),
            ("each report in the voyage of its identity, in the deck's order", sorted(full) == by_ident(a.r, keep)),
            ("sorted by identity, then time", a.how < 2 or order == sorted(order))]


class Ops(Desc):
    def sym(self, E, name):
        return {}

    def rand(self, rng, pool):
        return {i: rng.choice(["sort", "pop", "pop0", "index", "group"]) for i in range(10) if rng.random() < 0.25}


add("get_one_platform_at_a_time: each report that passes the deck's filter in the voyage of its identity, once, in the deck's order",
    dict(r=Reports(), ops=Ops(), how=Enum(0, 1, 2, 3)), group_run, [D + "get_one_platform_at_a_time", D + "sort", D + "pop", D + "add_filter"], post=group_post,
    diff=False, samples=400,
    use={F + "test_report": stub(lambda a: b(a.rep.sr.bad(a.rep.i)), "self", "rep"), VO + "add_report": stub(into, "self", "rep"),
         D + "index_by_id": stub(lambda a: setattr(a.self, "idtracker", core.engine().memo["index"]), "self")},
    loops={D + "get_one_platform_at_a_time#1": LoopSpec(group_inv, {"_ghost": lambda E, v, s: unknown(v.out_voyage.reps, "voyage"), "i": lambda E, v, s: 0},
                                                        changes=("out_voyage",))})


# ---------------------------------------------------------- sorting, removing

def sort_run(W, a):
    if isinstance(a.r, SymReports):
        d = deck(W, a.r, None)
        d.sort()
        return d
    d = W.Extended_IMMA.Deck()
    made = some(W, a.r)
    for r in made:
        d.append(r)
    d.sort()
    return [r.getext("number") for r in d.reps]


def sort_post(a, r):
    if isinstance(a.r, SymReports):
        return [("sorted, the same reports, and then indexed", r.reps.sorted and r.reps.n is a.r.n and r.idtracker == "made after sorting")]
    key = lambda i: (a.r[i]["ID"], a.r[i]["MO"], a.r[i]["DY"], a.r[i]["HR"])
    return [("by identity, then time; equals as they were", r == sorted(range(len(a.r)), key=key))]


add("sort: by identity and time, and the index made anew", dict(r=Reports()), sort_run, [D + "sort"], post=sort_post, diff=False, samples=150,
    use={D + "index_by_id": stub(lambda a: setattr(a.self, "idtracker", "made after sorting" if a.self.reps.sorted else None), "self")})


def flag_run(W, a):
    if isinstance(a.r, SymReports):
        E = core.engine()
        d = deck(W, a.r, None)
        E.memo["flag"] = z3.Int("old flag of k")
        d.reps = FnSeq(a.r.n, lambda i: Flagged(a.r, i))
        d.set_qc("SST", "clim", a.x)
        return SNum(E.memo["flag"], "i")
    d = W.Extended_IMMA.Deck()
    made = some(W, a.r)
    for r in made:
        d.append(r)
    d.set_qc("SST", "clim", a.x)
    return [r.get_qc("SST", "clim") for r in made] + [r.get_qc("POS", "pos") for r in made]


class Flagged(Item):
    def set_qc(self, t, f, val):
        E = core.engine()
        if (t, f) != ("SST", "clim"):
            raise core.Unsupported("another flag")
        E.memo["flag"] = core.lift(Ite(self.i == self.sr.k, val, SNum(E.memo["flag"], "i")))[0]


def flag_inv(v, s):
    E = core.engine()
    sr = E.args.r
    return [("flag so far", SNum(E.memo["flag"], "i") == Ite(sr.k < s.i, E.args.x, SNum(z3.Int("old flag of k"), "i")))]


def flag_havoc(E, v, s):
    E.memo["flag"] = z3.Int(E.name("flag of k"))


def flag_post(a, r):
    if isinstance(a.r, SymReports):
        return Implies(a.r.n > 0, r == a.x)
    return r == [a.x] * len(a.r) + [int(x["bad"] and i % 2 == 0) for i, x in enumerate(a.r)]


add("set_qc of a deck: the flag of every report, and no other flag", dict(r=Reports(), x=Int(0, 9)), flag_run, [D + "set_qc"], post=flag_post, diff=False,
    samples=100, loops={D + "set_qc#0": LoopSpec(flag_inv, {"_ghost": flag_havoc, "rep": lambda E, v, s: None})})
