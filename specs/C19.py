"""C19: month bookkeeping of platform records."""
import z3
from .common import *
from pyvc.seqs import Seq, Ghost, FnSeq, SymSeq, glen, ghas, glast, gascending, ghost, values_len as ln
from pyvc import arrays
from .C04 import CONTRACTS as C04

CONTRACTS = Specs()
add = CONTRACTS.add
Y = "YMCounter.YMCounter."
ymg = [c for c in C04 if c.name == "year_month_gen"][0]


# ------------------------------------------------------------------- get_chunks

def counter(W, flags, n):
    o = W.YMCounter.YMCounter.__new__(W.YMCounter.YMCounter)
    o.n, o.counter = n, flags
    return o


class Hist(object):
    """Ghost functions over the months before i: prev(i), the last month with a report (-1: none), and, for one month
    k, nk(i), the first month after k with one (-1: none)."""

    def __init__(self, flags, k):
        E = core.engine()
        self.flags, self.k = flags, k
        self.p = z3.Function(E.name("prev"), z3.IntSort(), z3.IntSort())
        self.q = z3.Function(E.name("next"), z3.IntSort(), z3.IntSort())
        self.seen = []
        E.assume(self.p(0) == -1)
        E.assume(self.q(0) == -1)

    def unfold(self, i):
        """definitions at the month i"""
        E = core.engine()
        e = z3.simplify(core.lift(i)[0])
        if any(e.eq(j) for j in self.seen):
            return
        self.seen.append(e)
        d = self.data(i).e if isinstance(self.data(i), core.Sym) else z3.BoolVal(bool(self.data(i)))
        k = core.lift(self.k)[0]
        E.assume(self.p(z3.simplify(e + 1)) == z3.If(d, e, self.p(e)))
        E.assume(self.q(z3.simplify(e + 1)) == z3.If(z3.And(self.q(e) == -1, e > k, d), e, self.q(e)))
        E.assume(z3.And(self.p(e) < e, self.p(e) >= -1, self.q(e) < e, self.q(e) >= -1))
        E.assume(z3.Or(self.q(e) == -1, self.q(e) > k))

    def data(self, i):
        return self.flags.sget(i) == 1

    def prev(self, i):
        return core.mk(self.p(z3.simplify(core.lift(i)[0])), "i")

    def next(self, i):
        return core.mk(self.q(z3.simplify(core.lift(i)[0])), "i")

    def starts(self, gap, i):
        """k starts a chunk, as far as the months before i tell"""
        k = self.k
        self.unfold(k)
        return And(k < i, self.data(k), Or(self.prev(k) == -1, k - self.prev(k) - 1 >= gap))

    def ends(self, gap, i):
        k = self.k
        return And(k < i, self.data(k), self.next(i) != -1, self.next(i) - k - 1 >= gap)


def hist(v):
    E = core.engine()
    if "hist" not in E.memo or E.memo["hist"].flags is not v.self.counter:
        E.memo["hist"] = Hist(v.self.counter, E.args.k)
    return E.memo["hist"]


def inv(v, s):
    h = hist(v)
    i, gap = s.i, v.gap
    h.unfold(i)
    if not isinstance(s.i, int):
        h.unfold(i - 1)
    p = h.prev(i)
    k = h.k
    h.unfold(k)
    return [
        ("months since the last report", Ite(p >= 0, v.zeros == i - p - 1, v.zeros == gap + i)),
        ("last month with a report", v.lastdata == p),
        ("last report and first report after k", And(k >= 0, (p == k) == And(k < i, h.data(k), h.next(i) == -1))),
        ("months from k on", Implies(And(k < i, h.data(k)), p >= k)),
        ("starts", ghas(v.starts, k) == h.starts(gap, i)),
        ("ends", ghas(v.ends, k) == h.ends(gap, i)),
        ("one chunk open", glen(v.starts) == glen(v.ends) + Ite(p >= 0, 1, 0)),
        ("starts within", Implies(glen(v.starts) > 0, And(glast(v.starts, -1) <= p, glast(v.starts, -1) >= 0))),
        ("ends within", Implies(glen(v.ends) > 0, And(glast(v.ends, -1) < glast(v.starts, -1), glast(v.ends, -1) >= 0))),
        ("starts ascend", gascending(v.starts)),
        ("ends ascend", gascending(v.ends)),
    ]


def havoc(name):
    def f(E, v, s):
        n = E.int("n." + name)
        E.assume(n >= 0)
        getattr(v, name)[:] = [Ghost(n, E.int("last." + name), has=E.bool("has." + name))]
        return getattr(v, name)
    return f


def chunks(flags, gap):
    """Months with reports, split where at least gap months in a row have none."""
    out = []
    for i, f in enumerate(flags):
        if f == 1:
            if out and i - out[-1][1] - 1 < gap:
                out[-1][1] = i
            else:
                out.append([i, i])
    return [[x for x, _ in out], [y for _, y in out]]


def chunks_post(a, r):
    starts, ends = r
    if not core.has_sym([a.gap]):
        return [("chunks as defined", [list(starts), list(ends)] == chunks(a.flags, a.gap))]
    E = core.engine()
    h = E.memo["hist"]
    n, k = ln(a.flags), a.k
    isend = And(k < n, h.data(k), Or(h.next(n) == -1, h.next(n) - k - 1 >= a.gap))
    # the last chunk ends with the last report
    return [("a month is among the starts exactly when it starts a chunk", ghas(starts, k) == h.starts(a.gap, n)),
            ("a month is among the ends exactly when it ends a chunk", ghas(ends, k) == isend),
            ("as many starts as ends", glen(starts) == glen(ends)),
            ("starts in order", gascending(starts)), ("ends in order", gascending(ends))]


class Flags(Seq):
    def __init__(self):
        Seq.__init__(self, Int(0, 1), 1, sample=range(1, 40))

    def rand(self, rng, pool):
        n, p = rng.choice(self.sample), rng.choice([0.05, 0.2, 0.5, 0.9])
        return [int(rng.random() < p) for _ in range(n)]


def get_chunks(W, a):
    flags = a.flags
    if not isinstance(flags, SymSeq):
        flags = facade_array(flags)
    r = counter(W, flags, ln(a.flags)).get_chunks(a.gap)
    return [r[0], r[1]]


def facade_array(x):
    import numpy as np
    return np.array(x, dtype=object if core.has_sym(x) else float)


add("get_chunks", dict(flags=Flags(), gap=Int(1, 40, extra=(1, 2, 10, 11, 12)), k=Int(0, 50)), get_chunks, [Y + "get_chunks"],
    loops={Y + "get_chunks#0": LoopSpec(inv=inv, havoc=dict(starts=havoc("starts"), ends=havoc("ends")))},
    post=chunks_post, samples=3000)


# ------------------------------------------------------ months of the counter

def ym(y1, m1, i):
    t = m1 - 1 + i
    return y1 + t // 12, t % 12 + 1


class Count(Int):
    """any number; the samples are small"""

    def rand(self, rng, pool):
        return rng.randint(self.lo, rng.choice([3, 13, 40]))


ALL = dict(y1=Int(1850, 2030), m1=Int(1, 12), n=Count(1), k=Count(0))


def calendar(a, n):
    """year_month_gen by its contract (C04)"""
    def gen(*x):
        core.engine().prove(eq(list(x), [a.y1, a.m1] + list(ym(a.y1, a.m1, n - 1))), "the months asked for are those of the record")
        return FnSeq(n, lambda i: ym(a.y1, a.m1, i))
    return gen


def exact():
    return getattr(core.engine(), "exact", False)


def made(W, a):
    y2, m2 = ym(a.y1, a.m1, a.n - 1)
    if W.symbolic and not exact():
        core.engine().memo["arrays"] = True
        W.replace("qc.year_month_gen", calendar(a, a.n))
    return W.YMCounter.YMCounter(a.y1, a.m1, y2, m2)


def new(W, a):
    o = made(W, a)
    return o if W.symbolic and not exact() else [o.n, list(o.years), list(o.months), list(o.counter)]


def cell(x, k):
    """x[k] of an array of any length: (missing, number)"""
    if not isinstance(x, arrays.SymArr):
        raise core.Unsupported("the months of a record are not kept in an array")
    return x.cell(k)


def holds(x, k, want):
    nan, v = cell(x, k)
    return And(Not(nan), v == want)


def new_post(a, r):
    if isinstance(r, list):
        return [("months as counted", eq(r, [a.n] + [[ym(a.y1, a.m1, i)[j] for i in range(a.n)] for j in (0, 1)] + [[0] * a.n]))]
    k, (y, m) = a.k, ym(a.y1, a.m1, a.k)
    inside = And(k >= 0, k < a.n)
    return [("as many months as from the first to the last", And(r.n == a.n, r.years.n == a.n, r.months.n == a.n, r.counter.n == a.n)),
            ("the years", Implies(inside, holds(r.years, k, y))), ("the months", Implies(inside, holds(r.months, k, m))),
            ("none with reports", Implies(inside, holds(r.counter, k, 0)))]


def fill_inv(v, s):
    a = core.engine().args
    o, j = v.self, core.engine().memo.setdefault("month", core.engine().int("month"))
    y, m = ym(a.y1, a.m1, j)
    on = And(j >= 0, j < o.n)
    return [("months so far", v.ct == s.i), ("in all", o.n == a.n),
            ("lengths", And(o.years.n == a.n, o.months.n == a.n, o.counter.n == a.n)),
            ("years so far", Implies(on, holds(o.years, j, Ite(j < s.i, y, 0)))),
            ("months so far", Implies(on, holds(o.months, j, Ite(j < s.i, m, 0)))),
            ("none with reports", Implies(on, holds(o.counter, j, 0)))]


def fill_havoc(E, v, s):
    a, o, i = E.args, v.self, s.now
    for x, w in ((o.years, 0), (o.months, 1)):
        cell(x, 0)
        x.fn = lambda j, w=w: (False, core.tofloat(Ite(j < i, ym(a.y1, a.m1, j)[w], 0)))
    return o


FILL = {Y + "__init__#0": LoopSpec(inv=fill_inv, havoc=dict(self=fill_havoc), changes=("self",))}

add("a new counter lists every month, none with reports", ALL, new, [Y + "__init__"], pre=lambda a: a.k < a.n, loops=FILL, post=new_post)


def ask(W, a):
    o = made(W, a)
    y, m = ym(a.y1, a.m1, a.i)
    if W.symbolic and not exact():
        # the record as __init__ leaves it, some months already noted
        o.years = arrays.SymArr(a.n, lambda j: (False, core.tofloat(ym(a.y1, a.m1, j)[0])))
        o.months = arrays.SymArr(a.n, lambda j: (False, core.tofloat(ym(a.y1, a.m1, j)[1])))
        had = z3.Function("had", z3.IntSort(), z3.RealSort())
        o.counter = arrays.SymArr(a.n, lambda j: (False, core.mk(had(core.lift(j)[0]), "r")))
        before = o.counter.copy()
        o.setym(y, m, a.flag)
        return [o, before, o.index(y, m)]
    o.setym(y, m, a.flag)
    found = o.index(y, m) if 0 <= a.i < a.n else [a.i]      # a month outside the record is not asked for
    return [list(o.counter), [int(x) for x in found] if hasattr(found, "__iter__") else [int(found)], list(o.years), list(o.months)]


def ask_post(a, r):
    if isinstance(r[0], list):
        return [("the month and no other", eq(r, [[Ite(a.i == j, a.flag, 0) for j in range(a.n)],
                                                 [a.i]] +
                                              [[ym(a.y1, a.m1, i)[j] for i in range(a.n)] for j in (0, 1)]))]
    o, before, found = r
    k, (y, m) = a.k, ym(a.y1, a.m1, a.k)
    inside = And(k >= 0, k < a.n)
    was = before.cell(k)[1]
    out = [("setym notes it of the month and leaves the others", And(o.counter.n == a.n, Implies(inside, holds(o.counter, k, Ite(k == a.i, a.flag, was))))),
           ("years and months stay", Implies(inside, And(holds(o.years, k, y), holds(o.months, k, m)))), ("length stays", o.n == a.n)]
    if isinstance(found, arrays.Masked):
        nan, pos = found.arr.cell(k)
        out.append(("index lists the month's position and no other",
                    And(found.m.n == a.n, Implies(inside, And(found.m.fn(k) == (k == a.i), Implies(k == a.i, And(Not(nan), pos == a.i)))))))
    else:
        out.append(("index is the month's position", Implies(And(a.i >= 0, a.i < a.n), eq(found, a.i))))
    return out


add("setym and index find the month", dict(ALL, i=Count(-1), flag=Int(0, 1)), ask,
    [Y + "setym", Y + "index", Y + "__init__"], pre=lambda a: And(a.k < a.n, a.i <= a.n), loops=FILL, post=ask_post)


# ------------------------------------------------------- start and end dates

def classify(a, start, end):
    out = []
    if bool(start < a.gap):
        out.append("start_edge_case")
    if bool(a.n - 1 - end < a.gap):
        out.append("end_edge_case")
    if bool(a.n - 1 - end == a.gap):
        out.append("new")
    if not ("start_edge_case" in out or "end_edge_case" in out):
        out.append("regular")
    return out


def item(a, start, end):
    return list(ym(a.y1, a.m1, start) + ym(a.y1, a.m1, end)) + [classify(a, start, end)]


def yielded(W, a):
    if not W.symbolic:
        import numpy as np
        y2, m2 = ym(a.y1, a.m1, ln(a.flags) - 1)
        o = W.YMCounter.YMCounter(a.y1, a.m1, y2, m2)
        for i, f in enumerate(a.flags):
            if f:
                o.setym(*(ym(a.y1, a.m1, i) + (1,)))
        return [list(x[:4]) + [list(x[4])] for x in o.yield_start_and_end_dates(a.gap)]
    E = core.engine()
    n = ln(a.flags)
    o = W.YMCounter.YMCounter.__new__(W.YMCounter.YMCounter)
    o.n = n
    if getattr(E, "exact", False):
        y2, m2 = ym(a.y1, a.m1, n - 1)
        o = W.YMCounter.YMCounter(a.y1, a.m1, y2, m2)
        for i, f in enumerate(a.flags):
            if f:
                o.setym(*(ym(a.y1, a.m1, i) + (1,)))
        return [list(x[:4]) + [list(x[4])] for x in o.yield_start_and_end_dates(a.gap)]
    o.years = FnSeq(n, lambda i: ym(a.y1, a.m1, i)[0])
    o.months = FnSeq(n, lambda i: ym(a.y1, a.m1, i)[1])
    ns = E.int("chunks")
    E.assume(ns >= 0)
    s = z3.Function("start", z3.IntSort(), z3.IntSort())
    e = z3.Function("end", z3.IntSort(), z3.IntSort())

    def elem(f, g):
        def at(i):
            j = core.lift(i)[0]
            x, y = core.mk(s(j), "i"), core.mk(e(j), "i")
            E.assume(And(x >= 0, x <= y, y < n))
            return x if f else y
        return FnSeq(ns, at)
    o.get_chunks = lambda gap: (E.prove(gap == a.gap, "the chunks are those of the gap asked for") and None) or (elem(1, 0), elem(0, 1))

    def index(y, m):
        import numpy as np
        j = 12 * y + m - 1 - (12 * a.y1 + a.m1 - 1)
        E.prove(And(m >= 1, m <= 12, j >= 0, j < n), "index is asked for a month of the record")
        return np.array([j], dtype=object)
    o.index = index
    for got in o.yield_start_and_end_dates(a.gap):
        i = E.memo["chunk"]
        E.prove(eq(list(got), item(NS(y1=a.y1, m1=a.m1, n=n, gap=a.gap), *[f.sget(i) for f in (elem(1, 0), elem(0, 1))])),
                "each chunk is handed out with its months and its class")
    return []


def note(v, s):
    if isinstance(s.i, core.Sym):
        core.engine().memo.setdefault("chunk", s.i)
    return []


def yield_post(a, r):
    if not isinstance(a.flags, list):
        return [("every chunk is handed out", True)]
    n = NS(y1=a.y1, m1=a.m1, n=len(a.flags), gap=a.gap)
    return [("every chunk with its months and class", eq(r, [item(n, x, y) for x, y in zip(*chunks(a.flags, a.gap))]))]


add("yield_start_and_end_dates", dict(flags=Flags(), y1=Int(1850, 2030), m1=Int(1, 12), gap=Int(1, 40, extra=(1, 2, 10, 11, 12))),
    yielded, [Y + "yield_start_and_end_dates", Y + "index", Y + "setym", Y + "__init__", Y + "get_chunks"],
    loops={Y + "yield_start_and_end_dates#0": LoopSpec(inv=note)}, post=yield_post, samples=1500,
    assumes=("index(year, month) is the month's position (as proved); get_chunks as proved",))
