"""C11: the speed and spike checks of ship and drifter tracks.

Both compare each report with its neighbours, and then flag the report in most violations and take it out, until no
violation is left. Followed: two arbitrary reports k and j."""
import z3
from .voyage import *
from pyvc import contract as _contract
from pyvc.core import SNum
from pyvc.seqs import FnSeq, Ghost, ghost, glen, glast, ghas

CONTRACTS = Specs()
add = CONTRACTS.add
VO = "Extended_IMMA.Voyage."
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ix = lambda x: z3.simplify(core.lift(x)[0])


def bnum(e):
    return core.mkb(z3.simplify(e))


# ------------------------------------------------------ what is in violation

def speed_bad(V, P, i, j):
    """the speed between two reports is over the limit"""
    speed, dist, course, dt = V.sub(j, i)
    lim = Ite(P.buoy, P.buoy_speed_limit, P.ship_speed_limit)
    x = abs(dist) - P.delta_d
    return gt(div(Ite(x > 0, x, 0.0), abs(dt) + P.delta_t), lim)


def value_bad(V, P, i, j, name="SST"):
    """the change of value is over the limits"""
    (m1, x), (m2, y) = raw(V, name, i), raw(V, name, j)
    if not core.has_sym([m1, m2]) and (m1 or m2):
        return False
    speed, dist, course, dt = V.sub(j, i)
    lim = Ite(P.buoy, P.buoy_delta_t, P.ship_delta_t)
    c = abs(x - y)
    return And(Not(m1), Not(m2), gt(c, lim), gt(c, abs(dist) * P.max_gradient_space), gt(c, abs(dt) * P.max_gradient_time))


def raw(V, name, i):
    if isinstance(V, SymVoyage):
        return V.raw(name, i)
    x = V.get(name, i)
    return x is None, (0.0 if x is None else x)


class Pars(Desc):
    def __init__(self, **d):
        self.d = d

    def sym(self, E, name):
        o = NS(number_of_neighbours=E.int("a.nn"))
        E.assume(o.number_of_neighbours >= 0)
        for x in self.d:
            v = E.real("a." + x)
            E.assume(v >= 0 if x != "delta_t" else v > 0)
            setattr(o, x, v)
        return o

    def rand(self, rng, pool):
        o = NS(number_of_neighbours=rng.choice([0, 1, 2, 5, 5, 20]))
        for x in self.d:
            setattr(o, x, rng.choice(self.d[x]))
        return o


# ------------------------------------------------------------- ghost state

class GTrack(SymVoyage):
    """a track, with the flags of all its reports as an array, and two reports k and j followed"""

    def __init__(self, E, name, n):
        SymVoyage.__init__(self, E, name, n)
        self.j = E.int("a." + name + ".j")
        E.assume(And(self.j >= 0, self.j < n))
        self.fl = z3.Array("flags.before", I, I)
        self.left = E.int("unflagged")
        self.key = None
        self.generic = False
        self.later = False

    def sub(self, i, j):
        out = SymVoyage.sub(self, i, j)
        core.engine().assume(Implies(i == j, out[1] == 0))
        return out

    def flag(self, i):
        return SNum(z3.Select(self.fl, ix(i)), "i")

    def put(self, i, key, val):
        E = core.engine()
        if key != self.key:
            raise core.Unsupported("another flag")
        E.prove(And(val >= 0, val <= 9, i >= 0, i < self.n), "flags of reports are set to 0-9", aux=True)
        if self.later:
            # a report is being taken out
            c = E.memo["counts"]
            E.prove(val == 1, "reports taken out are flagged", aux=True)
            E.prove(And(c.get(i) > 0, c.get(i) >= c.get(self.k)), "the report taken out is in most of the violations left", aux=True)
            E.assume(Implies(self.flag(i) == 0, self.left >= 1))
            self.left = self.left - b(self.flag(i) == 0)
        self.fl = z3.simplify(z3.Store(self.fl, ix(i), core.lift(val)[0]))


class STrack(Track):
    def sym(self, E, name):
        n = E.int("a." + name + ".n")
        E.assume(n >= self.lo)
        return GTrack(E, name, n)


class Lists(object):
    """a list for each report, each a set of reports kept without repetition: membership and number, for all"""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, E, V):
        self.V = V
        self.m = z3.Array(E.name("member"), I, z3.ArraySort(I, B))
        self.size = z3.Array(E.name("size"), I, I)
        self.version = E.name("lists")

    def copy(self):
        o = Lists.__new__(Lists)
        o.__dict__.update(self.__dict__)
        return o

    def slen(self):
        return self.V.n

    def __getitem__(self, i):
        E = core.engine()
        E.prove(And(i >= 0, i < self.V.n), "index of the lists within range", aux=True)
        return One(self, i)

    def has(self, i, j):
        return bnum(z3.Select(z3.Select(self.m, ix(i)), ix(j)))

    def number(self, i):
        return SNum(z3.simplify(z3.Select(self.size, ix(i))), "i")


class One(object):
    """one of the lists, as it is now"""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, ls, i):
        self.ls, self.i = ls, i
        t = "%s.%s" % (ls.version, z3.simplify(ix(i)).sexpr())
        self.el, self.pos = z3.Function("el." + t, I, I), z3.Function("pos." + t, I, I)
        self.version = ls.version

    def slen(self):
        return self.ls.number(self.i)

    def know(self, p):
        """the p-th element is a member and has that place"""
        E = core.engine()
        x = SNum(self.el(ix(p)), "i")
        E.assume(Implies(And(p >= 0, p < self.slen()), And(self.ls.has(self.i, x), SNum(self.pos(ix(x)), "i") == p)))
        return x

    def place(self, j):
        E = core.engine()
        p = SNum(self.pos(ix(j)), "i")
        E.assume(Implies(self.ls.has(self.i, j), And(p >= 0, p < self.slen(), SNum(self.el(ix(p)), "i") == j)))
        return p

    def sget(self, p):
        x = self.know(p)
        E = core.engine()
        E.assume(Implies(self.ls.has(self.i, x), And(x >= 0, x < self.ls.V.n)))      # only reports are members
        return x

    def __iter__(self):
        raise core.Unsupported("loop over an unbounded list without an invariant")

    def __scontains__(self, x):
        return self.ls.has(self.i, x)

    def remove(self, x):
        E, ls = core.engine(), self.ls
        E.prove(ls.has(self.i, x), "the thing removed is there", aux=True)
        if E.memo.get("walked") is not None:
            E.prove(self.i != E.memo["walked"], "the list walked through is not changed", aux=True)
        i = ix(self.i)
        ls.size = z3.simplify(z3.Store(ls.size, i, z3.Select(ls.size, i) - 1))
        ls.m = z3.simplify(z3.Store(ls.m, i, z3.Store(z3.Select(ls.m, i), ix(x), z3.BoolVal(False))))


class Counts(object):
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, E, V, inst):
        self.V, self.c, self.inst = V, z3.Array(E.name("count"), I, R), inst

    def get(self, i):
        return SNum(z3.simplify(z3.Select(self.c, ix(i))), "r")

    def slen(self):
        return self.V.n

    def __getitem__(self, i):
        core.engine().prove(And(i >= 0, i < self.V.n), "index of the counts within range", aux=True)
        return self.get(i)

    def __setitem__(self, i, v):
        core.engine().prove(And(i >= 0, i < self.V.n), "index of the counts within range", aux=True)
        self.c = z3.simplify(z3.Store(self.c, ix(i), core.real(*core.lift(v))))

    # the counts are not below 0 (the invariant): the sum is at least each of them, and 0 only if all are
    def ssum(self):
        E = core.engine()
        s, m = E.real("sum"), self.top()
        for i in (self.V.k, self.V.j, m):
            E.assume(And(s >= self.get(i), self.get(i) >= 0))
        E.assume(Implies(s > 0, self.get(m) > 0))
        return s

    def top(self):
        E = core.engine()
        key = ("top", self.c.get_id())
        if key not in E.memo:
            m = E.memo[key] = E.int("argmax")
            E.assume(And(m >= 0, m < self.V.n))
            for i in (self.V.k, self.V.j):
                E.assume(self.get(m) >= self.get(i))
            w = E.int("witness")
            ls = E.memo["lists"]
            E.assume(Implies(ls.number(m) >= 1, And(ls.has(m, w), w >= 0, w < self.V.n)))
            self.inst(m, w)
        return E.memo[key]

    sargmax = top


# ------------------------------------------------------------- the invariants

class Walk(object):
    """the loop specifications of one of the checks"""

    def __init__(self, q, first, lists, counts, one, num, bad, flag):
        self.q, self.lists, self.counts, self.one, self.num, self.bad, self.flag = q, lists, counts, one, num, bad, flag
        n = first
        L = {}
        L[q + "#%d" % n] = LoopSpec(self.outer, {lists: lambda E, v, s: self.fresh_list(E, v, lists, True),
                                                 counts: lambda E, v, s: self.fresh_list(E, v, counts, False),
                                                 "_ghost": self.fresh_flags})

        L[q + "#%d" % (n + 1)] = LoopSpec(self.inner, {one: self.fresh_one})
        L[q + "#%d" % (n + 2)] = LoopSpec(self.out, {lists: self.fresh_lists, counts: self.fresh_counts, "_ghost": self.at_while},
                                          measure=lambda v: self.V().left)
        L[q + "#%d" % (n + 3)] = LoopSpec(self.take, {"_ghost": self.fresh_in}, keep=(lists, counts))
        self.loops = L

    def V(self):
        return core.engine().args.v

    def viol(self, i, j):
        """reports i and j are neighbours in violation"""
        a = core.engine().args
        nn = a.P.number_of_neighbours
        return And(i - j <= nn, j - i <= nn, self.bad(self.V(), a.P, i, j))

    # comparing with the neighbours
    def fresh_one(self, E, v, s):
        n = E.int("n.one")
        E.assume(n >= 0)
        getattr(v, self.one)[:] = [Ghost(n, E.int("last.one"), has=E.bool("has.one"), asc=E.bool("asc.one"))]
        return getattr(v, self.one)

    def asc(self, xs):
        g, new = ghost(xs)
        from pyvc.seqs import gascending
        return And(g.asc if g is not None else True, gascending(xs))

    def inner(self, v, s):
        V, xs, lo = self.V(), getattr(v, self.one), v.lo
        j = V.j
        upto = lo + s.i
        return [("the violations so far", ghas(xs, j) == And(j >= lo, j < upto, self.bad(V, core.engine().args.P, v.t1, j))),
                ("their number", glen(xs) == getattr(v, self.num)), ("each once, in order", self.asc(xs)),
                ("within what was looked at", Implies(glen(xs) > 0, And(glast(xs, -1) < upto, glast(xs, -1) >= lo)))]

    def fresh_list(self, E, v, name, lists):
        n = E.int("n." + name)
        E.assume(n >= 0)
        g = Ghost(n, None, has=E.bool("kj." + name), asc=E.bool("asc." + name), size=E.int("size." + name), val=E.real("val." + name))
        getattr(v, name)[:] = [g]
        return getattr(v, name)

    def fresh_flags(self, E, v, s):
        V = self.V()
        V.fl = z3.Array(E.name("flags"), I, I)

    def row(self, xs, k, j):
        """(contains j, number of elements, in order) of the list of report k"""
        g, new = ghost(xs)
        has, size, asc = (g.has, g.size, g.asc) if g is not None else (False, 0, True)
        n = g.n if g is not None else 0
        for p, x in enumerate(new):
            here = k == n + p
            has, size, asc = Ite(here, ghas(x, j), has), Ite(here, glen(x), size), Ite(here, self.asc(x), asc)
        return has, size, asc

    def cell(self, xs, k):
        g, new = ghost(xs)
        val, n = (g.val, g.n) if g is not None else (0.0, 0)
        for p, x in enumerate(new):
            val = Ite(k == n + p, core.tofloat(x) if core.is_sym(x) else float(x), val)
        return val

    def outer(self, v, s):
        V = self.V()
        k, j = V.k, V.j
        ls, cs = getattr(v, self.lists), getattr(v, self.counts)
        has, size, asc = self.row(ls, k, j)
        seen = k < s.i
        return [("one list each", And(glen(ls) == s.i, glen(cs) == s.i)),
                ("the violations of each", Implies(seen, has == self.viol(k, j))),
                ("their number", Implies(seen, And(self.cell(cs, k) == size, size >= 0))), ("each once", Implies(seen, asc)),
                ("no flag yet", Implies(seen, V.flag(k) == 0))]

    # taking out
    def fresh_lists(self, E, v, s):
        E.memo["lists"] = Lists(E, self.V())
        return E.memo["lists"]

    def fresh_counts(self, E, v, s):
        V = self.V()
        E.memo["counts"] = Counts(E, V, self.inst)
        return E.memo["counts"]

    def at_while(self, E, v, s):
        V = self.V()
        V.later = True
        V.fl = z3.Array(E.name("flags"), I, I)
        V.left = E.int("unflagged")
        E.assume(V.left >= 0)
        E.memo["walked"] = None

    def state(self, ls, cs, k, j):
        """what holds between removals, of any reports k and j"""
        V = self.V()
        h, f = ls.has(k, j), V.flag(k)
        return [("flags are 0 or 1", Or(f == 0, f == 1)),
                ("counts of reports taken out", Implies(f == 1, cs.get(k) == 0)),
                ("counts of the others", And(cs.get(k) >= 0, Implies(f == 0, cs.get(k) == ls.number(k)))),
                ("numbers", ls.number(k) >= 0),
                ("only violations are listed", Implies(h, self.viol(k, j))),
                ("violations not listed are of reports taken out", Implies(And(self.viol(k, j), Not(h)), V.flag(j) == 1)),
                ("reports taken out are listed nowhere where they list", Implies(And(f == 1, h), Not(ls.has(j, k)))),
                ("flagged for a violation", Implies(f == 1, self.some(k)))]

    def some(self, k):
        """report k has a violation: with the report w(k) if with any"""
        E, V = core.engine(), self.V()
        return bnum(z3.Function("in violation", I, B)(ix(k)))

    def out(self, v, s):
        V, ls, cs = self.V(), getattr(v, self.lists), getattr(v, self.counts)
        k, j = V.k, V.j
        if isinstance(ls, Lists):
            return self.state(ls, cs, k, j)
        # on entry: the same, of the lists as built
        has, size, asc = self.row(ls, k, j)
        return [("one list each", And(glen(ls) == V.n, glen(cs) == V.n)), ("no flags", V.flag(k) == 0), ("counts", self.cell(cs, k) == size),
                ("numbers", size >= 0), ("each once", asc), ("the violations", has == self.viol(k, j))]

    def inst(self, *more):
        """the invariant of the while loop, of the reports followed and more"""
        E, V = core.engine(), self.V()
        ls, cs = E.memo["lists"], E.memo["counts"]
        xs = [V.k, V.j] + list(more)
        for a in xs:
            for c in xs:
                given = And(a >= 0, a < V.n, c >= 0, c < V.n)
                for n, x in self.state(ls, cs, a, c):
                    E.assume(Implies(given, x))
                E.assume(Implies(And(given, self.viol(a, c)), self.some(a)))        # the meaning of some
                E.assume(Implies(ls.has(a, c), ls.number(a) >= 1))                  # a set with a member is not empty

    def fresh_in(self, E, v, s):
        ls, cs = E.memo["lists"], E.memo["counts"]
        ls.m = z3.Array(E.name("member"), I, z3.ArraySort(I, B))
        ls.size = z3.Array(E.name("size"), I, I)
        cs.c = z3.Array(E.name("count"), I, R)
        ls.version = E.name("lists")
        E.memo["all pairs"] = True

    def relation(self, i, m, k, j):
        """the lists and counts now, against those when the walk through the list of m began, i members done"""
        E = core.engine()
        l0, c0, walk = E.memo["start"]
        l1, c1 = E.memo["lists"], E.memo["counts"]
        gone = And(l0.has(m, k), walk.place(k) < i, l0.has(k, m))
        return [("members", l1.has(k, j) == And(l0.has(k, j), Not(And(j == m, gone)))),
                ("numbers", l1.number(k) == l0.number(k) - b(gone)),
                ("counts", c1.get(k) == c0.get(k) - Ite(gone, 1.0, 0.0))]

    def take(self, v, s):
        E, V = core.engine(), self.V()
        m = v.most_fails
        if not isinstance(s.seq, One) or not isinstance(getattr(v, self.lists), Lists):
            raise core.Unsupported("a walk through something else")
        if not isinstance(s.i, core.Sym):
            # on entry
            c0 = Counts.__new__(Counts)
            c0.__dict__.update(E.memo["counts"].__dict__)
            s.seq.ls = E.memo["lists"].copy()
            E.memo["start"] = s.seq.ls, c0, s.seq
            E.memo["walked"] = m
        if E.memo.pop("all pairs", False):
            for a in (V.k, V.j, m):
                for c in (V.k, V.j, m):
                    for n, x in self.relation(s.i, m, a, c):
                        E.assume(core.boolexpr(x) if isinstance(x, core.Sym) else x)
            x = s.seq.sget(s.i)
            for n, c in self.relation(s.i, m, x, m):
                E.assume(Implies(s.i < s.n, c))
        return self.relation(s.i, m, V.k, V.j)


def run(fn, flag, **kw):
    def f(W, a):
        P = dict((x, getattr(a.P, x)) for x in a.P.__dict__ if x != "buoy")
        v = voyage(W, a.v)
        if isinstance(a.v, SymVoyage):
            a.v.key = (kw.get("intype", "POS"), flag)
            a.P.buoy = bnum(z3.Bool("buoy"))
            miss, pt = a.v.raw("PT", 0)
            core.engine().assume(core.boolexpr(a.P.buoy == And(Not(miss), Or(pt == 6, pt == 7))))
            for d in (a.v, core.engine().args.v):
                d.key = a.v.key
            core.engine().args.P.buoy = a.P.buoy
        getattr(v, fn)(P, **kw)
        if isinstance(a.v, SymVoyage):
            return v
        return [r.get_qc(kw.get("intype", "POS"), flag) for r in v.reps]
    return f


def greedy(a, bad, generic):
    """the flags: the first report in most of the violations left is taken out until none is left"""
    V = view(a.v)
    n = V.n
    if n == 0:
        return []
    a.P.buoy = V.get("PT", 0) in (6, 7)
    if generic and _contract.REAL.qc.id_is_generic(V.get("ID", 0), V.get("YR", 0)):
        return [0] * n
    nn = a.P.number_of_neighbours
    rel = [set(j for j in range(max(0, i - nn), min(n, i + nn + 1)) if bad(V, a.P, i, j)) for i in range(n)]
    if any((i in rel[j]) != (j in rel[i]) for i in range(n) for j in rel[i]):
        NEAR[0] = True
    left, out = set(range(n)), [0] * n
    while True:
        num = [len(rel[i] & left) if i in left else 0 for i in range(n)]
        m = max(range(n), key=lambda i: num[i])
        if num[m] == 0:
            return out
        out[m] = 1
        left.discard(m)


def post(bad, generic, W):
    def f(a, r):
        if not isinstance(a.v, SymVoyage):
            return [("the flags of taking out the worst until no violation is left", r == greedy(a, bad, generic))]
        V = a.v
        k, j = V.k, V.j
        if generic and V.generic:
            return [("no flag for a generic identifier", V.flag(k) == 0)]
        near = And(k - j <= a.P.number_of_neighbours, j - k <= a.P.number_of_neighbours)
        return [("no two neighbouring reports left are in violation", Implies(And(near, bad(V, a.P, k, j)), Or(V.flag(k) == 1, V.flag(j) == 1))),
                ("only reports in violation are flagged", Or(V.flag(k) == 0, And(V.flag(k) == 1, W.some(k))))]
    return f


def generic_id(a):
    E = core.engine()
    V = E.args.v
    V.generic = bool(E.bool("generic"))
    return V.generic


GEN = {"qc.id_is_generic": Contract("stub", dict(inid=None, year=None), None, [], spec=generic_id)}


def generic_inv(v, s):
    V = core.engine().args.v
    return [("flags so far", Implies(V.k < s.i, V.flag(V.k) == 0))]


WS = Walk(VO + "iquam_track_check", 1, "speed_violations", "count_speed_violations", "violations_for_this_report", "count_violations_this_report",
          speed_bad, ("POS", "iquam_track"))
loops = dict(WS.loops)
loops[VO + "iquam_track_check#0"] = LoopSpec(generic_inv, {"_ghost": WS.fresh_flags})


class Fast(STrack):
    def rand(self, rng, pool):
        self.speed = rng.choice([10., 30., 120.])
        self.jumps = rng.choice([0.0, 0.15, 0.4])
        return Track.rand(self, rng, pool)


LIM = dict(buoy_speed_limit=[15., 5., 0.5], ship_speed_limit=[60., 20., 110.], delta_d=[1.11, 0., 11.], delta_t=[0.01, 0.5])


def clear(bad, generic):
    def g(a):
        NEAR[0] = False
        greedy(a, bad, generic)
        return not NEAR[0]
    return g


add("iquam_track_check: what is left has no speed over the limit, and nothing else is flagged", dict(v=Fast(1, 12), P=Pars(**LIM)),
    run("iquam_track_check", "iquam_track"), [VO + "iquam_track_check"], post=post(speed_bad, True, WS), use=GEN, loops=loops,
    diff=False, samples=500, guard=clear(speed_bad, True))


# ---------------------------------------------------------------- spikes

GRAD = dict(max_gradient_space=[0.5, 0.01, 0.], max_gradient_time=[1.0, 0.1, 0.], ship_delta_t=[2.0, 0., 5.], buoy_delta_t=[1.0, 0., 0.3])


def spike(intype):
    bad = lambda V, P, i, j: value_bad(V, P, i, j, intype)
    W = Walk(VO + "spike_check", 0, "gradient_violations", "count_gradient_violations", "violations_for_this_report", "count_violations_this_report",
             bad, (intype, "spike"))

    class Values(Fast):
        def rand(self, rng, pool):
            self.value = intype
            return Fast.rand(self, rng, pool)
    add("spike_check of %s: what is left has no change over the limits, and nothing else is flagged" % intype, dict(v=Values(1, 12), P=Pars(**GRAD)),
        run("spike_check", "spike", intype=intype), [VO + "spike_check"], post=post(bad, False, W), loops=W.loops, diff=False, samples=500,
        guard=clear(bad, False))


spike("SST")
spike("AT")

