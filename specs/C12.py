"""C12: runs of saturated values; values that are repeated or rounded too often."""
import z3
from .voyage import *
from pyvc.facade import NumStr

CONTRACTS = Specs()
add = CONTRACTS.add
VO = "Extended_IMMA.Voyage."


def keyed(sv, key, done, want):
    return Implies(done, sv.flag(key) == want)


# ------------------------------------------------------------- saturated runs

class Consecutive(object):
    """a list of consecutive whole numbers"""
    __ghost__ = True

    def __init__(self, start, n):
        self.start, self.n = start, n

    def append(self, x):
        if core.engine().branch(core.boolexpr(self.n == 0)):
            self.start, self.n = x, 1
        elif core.engine().branch(core.boolexpr(x == self.start + self.n)):
            self.n = self.n + 1
        else:
            raise core.Unsupported("the list is not of consecutive numbers")

    def slen(self):
        return self.n

    def __len__(self):
        return int(self.n)

    def sget(self, i):
        return self.start + i

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise core.Unsupported("slice")
        E = core.engine()
        n = self.n
        if E.branch(core.boolexpr(Or(i >= n, i < -n))):
            raise IndexError("list index out of range")
        return self.start + Ite(i < 0, n + i, i)


def held(xs):
    """(first, number) of a list of consecutive numbers"""
    if isinstance(xs, Consecutive):
        return xs.start, xs.n
    for j, x in enumerate(xs):
        if j and not bool(x == xs[0] + j):
            raise core.Unsupported("not consecutive")
    return (xs[0] if xs else 0), len(xs)


class Run(object):
    """the longest run p .. q of saturated reports around report k (nothing if k is not saturated)"""

    def __init__(self, sv):
        E = core.engine()
        self.sv, self.k = sv, sv.k
        self.p, self.q = E.int("p"), E.int("q")
        self.sat = sv.saturated(sv.k)
        E.assume(core.boolexpr(And(self.p >= 0, self.p <= self.k, self.k <= self.q, self.q < sv.n)))
        self.fact(self.k)

    def fact(self, i):
        s = self.sv.saturated(i)
        core.engine().assume(core.boolexpr(Implies(And(self.sat, self.p <= i, i <= self.q), s)))
        core.engine().assume(core.boolexpr(Implies(And(self.sat, Or(i == self.p - 1, i == self.q + 1)), Not(s))))


def run_of(sv):
    m = core.engine().memo
    if "run" not in m:
        m["run"] = Run(sv)
    return m["run"]


SAT = ("DPT", "repsat")


def long_run(V, p, q, P):
    return And(q - p + 1 > P.shortest_run, V.sub(q, p)[3] >= P.min_time_threshold)


def sat_flag(sv):
    R = run_of(sv)
    return Ite(And(R.sat, long_run(sv, R.p, R.q, core.engine().memo["P"])), 1, 0)


def sat_inv(v, s, sv):
    R = run_of(sv)
    k, i = sv.k, s.i
    first, n = held(v.satcount)
    return [("the reports of the run so far", And(n >= 0, n <= i, Or(n == 0, first + n == i))),
            ("all of them since the run began", Implies(And(R.sat, i >= R.p, i <= R.q + 1), n == i - R.p)),
            ("none from before a gap", Implies(And(i > k, Or(Not(R.sat), i > R.q + 1)), Or(n == 0, first > k))),
            ("flags so far", Implies(i > k, sv.flag(SAT) == Ite(And(R.sat, i <= R.q + 1), 0, sat_flag(sv))))]


def sat_inner(v, s, sv):
    """reports of the run get the flag"""
    first, n = held(v.satcount)
    k = sv.k
    before = core.engine().memo["before"]
    if not isinstance(s.i, core.Sym):
        before = core.engine().memo["before"] = sv.flag(SAT)
    return [("flagged so far", sv.flag(SAT) == Ite(And(k >= first, k < first + s.i), 1, before))]


def sat_run(W, a):
    v = voyage(W, a.v)
    if isinstance(a.v, SymVoyage):
        m = core.engine().memo
        m["P"], m["before"] = a.P, None
        run_of(a.v)
    v.find_saturated_runs(dict(a.P.__dict__))
    return v if not isinstance(a.v, SymVoyage) else a.v


def saturated(V, i):
    t, d = V.get("AT", i), V.get("DPT", i)
    return t is not None and d is not None and t == d


def sat_spec(V, P):
    out = []
    for i in range(V.n):
        if not saturated(V, i):
            out.append(0)
            continue
        p = q = i
        while p > 0 and saturated(V, p - 1):
            p -= 1
        while q < V.n - 1 and saturated(V, q + 1):
            q += 1
        out.append(1 if long_run(V, p, q, P) else 0)
    return out


def sat_post(a, v):
    V = view(a.v)
    if isinstance(V, SymVoyage):
        return [("flag as specified", v.flag(SAT) == sat_flag(V))]
    return [("flags as specified", [v.get_qc(i, *SAT) for i in range(V.n)] == sat_spec(V, a.P))]


class Humid(Track):
    def values(self, rng, r, val):
        if rng.random() > 0.03:
            r["AT"] = round(val, 1)
        if rng.random() > 0.03:
            r["DPT"] = round(val, 1) if rng.random() < 0.93 else round(val - 2, 1)


class RUN(Desc):
    def sym(self, E, name):
        n, t = E.int("a.shortest_run"), E.real("a.min_time_threshold")
        E.assume(core.boolexpr(And(n >= 0, t >= 0)))
        return NS(shortest_run=n, min_time_threshold=t)

    def rand(self, rng, pool):
        return NS(shortest_run=rng.choice([0, 1, 2, 3, 5, 20]), min_time_threshold=rng.choice([0., 5., 6., 12., 24., 48.0]))


FSR = VO + "find_saturated_runs"
inner = floop(sat_inner, keys=[SAT])
add("find_saturated_runs", dict(v=Humid(1, 16), P=RUN()), sat_run, [FSR], post=sat_post, samples=1500, diff=False,
    loops={FSR + "#0": floop(sat_inv, keys=[SAT], havoc=dict(satcount=lambda E, v, s: Consecutive(E.int("first"), E.int("n")))),
           FSR + "#1": inner, FSR + "#2": inner},
    note="two days and 20 reports are the caller's parameters")


# ------------------------------------------------ values that come too often

class Counted(object):
    """counts over the reports 0 .. i-1: with a value, with the value of report k, with a whole number"""

    def __init__(self, sv, name):
        E = core.engine()
        self.sv, self.name = sv, name
        self.f = [z3.Function("count." + x, z3.IntSort(), z3.IntSort()) for x in ("all", "same", "whole")]
        self.miss, self.x = sv.raw(name, sv.k)
        self.seen = []
        for f in self.f:
            E.assume(f(z3.IntVal(0)) == 0)

    def at(self, i):
        return [core.mk(f(z3.simplify(core.lift(i)[0])), "i") for f in self.f]

    def step(self, i):
        e = z3.simplify(core.lift(i)[0])
        if any(e.eq(x) for x in self.seen):
            return
        self.seen.append(e)
        m, x = self.sv.raw(self.name, i)
        for f, c in zip(self.f, (True, x == self.x, x.is_integer())):
            core.engine().assume(core.boolexpr(SInt(f(z3.simplify(e + 1))) == SInt(f(e)) + Ite(And(Not(m), c), 1, 0)))
            core.engine().assume(f(e) >= 0)


def counted(sv):
    m = core.engine().memo
    if "counted" not in m:
        m["counted"] = Counted(sv, m["intype"])
    return m["counted"]


class Tally(object):
    """A dictionary from the text of a number to a list of report numbers, followed at the value X of report k:
    whether X is there, how many reports it has, whether k is one of them, whether k is in a list of another value;
    and how many reports there are in the lists of whole numbers."""
    __ghost__ = True

    def __init__(self, X, there, n, hask, strayk, whole):
        self.X, self.there, self.n, self.hask, self.strayk, self.whole = X, there, n, hask, strayk, whole
        self.known = []

    def __deepcopy__(self, memo):
        return self

    def __scontains__(self, s):
        E = core.engine()
        if not isinstance(s, NumStr):
            raise core.Unsupported("a key that is not the text of a number")
        if bool(s == NumStr(self.X)):
            return self.there
        for t, c in self.known:
            if t is s or t.x is s.x or z3.eq(core.lift(t.x)[0], core.lift(s.x)[0]):
                return c
        c = E.bool("there")
        self.known.append((s, c))
        return c

    __contains__ = __scontains__

    def __getitem__(self, s):
        if "j" in s.__dict__:
            return s.tally.listed(s)
        if not bool(self.__scontains__(s)):
            raise KeyError(s)
        return TallyList(self, s)

    def get(self, s, default=None):
        return self[s] if bool(self.__scontains__(s)) else default

    def setdefault(self, s, new):
        if not bool(self.__scontains__(s)):
            self[s] = new
        return self[s]

    def __setitem__(self, s, new):
        if isinstance(new, TallyList) and new.d is self:
            return
        if bool(self.__scontains__(s)) or not isinstance(new, list):
            raise core.Unsupported("a list is replaced")
        if bool(s == NumStr(self.X)):
            self.there = True
            self.n = 0
        else:
            self.known = [(t, c) for t, c in self.known if t is not s and not z3.eq(core.lift(t.x)[0], core.lift(s.x)[0])]
            self.known.append((s, True))
        for i in new:
            self.put(s, i)

    def put(self, s, i):
        k = core.engine().memo["k"]
        if bool(s == NumStr(self.X)):
            self.n = self.n + 1
            self.hask = Or(self.hask, i == k)
        else:
            self.strayk = Or(self.strayk, i == k)
        self.whole = self.whole + Ite(s.x.is_integer(), 1, 0)

    # its keys in order
    def freeze(self):
        E = core.engine()
        if "m" not in self.__dict__:
            self.m, self.jx, self.tk = E.int("m"), E.int("jx"), E.int("tk")
            E.assume(core.boolexpr(And(self.m >= 0, Implies(self.there, And(self.jx >= 0, self.jx < self.m)))))
            E.assume(core.boolexpr(Implies(Not(self.there), self.jx < 0)))
            E.assume(core.boolexpr(And(self.n >= 0, Implies(self.hask, And(self.tk >= 0, self.tk < self.n)))))
            self.Y = z3.Function(E.name("Y"), z3.IntSort(), z3.RealSort())
            self.L = z3.Function(E.name("L"), z3.IntSort(), z3.IntSort())
            self.I = z3.Function(E.name("I"), z3.IntSort(), z3.IntSort(), z3.IntSort())
            self.W = z3.Function(E.name("W"), z3.IntSort(), z3.IntSort())
            E.assume(z3.And(self.W(z3.IntVal(0)) == 0, core.boolexpr(SInt(self.W(self.m.e)) == self.whole)))

    def slen(self):
        self.freeze()
        return self.m

    def sums(self, j):
        self.freeze()
        return SInt(self.W(z3.simplify(core.lift(j)[0])))

    def sget(self, j):
        self.freeze()
        E = core.engine()
        e = z3.simplify(core.lift(j)[0])
        y, n = core.SNum(self.Y(e), "r"), SInt(self.L(e))
        here = j == self.jx
        E.assume(core.boolexpr(And(n >= 1, Implies(here, And(y == self.X, n == self.n)), Implies(Not(here), y != self.X))))
        E.assume(core.boolexpr(self.sums(j + 1) == self.sums(j) + Ite(y.is_integer(), n, 0)))
        return NumStr(y, j=j, tally=self)

    def listed(self, s):
        j = s.j
        e = z3.simplify(core.lift(j)[0])
        n = SInt(self.L(e))

        def elem(t):
            i = SInt(self.I(e, z3.simplify(core.lift(t)[0])))
            k = core.engine().memo["k"]
            here = j == self.jx
            core.engine().assume(core.boolexpr(And(i >= 0, i < core.engine().memo["n"])))
            core.engine().assume(core.boolexpr(Implies(And(here, self.hask, t == self.tk), i == k)))
            core.engine().assume(core.boolexpr(Implies(And(here, Or(Not(self.hask), t < self.tk)), i != k)))
            core.engine().assume(core.boolexpr(Implies(And(Not(here), Not(self.strayk)), i != k)))
            return i
        return FnSeq(n, elem)

    def keys(self):
        return self

    def items(self):
        return FnSeq(self.slen(), lambda j: (lambda s: (s, self.listed(s)))(self.sget(j)))


class TallyList(object):
    def __init__(self, d, s):
        self.d, self.s = d, s

    def append(self, i):
        self.d.put(self.s, i)


def blank(E, v, s):
    return Tally(counted(v.self.sym).x, E.bool("there"), E.int("count"), E.bool("has k"), E.bool("stray k"), E.int("whole"))


def tally(d, sv):
    """a dictionary as a tally"""
    if isinstance(d, Tally):
        return d
    if d:
        raise core.Unsupported("the dictionary is not empty")
    return Tally(counted(sv).x, False, 0, False, False, 0)


def zero_inv(key):
    return lambda v, s, sv: keyed(sv, key, sv.k < s.i, 0)


def build_inv(v, s, sv):
    C = counted(sv)
    if isinstance(s.i, core.Sym):
        C.step(s.i - 1)
    C.step(s.i)
    d = tally(v.valcount, sv)
    al, same, whole = C.at(s.i)
    return [("all counted", v.allcount == al), ("reports with the value of report k", Implies(Not(C.miss), d.n == same)),
            ("listed if any", Or(C.miss, And(Or(d.there, same == 0), Or(Not(d.there), same > 0)))),
            ("report k is in the list of its value", Or(C.miss, And(Or(d.hask, sv.k >= s.i), Or(Not(d.hask), sv.k < s.i)))),
            ("and in no other", Or(Not(d.strayk), And(C.miss, False))),
            ("nowhere without a value", Or(Not(C.miss), And(Not(d.hask), Not(d.strayk)))),
            ("whole numbers", d.whole == whole),
            ("none without reports", And(same >= 0, al >= same, whole >= 0, al >= whole, Or(C.miss, sv.k >= s.i, same >= 1)))]


def too_many(n, of, threshold):
    return div(n, of) > threshold


def enough(n, of, threshold):
    return div(n, of) >= threshold


def rep_done(sv, key, v, j):
    """report k's list has been dealt with in the first j lists"""
    d = v.valcount
    return And(Not(counted(sv).miss), d.hask, d.jx < j)


def set_inv(key, verdict):
    def inv(v, s, sv):
        return [("flags so far", sv.flag(key) == Ite(And(rep_done(sv, key, v, s.i), verdict(sv)), 1, 0))]
    return inv


def in_list(key, verdict, cond):
    """within one list"""
    def inv(v, s, sv):
        d = v.valcount
        k = v.key
        before = Ite(And(rep_done(sv, key, v, k.j), verdict(sv)), 1, 0)
        here = And(d.hask, k.j == d.jx, s.i > d.tk)
        return [("flags so far", sv.flag(key) == Ite(here, 1 if cond else 0, before))]
    return inv


def rep_verdict(sv):
    C = counted(sv)
    al, same, whole = C.at(sv.n)
    return And(Not(C.miss), al > core.engine().memo["P"].min_count, too_many(same, al, core.engine().memo["P"].threshold))


def round_verdict(sv):
    C = counted(sv)
    al, same, whole = C.at(sv.n)
    P = core.engine().memo["P"]
    return And(Not(C.miss), C.x.is_integer(), al > P.min_count, enough(whole, al, P.threshold))


def whole_inv(v, s, sv):
    return v.wholenums == v.valcount.sums(s.i)


def often_run(fn):
    def run(W, a):
        v = voyage(W, a.v)
        if isinstance(a.v, SymVoyage):
            core.engine().memo.update(P=a.P, intype=a.intype, numstr=True, k=a.v.k, n=a.v.n)
        getattr(v, fn)(dict(a.P.__dict__), intype=a.intype)
        return v if not isinstance(a.v, SymVoyage) else a.v
    return run


def often_spec(fn, V, a):
    vals = [V.get(a.intype, i) for i in range(V.n)]
    there = [x for x in vals if x is not None]
    if len(there) <= a.P.min_count:
        return [0] * V.n
    if fn == "find_repeated_values":
        return [1 if x is not None and too_many(sum(1 for y in there if y == x), len(there), a.P.threshold) else 0 for x in vals]
    bad = enough(sum(1 for y in there if y == int(y)), len(there), a.P.threshold)
    return [1 if x is not None and x == int(x) and bad else 0 for x in vals]


def often_post(fn, flag, verdict):
    def post(a, v):
        V = view(a.v)
        key = (a.intype, flag)
        if isinstance(V, SymVoyage):
            return [("flag as specified", v.flag(key) == Ite(verdict(V), 1, 0))]
        return [("flags as specified", [v.get_qc(i, *key) for i in range(V.n)] == often_spec(fn, V, a))]
    return post


class Often(Track):
    """values that repeat or are whole numbers often"""

    def rand(self, rng, pool):
        rs = Track.rand(self, rng, pool)
        common, p, q = float(rng.choice([12, 5.5, 0, 20])), rng.choice([0, 0.3, 0.5, 0.8, 1]), rng.choice([0, 0.3, 0.6, 1])
        for r in rs:
            for x in ("SST", "AT", "AT2", "DPT", "SLP"):
                if rng.random() < 0.15:
                    r.pop(x, None)
                else:
                    base = 1000 if x == "SLP" else 0
                    y = common if rng.random() < p else round(rng.uniform(0, 30), 0 if rng.random() < q else 1)
                    r[x] = base + y
        return rs


class SHARE(Desc):
    def sym(self, E, name):
        n, t = E.int("a.min_count"), E.real("a.threshold")
        E.assume(core.boolexpr(And(n >= 0, t >= 0, t <= 1)))
        return NS(min_count=n, threshold=t)

    def rand(self, rng, pool):
        return NS(min_count=rng.choice([0, 1, 3, 5, 10, 20]), threshold=rng.choice([0., 0.2, 0.25, 1 / 3., 0.5, 0.7, 0.75, 1.0]))


def often(fn, flag, types, verdict, loops):
    for t in types:
        key = (t, flag)
        q = VO + fn
        ls = {q + "#0": floop(zero_inv(key), keys=[key]),
              q + "#1": LoopSpec(inv=lambda v, s: build_inv(v, s, v.self.sym), havoc=dict(valcount=blank))}
        ls.update({q + n: f(key) for n, f in loops.items()})
        add("%s of %s" % (fn, t), dict(v=Often(1, 14), P=SHARE(), intype=Const(t)), often_run(fn), [q],
            post=often_post(fn, flag, verdict), samples=800, diff=False, loops=ls)


often("find_repeated_values", "rep", ["SST", "AT", "AT2", "DPT", "SLP"], rep_verdict,
      {"#2": lambda key: floop(set_inv(key, rep_verdict), keys=[key]),
       "#3": lambda key: floop(in_list(key, rep_verdict, True), keys=[key]),
       "#4": lambda key: floop(in_list(key, rep_verdict, False), keys=[key])})
often("find_multiple_rounded_values", "round", ["SST", "AT", "AT2", "DPT"], round_verdict,
      {"#2": lambda key: LoopSpec(inv=lambda v, s: whole_inv(v, s, v.self.sym)),
       "#3": lambda key: floop(set_inv(key, round_verdict), keys=[key]),
       "#4": lambda key: floop(in_list(key, round_verdict, True), keys=[key])})
