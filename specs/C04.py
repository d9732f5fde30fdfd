"""C04: calendar arithmetic."""
from .common import *

CONTRACTS = Specs()
add = CONTRACTS.add

year = Int(extra=(1600, 1700, 1800, 1896, 1900, 1904, 2000, 2003, 2004, 2100))
month = Int(-3, 16, extra=(0, 1, 2, 3, 12, 13))
day = Int(-3, 35, extra=(0, 1, 28, 29, 30, 31, 32))

month_lengths = add("get_month_lengths", dict(y=year), lambda W, a: W.qc.get_month_lengths(a.y), ["qc.get_month_lengths"],
    spec=lambda a: [31, Ite(isleap(a.y), 29, 28)] + LEN[2:])


def day_in_year_spec(a):
    if a.m < 1 or a.m > 12 or a.d < 1 or a.d > mlen(2004, a.m):
        return Raised("AssertionError")
    return Ite(And(a.m == 2, a.d == 29), 60, cum365(a.m) + a.d)


add("day_in_year", dict(m=month, d=day), lambda W, a: W.qc.day_in_year(a.m, a.d),
    ["qc.day_in_year", "qc.get_month_lengths"], spec=day_in_year_spec)


def dayinyear_spec(a):
    if a.m < 1 or a.m > 12 or a.d < 1 or a.d > mlen(a.y, a.m):
        return Raised("AssertionError")
    return ordinal(a.y, a.m, a.d) - ordinal(a.y, 1, 1) + 1


add("dayinyear", dict(y=year, m=month, d=day), lambda W, a: W.qc.dayinyear(a.y, a.m, a.d),
    ["qc.dayinyear", "qc.get_month_lengths"], spec=dayinyear_spec)

add("which_pentad", dict(m=month, d=day), lambda W, a: W.qc.which_pentad(a.m, a.d),
    ["qc.which_pentad", "qc.day_in_year"],
    spec=lambda a: Raised("AssertionError") if a.m < 1 or a.m > 12 or a.d < 1 or a.d > mlen(2004, a.m) else
    Ite(And(a.m == 2, a.d == 29), 12, (cum365(a.m) + a.d - 1) // 5 + 1))

add("pentad_to_month_day", dict(p=Int(-5, 80, extra=(0, 1, 73, 74))), lambda W, a: list(W.qc.pentad_to_month_day(a.p)),
    ["qc.pentad_to_month_day"],
    post=lambda a, r: [("first day of the pentad", And(r[0] >= 1, r[0] <= 12, r[1] >= 1, r[1] <= mlen(2003, r[0]),
                                                       cum365(r[0]) + r[1] == 5 * (a.p - 1) + 1))],
    pre=lambda a: And(a.p >= 1, a.p <= 73))

add("pentad_to_month_day outside 1-73", dict(p=OneOf(Int(hi=0), Int(lo=74))),
    lambda W, a: list(W.qc.pentad_to_month_day(a.p)), ["qc.pentad_to_month_day"],
    spec=lambda a: Raised("AssertionError"))


def pentad_back(W, a):
    m, d = W.qc.pentad_to_month_day(a.p)
    return W.qc.which_pentad(m, d)


add("lemma: pentads are inverse", dict(p=Int(1, 73)), pentad_back, ["qc.which_pentad", "qc.pentad_to_month_day"],
    spec=lambda a: a.p)


def yesterday_spec(a):
    if a.y < 1 or a.y > 9999 or a.m < 1 or a.m > 12 or a.d < 1 or a.d > mlen(a.y, a.m):
        return [None, None, None]
    if a.d > 1:
        return [a.y, a.m, a.d - 1]
    if a.m > 1:
        return [a.y, a.m - 1, mlen(a.y, a.m - 1)]
    return [a.y - 1, 12, 31] if a.y > 1 else [None, None, None]


add("yesterday", dict(y=year, m=month, d=day), lambda W, a: list(W.qc.yesterday(a.y, a.m, a.d)), ["qc.yesterday"],
    spec=yesterday_spec)

add("lemma: yesterday is one day earlier", dict(y=Int(1, 9999), m=month, d=day),
    lambda W, a: list(W.qc.yesterday(a.y, a.m, a.d)), ["qc.yesterday"],
    pre=lambda a: And(validdate(a.y, a.m, a.d), Or(a.y > 1, a.m > 1, a.d > 1)),
    post=lambda a, r: ordinal(*r) == ordinal(a.y, a.m, a.d) - 1)

add("season", dict(m=Int(extra=(0, 1, 12, 13))), lambda W, a: W.qc.season(a.m), ["qc.season"],
    spec=lambda a: None if a.m < 1 or a.m > 12 else
    pick(a.m - 1, ["DJF", "DJF", "MAM", "MAM", "MAM", "JJA", "JJA", "JJA", "SON", "SON", "SON", "DJF"]))

add("last_month_was", dict(y=year, m=Int(1, 12)), lambda W, a: list(W.qc.last_month_was(a.y, a.m)),
    ["qc.last_month_was"],
    post=lambda a, r: And(r[1] >= 1, r[1] <= 12, 12 * r[0] + r[1] == 12 * a.y + a.m - 1))

add("next_month_is", dict(y=year, m=Int(1, 12)), lambda W, a: list(W.qc.next_month_is(a.y, a.m)),
    ["qc.next_month_is"],
    post=lambda a, r: And(r[1] >= 1, r[1] <= 12, 12 * r[0] + r[1] == 12 * a.y + a.m + 1))

add("lemma: next and last month are inverse", dict(y=year, m=Int(1, 12)),
    lambda W, a: [list(W.qc.last_month_was(*W.qc.next_month_is(a.y, a.m))),
                  list(W.qc.next_month_is(*W.qc.last_month_was(a.y, a.m)))],
    ["qc.last_month_was", "qc.next_month_is"], spec=lambda a: [[a.y, a.m], [a.y, a.m]])

add("month_match", dict(y1=year, m1=Int(1, 12), y2=year, m2=Int(1, 12)),
    lambda W, a: W.qc.month_match(a.y1, a.m1, a.y2, a.m2), ["qc.month_match"],
    spec=lambda a: b(And(a.y1 == a.y2, a.m1 == a.m2)))

jul_day = add("jul_day", dict(y=Int(-4700, 10000, extra=(1900, 2000)), m=Cases(1, 12), d=Int(1, 31)),
    lambda W, a: W.qc.jul_day(a.y, a.m, a.d), ["qc.jul_day"],
    pre=lambda a: And(a.m >= 1, a.m <= 12, a.d >= 1, a.d <= 31),
    spec=lambda a: ordinal(a.y, a.m, a.d) + 1721425)

add("jul_day of impossible dates", dict(y=year, m=month, d=day),
    lambda W, a: W.qc.jul_day(a.y, a.m, a.d), ["qc.jul_day"],
    pre=lambda a: Or(a.m < 1, a.m > 12, a.d < 1, a.d > 31), spec=lambda a: Raised("AssertionError"))

hour = Opt(Real(-2, 26, extra=(0, 23.99, 24)), 0.1)


def td_spec(a):
    if a.h1 is None or a.h2 is None:
        return None
    if a.h1 < 0 or a.h1 >= 24 or a.h2 < 0 or a.h2 >= 24:
        return Raised("AssertionError")
    return 24 * (ordinal(a.y2, a.m2, a.d2) - ordinal(a.y1, a.m1, a.d1)) + a.h2 - a.h1


YR = Int(1600, 2400, extra=(1899, 1900, 2000))
add("time_difference", dict(y1=YR, m1=Int(1, 12), d1=Int(1, 31), h1=hour, y2=YR, m2=Int(1, 12), d2=Int(1, 31), h2=hour),
    lambda W, a: W.qc.time_difference(a.y1, a.m1, a.d1, a.h1, a.y2, a.m2, a.d2, a.h2),
    ["qc.time_difference"], use={"qc.jul_day": jul_day}, spec=td_spec, tol=1e-6)


def antisym(W, a):
    x = W.qc.time_difference(a.y1, a.m1, a.d1, a.h1, a.y2, a.m2, a.d2, a.h2)
    y = W.qc.time_difference(a.y2, a.m2, a.d2, a.h2, a.y1, a.m1, a.d1, a.h1)
    return x + y


add("lemma: time_difference is antisymmetric",
    dict(y1=YR, m1=Int(1, 12), d1=Int(1, 31), h1=Real(0, 23.99), y2=YR, m2=Int(1, 12), d2=Int(1, 31), h2=Real(0, 23.99)),
    antisym, ["qc.time_difference"], spec=lambda a: 0.0, tol=1e-6)


# year_month_gen: the while loop is cut at its invariant; an arbitrary iteration shows one step
def idx(y, m):
    return 12 * y + m - 1






ymg_loop = LoopSpec(
    inv=lambda v, s: [("the month is a month", And(v.month >= 1, v.month <= 12)),
                      ("within the requested months", And(idx(v.year, v.month) >= idx(v.year1, v.month1),
                                                          idx(v.year, v.month) <= idx(v.year2, v.month2)))],
    measure=lambda v: idx(v.year2, v.month2) - idx(v.year, v.month))


def ymg_call(W, a):
    g = W.qc.year_month_gen(a.y1, a.m1, a.y2, a.m2)
    if not W.symbolic:
        return [list(x) for x in g]
    E = core.engine()
    out = None
    for y, m in g:
        # any item handed out lies in the range; the one after it is the month after it
        E.prove(And(m >= 1, m <= 12, idx(y, m) >= idx(a.y1, a.m1), idx(y, m) <= idx(a.y2, a.m2)),
                "year_month_gen: every item is a requested month")
        if out is not None:
            E.prove(idx(y, m) == idx(*out) + 1, "year_month_gen: consecutive items are consecutive months")
        out = (y, m)
    E.prove(And(out[0] == a.y2, out[1] == a.m2), "year_month_gen: the last item is the last month")
    return [list(out)]


add("year_month_gen", dict(y1=Int(1800, 2100), m1=Int(1, 12), y2=Int(1800, 2100), m2=Int(1, 12)), ymg_call,
    ["qc.year_month_gen"], loops={"qc.year_month_gen#0": ymg_loop}, diff=False,
    pre=lambda a: idx(a.y1, a.m1) <= idx(a.y2, a.m2),
    post=lambda a, r: [("all the months, in order", isinstance(r[0][0], core.Sym) or isinstance(a.y1, core.Sym) or
                        [idx(*x) for x in r] == list(range(idx(a.y1, a.m1), idx(a.y2, a.m2) + 1)))])

add("year_month_gen with misordered or impossible months", dict(y1=Int(1800, 2100), m1=Int(-5, 20), y2=Int(1800, 2100)),
    lambda W, a: next(iter(W.qc.year_month_gen(a.y1, a.m1, a.y2, 1))), ["qc.year_month_gen"],
    pre=lambda a: Or(a.y2 < a.y1, a.m1 < 1, a.m1 > 12), spec=lambda a: Raised("AssertionError"))
