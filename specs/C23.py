"""C23: winsorised and trimmed means, angular differences."""
from .common import *
from pyvc.seqs import Seq, order, total, std, cut, values_len as ln

CONTRACTS = Specs()
add = CONTRACTS.add

V = Real(-1000, 1000)


def win_spec(a):
    s = order(a.x)
    n = ln(s)
    if n < 4:
        return div(total(s), n)
    k = n // 4
    # the k smallest take the value of the next, the k largest of the one before
    return div(s[k] * (k + 1) + s[n - 1 - k] * (k + 1) + total(s, k + 1, n - 1 - k), n)


def win_post(a, r):
    s = order(a.x)
    n = ln(s)
    return [("as defined", eq(r, win_spec(a))),
            ("between the smallest and largest value", And(r >= s[0] - slack(r), r <= s[n - 1] + slack(r)))]


def slack(r):
    return 0 if isinstance(r, core.Sym) else 1e-9 * max(1.0, abs(r))


win_loop = LoopSpec(
    inv=lambda v, s: [("total of the elements so far", v.total == s.old.total + total(v.inarr, v.lower, v.lower + s.i)),
                      ("same bounds", And(s.i >= 0, s.n == v.upper + 1 - v.lower))],
    havoc={"total": lambda E, v, s: E.real("total")}, keep=("j", "inarr", "lower", "upper"))

winsorised = add("winsorised_mean", dict(x=Seq(V, 1)), lambda W, a: W.qc.winsorised_mean(a.x), ["qc.winsorised_mean"],
    loops={"qc.winsorised_mean#0": win_loop}, post=win_post,
    assumes=("the sum of a slice of a sorted list lies between its length times its first and its last element "
             "(induction on the length); list.sort sorts",))

add("winsorised_mean, short lists", dict(x=Lst(V, range(1, 5))), lambda W, a: W.qc.winsorised_mean(a.x),
    ["qc.winsorised_mean"], post=win_post, bounded="lists of 1 to 4 numbers, the loop unrolled")


def trim_spec(a):
    if isinstance(a.trim, int) and a.trim == 0:
        return div(total(a.x), ln(a.x))
    s = order(a.x)
    n = ln(s)
    k = n // a.trim
    return div(total(s, k, n - k), n - 2 * k)


def trim_post(a, r):
    s = order(a.x)
    n = ln(s)
    if isinstance(a.trim, int) and a.trim == 0:
        return eq(r, trim_spec(a))
    return [("as defined", eq(r, trim_spec(a))),
            ("between the smallest and largest value", And(r >= s[0] - slack(r), r <= s[n - 1] + slack(r)))]


TRIM = OneOf(Const(0), Enum(3, 4, 10, 20), Int(3, 200))
add("trimmed_mean", dict(x=Seq(V, 1), trim=TRIM), lambda W, a: W.qc.trimmed_mean(a.x, a.trim), ["qc.trimmed_mean"],
    post=trim_post, note="trims a third at most (trim >= 3), 0 for none")
add("trim_mean", dict(x=Seq(V, 1), trim=TRIM), lambda W, a: W.trackqc.trim_mean(a.x, a.trim), ["trackqc.trim_mean"],
    post=trim_post)


def std_spec(a):
    if isinstance(a.trim, int) and a.trim == 0:
        return std(a.x)
    s = order(a.x)
    k = ln(s) // a.trim
    return std(cut(s, k, ln(s) - k))


add("trim_std", dict(x=Seq(V, 1), trim=TRIM), lambda W, a: W.trackqc.trim_std(a.x, a.trim), ["trackqc.trim_std"],
    post=lambda a, r: [("as defined", eq(r, std_spec(a), 1e-7)), ("not negative", r >= 0)])


def same_list(W, a):
    x = list(a.x) if not hasattr(a.x, "slen") else a.x.copy()
    W.trackqc.trim_mean(x, a.trim)
    W.trackqc.trim_std(x, a.trim)
    return x


def same_post(a, r):
    if isinstance(a.x, list):
        return eq(r, a.x)
    return [("as long", ln(r) == ln(a.x)), ("every element in its place", Implies(And(a.k >= 0, a.k < ln(a.x)), r.sget(a.k) == a.x.sget(a.k)))]


add("trim_mean and trim_std leave their argument alone", dict(x=Seq(V, 1), trim=TRIM, k=Int(0, None)), same_list,
    ["trackqc.trim_mean", "trackqc.trim_std"], post=same_post)

PI = math.pi
ANG = Real(-2 * PI, 2 * PI, extra=(0.0, PI, -PI, 2 * PI))
angle = dict(x=ANG, y=ANG)
turn = lambda a: And(a.x - a.y <= 2 * PI, a.y - a.x <= 2 * PI)
add("angle_diff", angle, lambda W, a: W.qc.angle_diff(a.x, a.y), ["qc.angle_diff"], pre=turn,
    spec=lambda a: Min(Abs(a.x - a.y), 2 * PI - Abs(a.x - a.y)))
add("lemma: angle_diff lies in half a turn and is symmetric", angle,
    lambda W, a: [W.qc.angle_diff(a.x, a.y), W.qc.angle_diff(a.y, a.x)], ["qc.angle_diff"], pre=turn,
    post=lambda a, r: And(r[0] >= 0, r[0] <= PI, eq(r[0], r[1])))
add("angle_diff of a missing angle", dict(x=Opt(ANG), y=Opt(ANG)), lambda W, a: W.qc.angle_diff(a.x, a.y),
    ["qc.angle_diff"], pre=lambda a: a.x is None or a.y is None, spec=lambda a: Raised("AssertionError"))
