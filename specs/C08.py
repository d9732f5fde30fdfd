"""C08: gross-error probabilities."""
from .common import *

CONTRACTS = Specs()
add = CONTRACTS.add

ASSUMPTIONS = ["p_gross and p_data_given_good: the good distribution does not underflow in double precision (limits or "
               "value many spreads away from the mean); known finding, see DESIGN.md"]

S2 = math.sqrt(2)
# multiples of 1/64 keep the sums exact
V = Real(-60, 60, grid=1 / 64.)
POS = Real(0, 10, lo_open=True, grid=1 / 64.)


def cdf(x, mu, sigma):
    return fn("erf", div(x - mu, sigma * S2))


def good(a):
    """P(x - q/2 < X < x + q/2) over P(r_lo - q/2 < X < r_hi + q/2)"""
    return div(cdf(a.x + a.q / 2, a.mu, a.sigma) - cdf(a.x - a.q / 2, a.mu, a.sigma),
               cdf(a.hi + a.q / 2, a.mu, a.sigma) - cdf(a.lo - a.q / 2, a.mu, a.sigma))


def gross(a):
    return div(a.q, a.q + a.hi - a.lo)


def representable(a):
    if isinstance(a.x, core.Sym):
        return True
    if not (a.q > 0 and a.sigma > 0 and a.lo <= a.x <= a.hi and a.lo < a.hi):
        return True
    n = cdf(a.hi + a.q / 2, a.mu, a.sigma) - cdf(a.lo - a.q / 2, a.mu, a.sigma)
    g = cdf(a.x + a.q / 2, a.mu, a.sigma) - cdf(a.x - a.q / 2, a.mu, a.sigma)
    return n > 1e-7 and g > 1e-7 * n


VALID = lambda a: And(a.q > 0, a.sigma > 0, a.lo < a.hi, a.lo <= a.x, a.x <= a.hi)

good_c = add("p_data_given_good", dict(x=V, q=POS, hi=V, lo=V, mu=V, sigma=POS),
    lambda W, a: W.qc.p_data_given_good(a.x, a.q, a.hi, a.lo, a.mu, a.sigma), ["qc.p_data_given_good"],
    pre=VALID, guard=representable, tol=1e-6,
    post=lambda a, r: [("the quantised truncated normal", eq(r, good(a), 1e-6)),
                       ("a probability", And(r > 0, r <= 1 + (0 if isinstance(r, core.Sym) else 1e-9)))])
good_c.result = lambda E, a: E.real("p_good")

ANYV = Real(-60, 60)
add("p_data_given_good refuses invalid arguments", dict(x=ANYV, q=Real(-5, 5), hi=ANYV, lo=ANYV, mu=ANYV,
                                                       sigma=Real(-5, 5)),
    lambda W, a: W.qc.p_data_given_good(a.x, a.q, a.hi, a.lo, a.mu, a.sigma), ["qc.p_data_given_good"],
    pre=lambda a: Not(VALID(a)), spec=lambda a: Raised("AssertionError"))

gross_c = add("p_data_given_gross", dict(q=POS, hi=V, lo=V), lambda W, a: W.qc.p_data_given_gross(a.q, a.hi, a.lo),
    ["qc.p_data_given_gross"], pre=lambda a: a.lo < a.hi, spec=gross)
add("p_data_given_gross refuses invalid arguments", dict(q=Real(-5, 5), hi=ANYV, lo=ANYV),
    lambda W, a: W.qc.p_data_given_gross(a.q, a.hi, a.lo), ["qc.p_data_given_gross"],
    pre=lambda a: Or(a.q <= 0, a.lo >= a.hi), spec=lambda a: Raised("AssertionError"))


def bayes(a, r):
    g = gross(a)
    h = good(a)
    e = 0 if isinstance(r, core.Sym) else 1e-9
    c = [("a probability", And(r >= 0, r <= 1)),
         ("Bayes' rule", eq(r * (a.p0 * g + (1 - a.p0) * h), a.p0 * g, 1e-6)),
         ("0 for prior 0", Implies(a.p0 == 0, r == 0)),
         ("1 for prior 1", Implies(a.p0 == 1, And(r <= 1, r >= 1 - e)))]
    return c


GP = dict(p0=Real(0, 1), q=POS, hi=V, lo=V, x=V, mu=V, sigma=POS)
add("p_gross", GP, lambda W, a: W.qc.p_gross(a.p0, a.q, a.hi, a.lo, a.x, a.mu, a.sigma), ["qc.p_gross"],
    use={"qc.p_data_given_good": good_c, "qc.p_data_given_gross": gross_c}, pre=VALID, post=bayes, guard=representable)

add("p_gross refuses invalid arguments",
    dict(p0=Real(-1, 2), q=Real(-5, 5), hi=ANYV, lo=ANYV, x=ANYV, mu=ANYV, sigma=Real(-5, 5)),
    lambda W, a: W.qc.p_gross(a.p0, a.q, a.hi, a.lo, a.x, a.mu, a.sigma), ["qc.p_gross"],
    pre=lambda a: Not(And(VALID(a), a.p0 >= 0, a.p0 <= 1)), spec=lambda a: Raised("AssertionError"))


def ordered(W, a):
    """two observations, the second further from the mean"""
    f = lambda x: W.qc.p_gross(a.p0, a.q, a.hi, a.lo, x, a.mu, a.sigma)
    return [f(a.x), f(a.y)]


def order_pre(a):
    return And(VALID(a), a.y <= a.hi, a.y >= a.lo, a.p0 > 0, a.p0 < 1)


add("lemma: a larger likelihood gives a smaller gross-error probability",
    dict(p0=Real(0, 1), q=POS, hi=V, lo=V, x=V, y=V, mu=V, sigma=POS), ordered, ["qc.p_gross"],
    use={"qc.p_data_given_good": good_c, "qc.p_data_given_gross": gross_c}, pre=order_pre, diff=False,
    guard=lambda a: representable(a) and representable(NS(**dict(a.__dict__, x=a.y))),
    post=lambda a, r: Implies(good(a) > good(NS(**dict(a.__dict__, x=a.y))) * (1 + 1e-9), r[0] <= r[1] + 1e-9))
