"""C18: humidity conversions."""
import z3
from .report import *
from pyvc.contract import Contract

CONTRACTS = Specs()
add = CONTRACTS.add

TD = Real(-80, 45, extra=(0, 0.05, -0.05))
T = Real(-80, 60, extra=(0,))
P = Real(300, 1100, extra=(1013.,))
ALL = dict(td=Opt(TD), t=Opt(T), p=Opt(P))


def water(td, p):
    """Buck 1981, over water"""
    f = 1 + (7. * (10 ** (-4.))) + ((3.46 * (10 ** (-6.))) * p)
    return 6.1121 * f * fn("exp", div((18.729 - (td / 227.3)) * td, 257.87 + td))


def ice(td, p):
    f = 1 + (3. * (10 ** (-4.))) + ((4.18 * (10 ** (-6.))) * p)
    return 6.1115 * f * fn("exp", div((23.036 - (td / 333.7)) * td, 279.82 + td))


def bulb(e, td, t, p):
    """Jensen et al. 1990"""
    a = 0.000066 * p
    b = div(409.8 * e, (td + 237.3) ** 2)
    return div(a * t + b * td, a + b)


def buck(td, t, p):
    """over ice when the pseudo wet bulb is not above freezing"""
    e = water(td, p)
    return Ite(bulb(e, td, t, p) <= 0, ice(td, p), e)


def spechum(e, p):
    return 1000. * div(0.622 * e, p - (1 - 0.622) * e)


def missing(a):
    return None in a.__dict__.values()


def near(r, x):
    return eq(r, x, 1e-9)


def off_switch(a):
    """not at the switch from water to ice, where rounding decides; at zero degrees nothing is rounded"""
    if missing(a):
        return True
    return Or(And(a.td == 0, a.t == 0), abs(bulb(water(a.td, a.p), a.td, a.t, a.p)) > 1e-9)


def both(name, params, call, quals, f, guard=None, **kw):
    """the exact and the rounded variant of a conversion"""
    def post(a, r):
        if missing(a):
            return r[0] is None and r[1] is None
        if r[0] is None or r[1] is None:
            return False
        return [("unrounded: as documented", near(r[0], f(a))), ("rounded to one decimal", rounded(r[1], r[0], 10))]
    return add(name, params, lambda W, a: [call(W, a, False), call(W, a, True)], quals, post=post, guard=guard, **kw)


def small(a):
    """both exponents are below 3.3"""
    if isinstance(a.td, core.Sym):
        anchor("exp", 3.3)
        lemma(div((18.729 - (a.td / 227.3)) * a.td, 257.87 + a.td) < 3.3, "exponent over water is below 3.3")
        lemma(div((23.036 - (a.td / 333.7)) * a.td, 279.82 + a.td) < 3.3, "exponent over ice is below 3.3")
        lemma(water(a.td, a.p) < 200, "vapour pressure over water below 200 hPa")
        lemma(ice(a.td, a.p) < 200, "vapour pressure over ice below 200 hPa")
    return True


both("vap", ALL, lambda W, a, rd: W.CalcHums.vap(a.td, a.t, a.p, roundit=rd), ["CalcHums.vap"],
     lambda a: buck(a.td, a.t, a.p), off_switch)
both("sh", ALL, lambda W, a, rd: W.CalcHums.sh(a.td, a.t, a.p, roundit=rd), ["CalcHums.sh"],
     lambda a: spechum(buck(a.td, a.t, a.p), a.p), off_switch,
     pre=lambda a: missing(a) or small(a))


def rel(a):
    return div(buck(a.td, a.t, a.p), buck(a.t, a.t, a.p)) * 100.


def off2(a):
    return missing(a) or And(off_switch(a), Or(a.t == 0, abs(a.t) > 1e-9))


both("rh", ALL, lambda W, a, rd: W.CalcHums.rh(a.td, a.t, a.p, roundit=rd), ["CalcHums.rh"], rel, off2)
both("wb", ALL, lambda W, a, rd: W.CalcHums.wb(a.td, a.t, a.p, roundit=rd), ["CalcHums.wb"],
     lambda a: bulb(buck(a.td, a.t, a.p), a.td, a.t, a.p), off_switch)
both("dpd", dict(td=Opt(TD), t=Opt(T)), lambda W, a, rd: W.CalcHums.dpd(a.td, a.t, roundit=rd), ["CalcHums.dpd"],
     lambda a: a.t - a.td)

SH = Real(0, 60)
E_ = Real(0.001, 150)
both("vap_from_sh", dict(q=SH, p=P), lambda W, a, rd: W.CalcHums.vap_from_sh(a.q, a.p, roundit=rd),
     ["CalcHums.vap_from_sh"], lambda a: div((a.q / 1000.) * a.p, 0.622 + 0.378 * (a.q / 1000.)))
both("sh_from_vap", dict(e=E_, p=P), lambda W, a, rd: W.CalcHums.sh_from_vap(a.e, a.p, roundit=rd),
     ["CalcHums.sh_from_vap"], lambda a: spechum(a.e, a.p))

add("lemma: vapour pressure and specific humidity are inverse", dict(e=E_, p=P),
    lambda W, a: W.CalcHums.vap_from_sh(W.CalcHums.sh_from_vap(a.e, a.p, roundit=False), a.p, roundit=False),
    ["CalcHums.vap_from_sh", "CalcHums.sh_from_vap"], post=lambda a, r: eq(r, a.e, 1e-7))


def root(e, p, k):
    """the dew point of vapour pressure e: the smaller root of the inverted formula"""
    c1, c2, c3, m, f = k
    L = fn("log", div(e, m * f))
    B = c1 * L - c2 * c1
    C = c3 * c1 * L
    return div(-B - fn("sqrt", B ** 2 - 4 * C), 2)


def kw(p):
    return (227.3, 18.729, 257.87, 6.1121, 1 + (7. * 10. ** (-4.)) + ((3.46 * 10. ** (-6.)) * p))


def ki(p):
    return (333.7, 23.036, 279.82, 6.1115, 1 + (3. * 10. ** (-4.)) + ((4.18 * 10. ** (-6.)) * p))


def dewpoint(a):
    td = root(a.e, a.p, kw(a.p))
    return Ite(bulb(a.e, td, a.t, a.p) <= 0, root(a.e, a.p, ki(a.p)), td)


def td_pre(a):
    anchor("log", 0.0001, 30)
    if isinstance(a.e, core.Sym):
        for k, n in ((kw(a.p), "water"), (ki(a.p), "ice")):
            c1, c2, c3, m, f = k
            L = fn("log", div(a.e, m * f))
            lemma(And(L > -9.3, L < 3.5), "range of the logarithm over %s" % n)
            D = (c1 * L - c2 * c1) ** 2 - 4 * (c3 * c1 * L)
            lemma(D > 1, "the discriminant over %s is positive" % n)
            td = root(a.e, a.p, k)
            lemma(td > -120, "the dew point over %s is above -120" % n)
    return True


both("td_from_vap", dict(e=E_, p=P, t=T), lambda W, a, rd: W.CalcHums.td_from_vap(a.e, a.p, a.t, roundit=rd),
     ["CalcHums.td_from_vap"], dewpoint, guard=lambda a: abs(bulb(a.e, root(a.e, a.p, kw(a.p)), a.t, a.p)) > 1e-7,
     pre=td_pre)


def inverse(W, a):
    return W.CalcHums.td_from_vap(W.CalcHums.vap(a.td, a.t, a.p, roundit=False), a.p, a.t, roundit=False)


def undone(a, r):
    if isinstance(a.td, core.Sym):
        X = div((18.729 - (a.td / 227.3)) * a.td, 257.87 + a.td)
        c1, c2, c3, m, f = kw(a.p)
        L = fn("log", div(water(a.td, a.p), m * f))
        lemma(L == X, "the logarithm gives the exponent back")
        lemma(L * (257.87 + a.td) == (18.729 - (a.td / 227.3)) * a.td, "its definition")
        B = c1 * L - c2 * c1
        C = c3 * c1 * L
        q = a.td * a.td + B * a.td + C
        # not exactly: the code's products of constants are rounded
        lemma(And(q <= 1e-6, q >= -1e-6), "the dew point solves the quadratic equation")
        lemma(2 * a.td + B <= -100, "it is the smaller root")
        S = fn("sqrt", B ** 2 - 4 * C)
        d = S + 2 * a.td + B
        lemma(And(d <= 1e-6, d >= -1e-6), "the root of the discriminant")
    return And(r - a.td <= 1e-6, a.td - r <= 1e-6)


add("lemma: td_from_vap undoes vap over water", dict(td=Real(0.001, 45), t=Real(0, 60), p=P), inverse,
    ["CalcHums.td_from_vap", "CalcHums.vap"], post=undone)


def two(W, a):
    return [W.CalcHums.vap(a.td, a.t, a.p, roundit=False), W.CalcHums.vap(a.td2, a.t, a.p, roundit=False)]


def phases(a):
    """both dew points over water, or both over ice"""
    b1 = bulb(water(a.td, a.p), a.td, a.t, a.p)
    b2 = bulb(water(a.td2, a.p), a.td2, a.t, a.p)
    return And(a.td + 1e-6 < a.td2, Or(And(b1 > 1e-9, b2 > 1e-9), And(b1 < -1e-9, b2 < -1e-9)))


add("lemma: vapour pressure rises with dew point", dict(td=TD, td2=TD, t=T, p=P), two, ["CalcHums.vap"], pre=phases,
    post=lambda a, r: r[0] < r[1],
    note="over one phase; Buck's two formulas themselves differ by about 0.001 hPa where ice gives way to water")

add("lemma: saturation", dict(t=T, p=P),
    lambda W, a: [W.CalcHums.rh(a.t, a.t, a.p), W.CalcHums.rh(a.t, a.t, a.p, roundit=False), W.CalcHums.dpd(a.t, a.t),
                  W.CalcHums.wb(a.t, a.t, a.p, roundit=False)],
    ["CalcHums.rh", "CalcHums.dpd", "CalcHums.wb"], guard=lambda a: Or(a.t == 0, abs(a.t) > 1e-9),
    post=lambda a, r: And(eq(r[0], 100.), eq(r[1], 100., 1e-12), eq(r[2], 0.), eq(r[3], a.t, 1e-7)))


add("lemma: specific humidity is physical", dict(td=TD, t=T, p=P),
    lambda W, a: [W.CalcHums.sh(a.td, a.t, a.p, roundit=False), W.CalcHums.vap(a.td, a.t, a.p, roundit=False)],
    ["CalcHums.sh", "CalcHums.vap"], pre=small,
    post=lambda a, r: [("between nothing and a kilogram per kilogram", And(r[0] > 0, r[0] < 1000)),
                       ("vapour pressure is positive", r[1] > 0)])


# ------------------------------------------------- the humidity of a report

def stub(spec, *names):
    return Contract("stub", dict.fromkeys(names), None, [], spec=spec)


HUM = {"vap": "VAP", "sh": "SHU", "rh": "CRH", "wb": "CWB"}
ALL5 = ["SHU", "VAP", "CRH", "CWB", "DPD"]


def named(name, *params):
    """a conversion as the contracts above have it: nothing for missing inputs, else its own function of them"""
    f = z3.Function("CalcHums." + name, *([z3.RealSort()] * (len(params) + 1)))

    def value(a):
        xs = [getattr(a, p) for p in params]
        if any(x is None for x in xs):
            return None
        return core.SNum(f(*[core.tofloat(x).e if core.is_sym(x) else z3.RealVal(repr(float(x))) for x in xs]), "r")
    return stub(value, *params)


HUMUSE = dict({"CalcHums." + n: named(n, "td", "t", "p") for n in HUM}, **{"CalcHums.dpd": named("dpd", "td", "t")})


def hum_run(W, a):
    """(data before, data after, the conversions of the report's own values)"""
    r = rep(W, a.st)
    r.add_climate_variable("SLP", a.slp)
    before = [r.getvar(n) for n in NAMES]
    asked = r.getvar("DPT"), r.getvar("AT")
    r.calculate_humidity_variables([v for v, k in zip(ALL5, a.ask) if k])
    after = {n: r.getvar(n) for n in NAMES}
    H = W.CalcHums
    want = None
    if a.slp is not None:
        want = {v: getattr(H, n)(asked[0], asked[1], a.slp) for n, v in HUM.items()}
        want["DPD"] = H.dpd(*asked)
    return [before, after, want]


def hum_post(a, r):
    before, after, want = r
    out = []
    for n, x in zip(NAMES, before):
        if n not in ALL5:
            out.append(("%s is left as it was" % n, same(x, after[n])))
    for v, k in zip(ALL5, a.ask):
        if want is None or want["CRH"] is None:
            if k:
                out.append(("%s is missing where its inputs are" % v, after[v] is None))
        else:
            silly = Or(want["CRH"] < 0, want["CRH"] > 150)
            if k:
                out.append(("%s is that of the report's own dew point and temperature, or missing where the humidity is impossible" % v,
                            And(Not(silly), same(after[v], want[v])) if after[v] is not None else silly))
    return out


def same(x, y):
    return x is y if x is None or y is None else x == y


add("calculate_humidity_variables: from the report's own values",
    dict(st=AnyReport(only=("AT", "DPT", "SST", "CRH", "VAP"), miss=0.2), slp=Opt(Real(300, 1100)),
         ask=OneOf(Const([1, 1, 1, 1, 1]), Const([0, 0, 1, 0, 0]), Const([1, 0, 0, 0, 1]))),
    hum_run, ["Extended_IMMA.MarineReport.calculate_humidity_variables"], post=hum_post, use=HUMUSE, diff=False, samples=600)


def odd_run(W, a):
    r = rep(W, a.st)
    r.add_climate_variable("SLP", 1000.)
    r.calculate_humidity_variables(a.ask)


add("calculate_humidity_variables: other variables are refused", dict(st=AnyReport(only=("AT", "DPT")), ask=OneOf(Const(["SST"]), Const(["SHU", "RH"]))),
    odd_run, ["Extended_IMMA.MarineReport.calculate_humidity_variables"], spec=lambda a: Raised("AssertionError"), use=HUMUSE, diff=False, samples=50)
