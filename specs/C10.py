"""C10: the ship track check."""
import z3
from .voyage import *
from pyvc.seqs import Seq, SymSeq, values_len as ln

CONTRACTS = Specs()
add = CONTRACTS.add
TC = "track_check."
VO = "Extended_IMMA.Voyage."
KM = 0.539957


# ------------------------------------------------------------------- modal speed

def bin_of(speed):
    i = Floor(div(KM * speed, 3.0))
    return Min(Max(i, 0), 11)


def mode(counts):
    """centre (knots) of the first of the fullest bins, at least 8.5"""
    best = 0
    for j in range(1, 12):
        best = Ite(pick(best, counts) < counts[j], j, best)
    return pick(best, [max(j * 3.0 + 1.5, 8.5) / KM for j in range(12)])


class Counts(object):
    """ghost: how many of the speeds 1 .. i fall in each bin"""

    def __init__(self, seq):
        E = core.engine()
        self.seq = seq
        self.f = [z3.Function(E.name("count%d" % j), z3.IntSort(), z3.IntSort()) for j in range(12)]
        self.seen = []
        for f in self.f:
            E.assume(f(z3.IntVal(1)) == 0)

    def at(self, i):
        return [core.mk(f(z3.simplify(core.lift(i)[0])), "i") for f in self.f]

    def unfold(self, i):
        """from the speeds before i to those before i + 1"""
        E = core.engine()
        e = z3.simplify(core.lift(i)[0])
        if any(e.eq(x) for x in self.seen):
            return
        self.seen.append(e)
        x = core.lift(bin_of(self.seq.sget(i)))[0]
        for j, f in enumerate(self.f):
            E.assume(z3.And(f(z3.simplify(e + 1)) == f(e) + z3.If(x == j, z3.IntVal(1), z3.IntVal(0)), f(e) >= 0))


def counts_of(seq):
    m = core.engine().memo
    if "counts" not in m:
        m["counts"] = Counts(seq)
    return m["counts"]


def modesp_inv(v, s):
    c = counts_of(v.awork)
    i = 1 + s.i
    if isinstance(s.i, core.Sym):
        c.unfold(i - 1)
    c.unfold(i)
    return [("as many as speeds in the bin so far", And(*[x == y for x, y in zip(v.ifreq, c.at(i))]))]


def fresh_counts(E, v, s):
    v.ifreq[:] = [E.real("ifreq%d" % j) for j in range(12)]
    return v.ifreq


SPEED = Real(0, 200, extra=(0, 3 / KM, 8.5 / KM, 33 / KM))


def modesp_spec(a, W=None):
    n = ln(a.speeds)
    if not core.is_sym(n) and n <= 1:
        return None
    if isinstance(a.speeds, SymSeq):
        if bool(n <= 1):
            return None
        return mode(counts_of(a.speeds).at(n))
    return mode([sum(1 for x in a.speeds[1:] if bin_of(x) == j) for j in range(12)])


def modesp_post(a, r):
    want = modesp_spec(a)
    if r is None or want is None:
        return r is None and want is None
    return And(r - want <= 1e-9, want - r <= 1e-9)


add("modesp", dict(speeds=Seq(SPEED, 0, sample=range(0, 14))), lambda W, a: W.track_check.modesp(a.speeds), [TC + "modesp"],
    loops={TC + "modesp#1": LoopSpec(inv=modesp_inv, havoc=dict(ifreq=fresh_counts), changes=("ifreq",))},
    post=modesp_post, samples=2000, guard=lambda a: all(abs(KM * x / 3.0 - round(KM * x / 3.0)) > 1e-9 or x == 0 for x in a.speeds))


def limits(mode_):
    """fastest credible speed, and the limits of the old check"""
    if mode_ is None:
        return [div(15.0, KM), div(20.0, KM), 0.0]
    slow = mode_ <= 8.51 / KM
    return [Ite(slow, 15.0 / KM, mode_ * 1.25), Ite(slow, 20.0 / KM, 30.0 / KM), Ite(slow, 0.0, mode_ * 0.75)]


set_limits = add("set_speed_limits", dict(amode=Opt(Real(0, 200, extra=(8.5 / KM, 8.51 / KM, 10.5 / KM)))),
                 lambda W, a: list(W.track_check.set_speed_limits(a.amode)), [TC + "set_speed_limits"],
                 spec=lambda a: limits(a.amode))


# -------------------------------------------------------------------- components

def off(d, course, most):
    """courses differ by more than the limit, either way round"""
    x = abs(d - course)
    return And(x > most, x < 360 - most)


def direction_spec(a):
    if a.dsi is None or a.dsi_previous is None or a.ship_directions is None:
        return 0.0
    return Ite(Or(off(a.dsi, a.ship_directions, a.most), off(a.dsi_previous, a.ship_directions, a.most)), 10.0, 0.0)


EIGHT = Enum(None, 0, 45, 90, 135, 180, 225, 270, 315, 360)
direction = add("direction_continuity", dict(dsi=EIGHT, dsi_previous=EIGHT, ship_directions=Opt(Real(0, 360, extra=(0, 360))),
                                             most=Real(0, 180, extra=(60.,))),
                lambda W, a: W.track_check.direction_continuity(a.dsi, a.dsi_previous, a.ship_directions, a.most),
                [TC + "direction_continuity"], spec=direction_spec, samples=1500)
add("direction_continuity: 60 degrees unless told otherwise", dict(dsi=EIGHT, dsi_previous=EIGHT,
                                                                   ship_directions=Opt(Real(0, 360)), most=Const(60.0)),
    lambda W, a: W.track_check.direction_continuity(a.dsi, a.dsi_previous, a.ship_directions),
    [TC + "direction_continuity"], spec=direction_spec, samples=1500)


def turn(x):
    """the smaller of the two turns between courses that differ by x"""
    x = abs(x)
    return Min(x, 360 - x)


add("lemma: the direction check is about the smaller turn", dict(dsi=Enum(0, 45, 90, 135, 180, 225, 270, 315, 360),
                                                               ship_directions=Real(0, 360)),
    lambda W, a: W.track_check.direction_continuity(a.dsi, a.dsi, a.ship_directions), [TC + "direction_continuity"],
    spec=lambda a: Ite(turn(a.dsi - a.ship_directions) > 60, 10.0, 0.0))


def speed_spec(a):
    if a.vsi is None or a.vsi_previous is None or a.speeds is None:
        return 0.0
    far = lambda v: abs(v / KM - a.speeds) > a.most / KM
    return Ite(And(far(a.vsi), far(a.vsi_previous)), 10.0, 0.0)


KN = Opt(Real(0, 60, extra=(0, 10)))
speedc = add("speed_continuity", dict(vsi=KN, vsi_previous=KN, speeds=Opt(SPEED), most=Real(0, 40, extra=(10.,))),
             lambda W, a: W.track_check.speed_continuity(a.vsi, a.vsi_previous, a.speeds, a.most), [TC + "speed_continuity"],
             spec=speed_spec)
add("speed_continuity: 10 knots unless told otherwise", dict(vsi=KN, vsi_previous=KN, speeds=Opt(SPEED), most=Const(10.0)),
    lambda W, a: W.track_check.speed_continuity(a.vsi, a.vsi_previous, a.speeds), [TC + "speed_continuity"], spec=speed_spec)


def distance_spec(a):
    if None in (a.vsi, a.vsi_previous, a.time_differences, a.fwd_diff_from_estimated, a.rev_diff_from_estimated):
        return 0.0
    far = a.time_differences * ((a.vsi + a.vsi_previous) / 2.) / KM
    return Ite(And(a.vsi > 0, a.vsi_previous > 0, a.time_differences > 0, a.fwd_diff_from_estimated > far,
                   a.rev_diff_from_estimated > far), 10.0, 0.0)


DIST = Opt(Real(0, 2000))
estimate = add("check_distance_from_estimate", dict(vsi=KN, vsi_previous=KN, time_differences=Opt(Real(-10, 100, extra=(0,))),
                                                    fwd_diff_from_estimated=DIST, rev_diff_from_estimated=DIST),
               lambda W, a: W.track_check.check_distance_from_estimate(
                   a.vsi, a.vsi_previous, a.time_differences, a.fwd_diff_from_estimated, a.rev_diff_from_estimated),
               [TC + "check_distance_from_estimate"], spec=distance_spec, samples=1500)
USE = {TC + "set_speed_limits": set_limits, TC + "direction_continuity": direction, TC + "speed_continuity": speedc,
       TC + "check_distance_from_estimate": estimate}


# ------------------------------------------- positions estimated from the reported motion

def dest(lat, lon, course, dist):
    """lat_lon_from_course_and_distance (C09); any function for symbols"""
    E = core.engine()
    xs = [lat, lon, course, dist]
    if core.has_sym(xs):
        z = [z3.simplify(core.real(*core.lift(x))) for x in xs]
        return [core.SNum(z3.Function("dest." + n, *[z3.RealSort()] * 5)(*z), "r") for n in ("lat", "lon")]
    from pyvc import contract
    return list(contract.REAL.spherical_geometry.lat_lon_from_course_and_distance(*xs))


def sphere(lat1, lon1, lat2, lon2):
    """sphere_distance (C09)"""
    xs = [lat1, lon1, lat2, lon2]
    if core.has_sym(xs):
        z = [z3.simplify(core.real(*core.lift(x))) for x in xs]
        r = core.SNum(z3.Function("sphere", *[z3.RealSort()] * 5)(*z), "r")
        core.engine().assume(r >= 0)
        return r
    from pyvc import contract
    return contract.REAL.spherical_geometry.sphere_distance(*xs)


def between(lat1, lon1, lat2, lon2, f):
    xs = [lat1, lon1, lat2, lon2, f]
    if core.has_sym(xs):
        z = [z3.simplify(core.real(*core.lift(x))) for x in xs]
        return [core.SNum(z3.Function("between." + n, *[z3.RealSort()] * 6)(*z), "r") for n in ("lat", "lon")]
    from pyvc import contract
    return list(contract.REAL.spherical_geometry.intermediate_point(*xs))


SG = "spherical_geometry."
GEO = {
    SG + "lat_lon_from_course_and_distance": Contract("dest", dict.fromkeys(("lat", "lon", "course", "dist")), None, [],
                                                      spec=lambda a: dest(a.lat, a.lon, a.course, a.dist)),
    SG + "sphere_distance": Contract("sphere", dict.fromkeys(("lat1", "lon1", "lat2", "lon2")), None, [],
                                     spec=lambda a: sphere(a.lat1, a.lon1, a.lat2, a.lon2)),
    SG + "intermediate_point": Contract("between", dict.fromkeys(("lat1", "lon1", "lat2", "lon2", "f")), None, [],
                                        pre=lambda a: a.f <= 1,
                                        spec=lambda a: between(a.lat1, a.lon1, a.lat2, a.lon2, a.f)),
}


def increments(lat, lon, speed, course, dt):
    """where half the time takes the ship, relative to where it is"""
    y, x = dest(lat, lon, course, speed * dt / 2.)
    return y - lat, x - lon


inc = add("increment_position", dict(lat=Real(-90, 90), lon=Real(-180, 180), speed=Real(0, 100), course=Real(-180, 360),
                                     dt=Opt(Real(0, 100))),
          lambda W, a: list(W.track_check.increment_position(a.lat, a.lon, a.speed, a.course, a.dt)),
          [TC + "increment_position"], use=GEO,
          spec=lambda a: [None, None] if a.dt is None else list(increments(a.lat, a.lon, a.speed, a.course, a.dt)))


def estimated(V, i, back=False):
    """distance between report i and where the reported motions take the ship from report i - 1 (or, going back,
    between report i - 1 and where they take it from i), as (missing, value); i >= 1"""
    vs = [V.raw(x, j) if hasattr(V, "raw") else (V.get(x, j) is None, V.get(x, j)) for x in ("vsi", "dsi") for j in (i, i - 1)]
    miss = Or(*[m for m, x in vs])
    if not core.is_sym(miss) and miss:
        return True, 0.0
    (v1, v0, d1, d0) = [x for m, x in vs]
    dt = V.sub(i, i - 1)[3]
    p, q, v, w, d, e = (i, i - 1, v1, v0, d1, d0) if back else (i - 1, i, v0, v1, d0, d1)
    t = 180. if back else 0
    a, b_ = increments(V.get("LAT", p), V.get("LON", p), v / KM, d - t if back else d, dt)
    c, f = increments(V.get("LAT", q), V.get("LON", q), w / KM, e - t if back else e, dt)
    return miss, sphere(V.get("LAT", q), V.get("LON", q), V.get("LAT", p) + a + c, V.get("LON", p) + b_ + f)


def midpoint(V, i):
    """distance of report i from the point as far along the way between its neighbours as the times are; 0 < i < n - 1"""
    t0, t1 = V.sub(i, i - 1)[3], V.sub(i + 1, i)[3]
    f = Ite(t0 + t1 != 0, div(t0, Ite(t0 + t1 != 0, t0 + t1, 1)), 0.0)
    y, x = between(V.get("LAT", i - 1), V.get("LON", i - 1), V.get("LAT", i + 1), V.get("LON", i + 1), f)
    return sphere(V.get("LAT", i), V.get("LON", i), y, x)


def list_inv(name, elem, base=1, where=lambda n, k: k):
    """list built by a loop: the element about report k is as specified"""
    def inv(v, s):
        sv = (v.self if "self" in v.__dict__ else v.invoyage).sym
        xs = getattr(v, name)
        m = base + s.i
        k = sv.k
        j = where(sv.n, k)
        return [("one element for each report so far", glen(xs) == m),
                ("each as specified", Implies(And(j >= 0, j < m), same_opt(gat(xs, j), elem(sv, k))))]
    return inv


from pyvc.seqs import glen, ghost  # noqa: E402


def fwd(V, k):
    """report k against the motions reported from report k - 1 to k"""
    if bool(k == 0):
        return True, 0.0
    return estimated(V, k)


def rev(V, k):
    """report k against the motions reported from report k + 1 back to k"""
    if bool(k == V.n - 1):
        return True, 0.0
    return estimated(V, k + 1, True)


def mid_elem(V, k):
    if bool(Or(k == 0, k == V.n - 1)):
        return True, 0.0
    return False, midpoint(V, k)


def run_list(fname, module):
    def run(W, a):
        v = voyage(W, a.v)
        return getattr(v, fname)() if module == "V" else getattr(W.track_check, fname)(v)
    return run


def list_post(elem, back=False, missing_ends=False):
    def post(a, r):
        V = view(a.v)
        if isinstance(V, SymVoyage):
            xs, j = (r[::-1], V.n - 1 - V.k) if back else (r, V.k)
            return [("one number for each report", glen(xs) == V.n), ("as specified", same_opt(gat(xs, j), elem(V, V.k)))]
        want = [elem(V, i) for i in range(V.n)]
        return [("one number for each report", len(r) == V.n),
                ("as specified", all((x is None) == bool(m) and (m or eq(x, y, 1e-6)) for x, (m, y) in zip(r, want)))]
    return post


USE_INC = dict(GEO, **{TC + "increment_position": Contract("inc", dict.fromkeys(("lat", "lon", "speed", "course", "dt")),
                                                           None, [], spec=inc.spec)})
DL, MD = "distance_from_est_location", "midpoint_discrepancies"
for mod, pre in (("V", VO), ("T", TC)):
    tag = "" if mod == "V" else "track_check."
    add(tag + "distr1", dict(v=Track(1)), run_list("distr1", mod), [pre + "distr1"],
        use=USE_INC, post=list_post(fwd), samples=200, diff=False,
        loops={pre + "distr1#0": LoopSpec(inv=list_inv(DL, fwd), havoc={DL: glist(DL)})})
    add(tag + "distr2", dict(v=Track(1)), run_list("distr2", mod), [pre + "distr2"],
        use=USE_INC, post=list_post(rev, back=True), samples=200, diff=False,
        loops={pre + "distr2#0": LoopSpec(inv=list_inv(DL, rev, where=lambda n, k: n - 1 - k), havoc={DL: glist(DL)})})
    add(tag + "midpt", dict(v=Track(2)), run_list("midpt", mod), [pre + "midpt"], use=USE_INC,
        post=list_post(mid_elem), samples=200, diff=False,
        loops={pre + "midpt#0": LoopSpec(inv=list_inv(MD, mid_elem), havoc={MD: glist(MD)})})


# ------------------------------------------------------- speeds of the voyage

def speed_of(V, k):
    """speed over the way from the report before"""
    if bool(k == 0):
        return True, 0.0
    return False, V.get("speed", k)


add("get_speed", dict(v=Track(1)), run_list("get_speed", "V"), [VO + "get_speed"], post=list_post(speed_of), samples=200, diff=False,
    loops={VO + "get_speed#0": LoopSpec(inv=list_inv("spd", speed_of, base=0), havoc=dict(spd=glist("spd")))})

ALTS = ["alt_speed", "alt_course", "alt_distance", "alt_time_diff"]


def alt(V, k, name):
    """between the neighbours, (missing, value)"""
    end = Or(k == 0, k == V.n - 1)
    if not core.is_sym(end):
        return (True, 0.0) if end else (False, V.sub(k + 1, k - 1)[SUBS.index(name[4:])])
    return end, V.sub(k + 1, k - 1)[SUBS.index(name[4:])]


def alt_inv(first):
    def inv(v, s, sv):
        k = sv.k
        out = []
        for x in ALTS:
            got = sv.ext(x)
            if first:
                out.append(("%s reset" % x, Implies(k < s.i, got[0])))
            else:
                out.append(("%s so far" % x, Ite(And(k >= 1, k < 1 + s.i), same_opt(got, alt(sv, k, x)), got[0])))
        return out
    return inv


def alt_run(W, a):
    v = voyage(W, a.v)
    v.calc_alternate_speeds()
    return v if not isinstance(a.v, SymVoyage) else a.v


def alt_post(a, v):
    V = view(a.v)
    if isinstance(V, SymVoyage):
        return [("%s as specified" % x, same_opt(V.ext(x), alt(V, V.k, x))) for x in ALTS]
    out = []
    for x in ALTS:
        got, want = [v.getvar(i, x) for i in range(V.n)], [alt(V, i, x) for i in range(V.n)]
        out.append(("%s as specified" % x, all((g is None) == m and (m or eq(g, w, 1e-9)) for g, (m, w) in zip(got, want))))
    return out


CAS = VO + "calc_alternate_speeds"
add("calc_alternate_speeds", dict(v=Track(1)), alt_run, [CAS], post=alt_post, samples=200, diff=False,
    loops={CAS + "#0": floop(alt_inv(True), exts=ALTS), CAS + "#1": floop(alt_inv(False), exts=ALTS)})


# ------------------------------------------------------------------ the verdict

def unknown(V, name, i):
    """for symbols, what a contract above says of report i, as a function of i"""
    return core.SNum(z3.Function(V.name + "." + name, z3.IntSort(), z3.RealSort())(z3.simplify(core.lift(i)[0])), "r")


def incomplete(V, i):
    return Or(*[V.raw(x, j)[0] for x in ("vsi", "dsi") for j in (i, i - 1)])


def forward(V, i):
    if isinstance(V, SymVoyage):
        return Or(i == 0, incomplete(V, i)), unknown(V, "forward", i)
    return fwd(V, i)


def backward(V, i):
    if isinstance(V, SymVoyage):
        return Or(i == V.n - 1, incomplete(V, i + 1)), unknown(V, "backward", i)
    return rev(V, i)


def middle(V, i):
    if isinstance(V, SymVoyage):
        return Or(i == 0, i == V.n - 1), unknown(V, "middle", i)
    return mid_elem(V, i)


def modal(V):
    if isinstance(V, SymVoyage):
        return core.SNum(z3.Real(V.name + ".modal"), "r")
    return modesp_spec(NS(speeds=[0] + [V.get("speed", i) for i in range(1, V.n)]))


def seq_of(f, lazy=True):
    """for symbols, the list that the contract f describes"""
    def spec(a):
        V = (a.self if "self" in a.__dict__ else a.invoyage).sym

        def elem(i):
            miss, x = f(V, i)
            return Lazy(miss, x) if lazy else None if bool(miss) else x
        return FnSeq(V.n, elem)
    return spec


def stub(spec, *names):
    return Contract("stub", dict.fromkeys(names), None, [], spec=spec)


class Modal(object):
    """the list of speeds, known by its voyage"""


def speeds_list(a):
    V = a.self.sym
    r = FnSeq(V.n, lambda i: None if bool(i == 0) else V.get("speed", i))
    r.of = V
    return r


def lists(pre, who):
    return {pre + "distr1": stub(seq_of(forward), who), pre + "distr2": stub(seq_of(backward), who),
            pre + "midpt": stub(seq_of(middle, False), who)}


def parts(x):
    if isinstance(x, Lazy):
        return x.miss, x.val
    return x is None, x


def missing_none(spec, *names):
    """the contract on values some of which may be missing, without telling the cases apart"""
    def f(a):
        vs = [parts(getattr(a, n)) for n in names]
        return Ite(Or(*[m for m, x in vs]), 0.0, spec(NS(**dict(a.__dict__, **dict(zip(names, [x for m, x in vs]))))))
    return f


direction.params["most"].default = 60.0       # as the contracts 'unless told otherwise' establish
speedc.params["most"].default = 10.0


def lazily(c, spec, *names):
    return Contract(c.name, c.params, None, [], spec=missing_none(spec, *names))


CHECK = dict(GEO, **{
    TC + "set_speed_limits": set_limits,
    TC + "direction_continuity": lazily(direction, direction_spec, "dsi", "dsi_previous", "ship_directions"),
    TC + "speed_continuity": lazily(speedc, speed_spec, "vsi", "vsi_previous", "speeds"),
    TC + "check_distance_from_estimate": lazily(estimate, distance_spec, "vsi", "vsi_previous", "time_differences",
                                                "fwd_diff_from_estimated", "rev_diff_from_estimated"),

    TC + "modesp": stub(lambda a: modal(a.awork.of), "awork"), VO + "get_speed": stub(speeds_list, "self"),
    VO + "meansp": stub(lambda a: core.SNum(z3.Real("meansp"), "r"), "self"), CAS: stub(lambda a: None, "self")})


def value(V, name, i):
    return V.raw(name, i) if isinstance(V, SymVoyage) else (V.get(name, i) is None, V.get(name, i))


def over(V, name, i, most):
    m, x = value(V, name, i)
    if not core.is_sym(m) and m:
        return False
    if not core.is_sym(x):
        return gt(x, most)
    return And(Not(m), x > most)


def given(V, names, f):
    """f of the values, False unless all are there"""
    vs = [value(V, n, i) if isinstance(n, str) else n(V, i) for n, i in names]
    miss = Or(*[m for m, x in vs])
    if not core.is_sym(miss) and miss:
        return False
    return And(Not(miss), f(*[x for m, x in vs]))


def inconsistent(V, i, P):
    """the reported and the implied motion disagree at report i"""
    far = lambda d, c: And(abs_gt(d, c, P.max_direction_change), abs_lt(d, c, 360 - P.max_direction_change))
    return Or(
        given(V, [("vsi", i), ("vsi", i - 1), ("time_diff", i), (forward, i), (backward, i)],
              lambda v, w, t, f, b_: And(v > 0, w > 0, t > 0, gt(f, t * (v + w) / 2. / KM), gt(b_, t * (v + w) / 2. / KM))),
        given(V, [("dsi", i), ("dsi", i - 1), ("course", i)], lambda d, e, c: Or(far(d, c), far(e, c))),
        given(V, [("vsi", i), ("vsi", i - 1), ("speed", i)],
              lambda v, w, x: And(abs_gt(v / KM, x, P.max_speed_change / KM), abs_gt(w / KM, x, P.max_speed_change / KM))),
        over(V, "speed", i, P.max_absolute_speed / KM))


def abs_gt(x, y, most):
    return gt(abs(x - y), most)


def abs_lt(x, y, most):
    return gt(most, abs(x - y))


def verdict(V, i, P):
    """report i, not the first or last, fails"""
    amax = limits(modal(V))[0]
    fast = Or(And(over(V, "speed", i, amax), over(V, "alt_speed", i - 1, amax)),
              And(over(V, "speed", i + 1, amax), over(V, "alt_speed", i + 1, amax)),
              And(over(V, "speed", i, amax), over(V, "speed", i + 1, amax)))
    return And(gt(middle(V, i)[1], P.max_midpoint_discrepancy / KM), fast, inconsistent(V, i, P))


PARAMS = dict(max_direction_change=Real(10, 170, extra=(60.,)), max_speed_change=Real(1, 40, extra=(10.,)),
              max_absolute_speed=Real(10, 60, extra=(40.,)), max_midpoint_discrepancy=Real(10, 400, extra=(150.,)))
USUAL = NS(max_direction_change=60.0, max_speed_change=10.0, max_absolute_speed=40.0, max_midpoint_discrepancy=150.0)


class AltConc(ConcVoyage):
    def get(self, name, i):
        if name.startswith("alt_"):
            m, x = alt(self, i, name)
            return None if m else x
        if name == "speed":
            return None if i == 0 else self.sub(i, i - 1)[0]
        return self.v.getvar(i, name)


def tview(v):
    return v if isinstance(v, SymVoyage) else AltConc(build(_contract.REAL, v))


from pyvc import contract as _contract  # noqa: E402

GENERIC = ["1        ", "58       ", "RIGG     ", "     RIGG", "SHIP     ", "ship     ", "     SHIP", "PLAT     ",
           "     PLAT", "         ", "0120     ", "0204     ", "0205     ", "0206     ", "0207     ", "0208     ", "0209     ",
           "MASKST   ", "MASKSTID ", "MASK     ", "XXXX     ", "/////    "]
ONCE = {"2        ": (1921, 1941), "00002    ": (1921, 1941), "3        ": (1930, 1937), "7        ": (1934, 1954),
        "00007    ": (1934, 1954)}


def shared(ident, year):
    """a call sign many ships used"""
    if ident is None or ident in GENERIC:
        return True
    if ident in ONCE:
        return And(year >= ONCE[ident][0], year <= ONCE[ident][1])
    return False


add("id_is_generic", dict(inid=Enum(None, "SHIP12345", "GBTT     ", "2        x", *(GENERIC + sorted(ONCE))), inyear=Int(1800, 2030, extra=(1921, 1941, 1930, 1937, 1934, 1954))),
    lambda W, a: W.qc.id_is_generic(a.inid, a.inyear), ["qc.id_is_generic"], spec=lambda a: shared(a.inid, a.inyear))


def is_shared(V):
    if isinstance(V, SymVoyage):
        return core.mkb(z3.Bool(V.name + ".generic"))
    return shared(V.get("ID", 0), V.get("YR", 0))


def is_value(V, name, x):
    m, y = value(V, name, 0)
    if not core.is_sym(m) and m:
        return False
    return And(Not(m), y == x)


def old_deck(V):
    return And(is_value(V, "DCK", 720), V.get("YR", 0) < 1891)


def sym_generic(a):
    return core.mkb(z3.Bool(core.engine().memo["voyage"].name + ".generic"))


def worked_out(a):
    core.engine().memo["alts"] = True


CHECK[CAS] = stub(worked_out, "self")
CHECK["qc.id_is_generic"] = stub(sym_generic, "inid", "inyear")


def flags_inv(f, keys, base=0, rest=None):
    """loop over the reports: those of report k so far, and the rest"""
    def inv(v, s, sv):
        k = sv.k
        m = base + s.i
        out = []
        for key in keys:
            want, done = f(sv, k, key, m)
            out.append(("%s/%s so far" % key, Implies(done, sv.flag(key) == want)))
        return out
    return inv


TRK, FEW = ("POS", "trk"), ("POS", "few")


def flag_of(V, i, P, free, few):
    """(track, few) flags of report i"""
    ok = Or(free, i == 0, i == V.n - 1)
    small = V.n < 3
    if not core.has_sym([ok, small]):
        if ok or small:
            return 0, (0 if free or V.n >= 3 else few)
        return Ite(verdict(V, i, P), 1, 0), 0
    return Ite(And(Not(ok), Not(small), verdict(V, i, P)), 1, 0), Ite(And(Not(free), small), few, 0)


def free_pass(V):
    return Or(is_shared(V), is_value(V, "PT", 6), is_value(V, "PT", 7))


def tc_run(W, a):
    v = voyage(W, a.v)
    if isinstance(a.v, SymVoyage):
        core.engine().memo.update(voyage=a.v, lazy=("vsi", "dsi"))
    v.track_check(dict(a.P.__dict__))
    return v if not isinstance(a.v, SymVoyage) else a.v


def tc_spec(a):
    V = tview(a.v)
    few = Ite(old_deck(V), 0, 1)
    return [flag_of(V, i, a.P, free_pass(V), few) for i in range(V.n)]


def tc_post(a, v):
    V = tview(a.v)
    if isinstance(V, SymVoyage):
        few = Ite(old_deck(V), 0, 1)
        t, f = flag_of(V, V.k, a.P, free_pass(V), few)
        return [("track flag as specified", v.flag(TRK) == t), ("few flag as specified", v.flag(FEW) == f)]
    want = tc_spec(a)
    got = [(v.get_qc(i, *TRK), v.get_qc(i, *FEW)) for i in range(V.n)]
    return [("track flag as specified", [g[0] for g in got] == [w[0] for w in want]),
            ("few flag as specified", [g[1] for g in got] == [w[1] for w in want])]


def main_inv(params):
    def f(sv, k, key, m):
        P = params()
        done = And(k >= 0, k < m)
        if key[1] in ("few", "fewsome_check"):
            return 0, done
        return Ite(And(k >= 1, k < sv.n - 1, verdict(sv, k, P)), 1, 0), done
    return f


def passes(sv, k, key, m):
    return 0, k < m


class PARAM(Desc):
    def sym(self, E, name):
        p = NS(**{k: d.sym(E, name + "." + k) for k, d in PARAMS.items()})
        E.memo["P"] = p
        return p

    def rand(self, rng, pool):
        if rng.random() < 0.4:
            return copy.copy(USUAL)
        return NS(**{k: d.rand(rng, pool) for k, d in PARAMS.items()})


import copy  # noqa: E402

FAST = Track(1, value=None, miss=0.05, jumps=0.3)
TCK = VO + "track_check"
add("Voyage.track_check", dict(v=FAST, P=PARAM()), tc_run, [TCK], post=tc_post, guard=clear_of(tc_spec), samples=3000, diff=False, budget=700,
    use=dict(CHECK, **lists(VO, "self")),
    loops={TCK + "#0": floop(flags_inv(passes, [TRK, FEW]), keys=[TRK, FEW]),
           TCK + "#3": floop(flags_inv(main_inv(lambda: core.engine().memo["P"]), [TRK, FEW], base=1), keys=[TRK, FEW])})


# ------------------------------------------- the same check as a pass over a voyage

BAD, FEWSOME = ("POS", "bad_track"), ("POS", "fewsome_check")


def mds_case(V):
    """(no check because of a shared call sign, no check because of too few reports)"""
    free = is_shared(V)
    few = And(Not(free), V.n < 3, Not(old_deck(V)))
    return free, few


def mds_flag(V, i, free, few):
    """(returned, bad_track or None for unchanged, fewsome_check)"""
    ends = Or(i == 0, i == V.n - 1)
    if core.has_sym([ends, free, few]):
        return Ite(And(Not(free), Not(few), Not(ends), verdict(V, i, USUAL)), 1, 0)
    return 1 if not free and not few and not ends and verdict(V, i, USUAL) else 0


def mds_run(W, a):
    v = voyage(W, a.v)
    if isinstance(a.v, SymVoyage):
        core.engine().memo.update(voyage=a.v, lazy=("vsi", "dsi"))
        return W.track_check.mds_track_check(v), a.v
    for r in v.reps:
        r.set_qc(*(BAD + (7,)))
        r.set_qc(*(FEWSOME + (7,)))
    return W.track_check.mds_track_check(v), v


def mds_spec(a):
    V = tview(a.v)
    free, few = mds_case(V)
    return [mds_flag(V, i, free, few) for i in range(V.n)]


def mds_post(a, r):
    qcs, v = r
    V = tview(a.v)
    free, few = mds_case(V)
    if isinstance(V, SymVoyage):
        want = mds_flag(V, V.k, free, few)
        got = gat(qcs, V.k)
        return [("one flag for each report", glen(qcs) == V.n), ("as specified", And(Not(got[0]), got[1] == want)),
                ("set on the report too", v.flag(BAD) == Ite(few, v.old(BAD), want)),
                ("too few reports", v.flag(FEWSOME) == Ite(free, v.old(FEWSOME), Ite(few, 1, 0)))]
    want = mds_spec(a)
    return [("one flag for each report", len(qcs) == V.n), ("as specified", qcs == want),
            ("set on the report too", [v.get_qc(i, *BAD) for i in range(V.n)] == ([7] * V.n if few else want)),
            ("too few reports", [v.get_qc(i, *FEWSOME) for i in range(V.n)] == [7 if free else 1 if few else 0] * V.n)]


def mds_inv(base, want, keys):
    """the list and the flags of report k so far"""
    def inv(v, s, sv):
        m = base + s.i
        done = And(sv.k >= 0, sv.k < m)
        w = want(sv, sv.k)
        got = gat(v.qcs, sv.k)
        return [("one for each so far", glen(v.qcs) == m), ("list so far", Implies(done, And(Not(got[0]), got[1] == w)))] + \
            [("%s so far" % k[1], Implies(done, sv.flag(k) == (w if k is BAD else x))) for k, x in keys]
    return inv


def mds_loop(base, want, keys):
    return floop(mds_inv(base, want, keys), keys=[k for k, x in keys], havoc=dict(qcs=glist("qcs", "i")))


MDS = TC + "mds_track_check"
main = lambda sv, k: Ite(And(k >= 1, k < sv.n - 1, verdict(sv, k, USUAL)), 1, 0)
add("mds_track_check", dict(v=FAST), mds_run, [MDS], post=mds_post, guard=clear_of(mds_spec), samples=3000, diff=False, budget=300,
    use=dict(CHECK, **lists(TC, "invoyage")),
    loops={MDS + "#0": mds_loop(0, lambda sv, k: 0, [(BAD, 0)]),
           MDS + "#2": mds_loop(1, main, [(BAD, 0), (FEWSOME, 0)])})


# ------------------------------------------- five passes, each without the reports that failed before

class Plain(object):
    """a report of which only the flag matters"""
    __ghost__ = True

    def __init__(self, i):
        self.i, self.flag = i, None

    def __sub__(self, o):
        return 0.0, 0.0, 0.0, 0.0

    def setext(self, name, val):
        pass

    def set_qc(self, t, f, val):
        if (t, f) == BAD:
            self.flag = val


def five(fails):
    """flags after at most five passes, of which pass p fails the reports for which fails gives p"""
    bad = [False] * len(fails)
    for p in range(1, 6):
        now = [bool(f == p) for f in fails]
        bad = [b_ or f for b_, f in zip(bad, now)]
        if not any(now):
            break
    return [1 if b_ else 0 for b_ in bad]


class Passes(object):
    """stands for mds_track_check: each pass fails the reports due at that pass"""

    def __init__(self, fails):
        self.fails, self.p = fails, 0

    def __call__(self, invoyage):
        self.p += 1
        return [1 if bool(self.fails[r.i] == self.p) else 0 for r in invoyage.reps]


def full_run(W, a):
    v = W.Extended_IMMA.Voyage.__new__(W.Extended_IMMA.Voyage)
    v.reps = [Plain(i) for i in range(len(a.fails))]
    if W.symbolic:
        core.engine().memo["passes"] = Passes(a.fails)
        W.track_check.mds_full_track_check(v)
    else:
        old = W.track_check.mds_track_check
        try:
            W.track_check.mds_track_check = Passes(a.fails)
            W.track_check.mds_full_track_check(v)
        finally:
            W.track_check.mds_track_check = old
    return [r.flag for r in v.reps]


add("mds_full_track_check", dict(fails=Lst(Int(0, 6), (0, 1, 2, 3, 5, 7))), full_run, [TC + "mds_full_track_check"],
    pre=lambda a: And(*[f == 0 for f in a.fails[:1] + a.fails[-1:]]),    # the ends pass (mds_track_check)
    spec=lambda a: five(a.fails), diff=False, exactness=False, bounded="voyages of 0, 1, 2, 3, 5 and 7 reports", budget=150, max_paths=100000,
    use={MDS: stub(lambda a: core.engine().memo["passes"](a.invoyage), "invoyage")})
