"""C09: spherical geometry."""
import z3
from .common import *

CONTRACTS = Specs()
add = CONTRACTS.add
SG = "spherical_geometry."
R = 6371.0088
RAD = math.pi / 180.
TWOPI = 2. * math.pi
NAN = float("nan")

LAT = Real(-90, 90, extra=(-90, 90, 0, 45))
LON = Real(-180, 360, extra=(-180, 180, 0, 360))
PTS = dict(lat1=LAT, lon1=LON, lat2=LAT, lon2=LON)


def atan2(y, x):
    return fn2("atan2", y, x)


def tangent(a):
    """components of the course at point 1 (east, north) times the sine of the distance, and its cosine"""
    p1, p2, dl = a.lat1 * RAD, a.lat2 * RAD, abs(a.lon1 * RAD - a.lon2 * RAD)
    e = cos(p2) * sin(dl)
    n = cos(p1) * sin(p2) - sin(p1) * cos(p2) * cos(dl)
    c = sin(p1) * sin(p2) + cos(p1) * cos(p2) * cos(dl)
    return e, n, c


def angle(a):
    e, n, c = tangent(a)
    return atan2(fn("sqrt", e * e + n * n), c)


def call(name, f=lambda r: r):
    def run(W, a):
        return f(getattr(W.spherical_geometry, name)(a.lat1, a.lon1, a.lat2, a.lon2))
    return run


def missing(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


OPT = OneOf(Const(None), Const(NAN), LON)
OLAT = OneOf(Const(None), Const(NAN), LAT)
OPTS = dict(lat1=OLAT, lon1=OPT, lat2=OLAT, lon2=OPT)


def missed(a):
    return missing(a.lat1) or missing(a.lon1) or missing(a.lat2) or missing(a.lon2)


angular = add("angular_distance", OPTS, call("angular_distance"), [SG + "angular_distance"],
              spec=lambda a: Raised("AssertionError") if missed(a) else angle(a), samples=600)
add("sphere_distance", OPTS, call("sphere_distance"), [SG + "sphere_distance"],
    spec=lambda a: Raised("AssertionError") if missed(a) else angle(a) * R, samples=600)
add("lemma: distances lie between 0 and half the circumference", PTS, call("sphere_distance"), [SG + "sphere_distance"],
    post=lambda a, r: And(r >= 0, r <= math.pi * R))


def symmetric(a):
    b_ = NS(lat1=a.lat2, lon1=a.lon2, lat2=a.lat1, lon2=a.lon1)
    e, n, c = tangent(a)
    f, m, d = tangent(b_)
    return [e * e + n * n, f * f + m * m, c, d]


def symmetric_post(a, r):
    x, y, c, d = symmetric(a)
    lemma(c == d, "cosine of the distance is symmetric")
    lemma(x == 1 - c * c, "sine squared")
    lemma(y == 1 - d * d, "sine squared, exchanged")
    return r[0] == r[1] if core.has_sym(r) else abs(r[0] - r[1]) <= 1e-6


add("lemma: distance is symmetric", PTS,
    lambda W, a: [W.spherical_geometry.sphere_distance(a.lat1, a.lon1, a.lat2, a.lon2),
                  W.spherical_geometry.sphere_distance(a.lat2, a.lon2, a.lat1, a.lon1)],
    [SG + "sphere_distance", SG + "angular_distance"], post=symmetric_post)
add("lemma: no distance between equal points", dict(lat=LAT, lon=LON),
    lambda W, a: W.spherical_geometry.sphere_distance(a.lat, a.lon, a.lat, a.lon), [SG + "sphere_distance"],
    post=lambda a, r: r == 0 if core.is_sym(r) else abs(r) < 1e-6)


# ------------------------------------------------------------ destination

def wrap(x):
    """x radians, brought into [-pi, pi)"""
    y = x + math.pi
    if core.is_sym(y):
        return core.mod(y, TWOPI) - math.pi
    return y % TWOPI - math.pi


def clip(x):
    return Max(Min(x, 1.0), -1.0)


def destination(a):
    p, l, t, d = a.lat1 * RAD, a.lon1 * RAD, a.tc * RAD, div(a.d, R)
    lat = fn("asin", clip(sin(p) * cos(d) + cos(p) * sin(d) * cos(t)))
    dlon = atan2(sin(t) * sin(d) * cos(p), cos(d) - sin(p) * sin(lat))
    return [div(lat, RAD), div(wrap(l + dlon), RAD)]


COURSE = dict(lat1=LAT, lon1=LON, tc=Real(-360, 720, extra=(0, 90, 180, 270, 360)), d=Real(-30000, 30000, extra=(0,)))


def dest(W, a):
    return list(W.spherical_geometry.lat_lon_from_course_and_distance(a.lat1, a.lon1, a.tc, a.d))


add("lat_lon_from_course_and_distance", COURSE, dest, [SG + "lat_lon_from_course_and_distance"], spec=destination, tol=1e-6,
    samples=600, diff=False)
add("lemma: destinations lie on the globe", COURSE, dest, [SG + "lat_lon_from_course_and_distance"],
    post=lambda a, r: And(r[0] >= -90 - 1e-9, r[0] <= 90 + 1e-9, r[1] >= -180 - 1e-9, r[1] <= 180 + 1e-9), samples=600)
add("lemma: no distance, no displacement", dict(lat1=Real(-89, 89), lon1=Real(-179.9, 179.9), tc=Real(0, 360)),
    lambda W, a: dest(W, NS(lat1=a.lat1, lon1=a.lon1, tc=a.tc, d=0.0)), [SG + "lat_lon_from_course_and_distance"],
    post=lambda a, r: And(Abs(r[0] - a.lat1) <= 1e-6, Abs(r[1] - a.lon1) <= 1e-6))
# the pole is where rounding used to carry the sine of the latitude over 1
ATPOLE = Fn(lambda E, n: E.real("a." + n), lambda rng, pool: rng.choice(
    [(90 - x) * RAD * R for x in (0, 1, 10, 45, 76.72, 87.5)] + [rng.uniform(-20000, 20000)]))
add("destinations are numbers", dict(lat1=LAT, lon1=LON, tc=Enum(0, 180.0, 360.0, 77.0), d=ATPOLE, north=Bool()),
    lambda W, a: dest(W, a) if not core.is_sym(a.lat1) and a.tc == 77.0 or core.is_sym(a.lat1)
    else dest(W, NS(lat1=a.lat1, lon1=a.lon1, tc=0 if a.north else 180.,
                    d=((90 - a.lat1) if a.north else (90 + a.lat1)) * RAD * R)),
    [SG + "lat_lon_from_course_and_distance"],
    post=lambda a, r: And(r[0] == r[0], r[1] == r[1]), exactness=False, samples=2000, diff=False)


# ----------------------------------------------------------------- course

def degenerate(a):
    """equal or opposite points, or starting at a pole: the course is not determined"""
    e, n, c = tangent(a)
    return Or(e * e + n * n < 1e-12, cos(a.lat1 * RAD) < 1e-6)


def course_ratio(a):
    d = angle(a)
    p1, p2 = a.lat1 * RAD, a.lat2 * RAD
    return div(sin(p2) - sin(p1) * cos(d), sin(d) * cos(p1))


def course_post(a, r):
    """tan(course) = east over north, in [0, 360]"""
    p1, p2 = a.lat1 * RAD, a.lat2 * RAD
    d = angle(a)
    if not core.has_sym(r):
        if d == 0:
            return r == 0
        if cos(p1) < 1e-7:
            return abs(r - (180 if p1 > 0 else 360)) < 1e-9
        e, n, c = tangent(a)
        e = cos(p2) * sin(p2 * 0 + a.lon2 * RAD - a.lon1 * RAD)
        if bool(degenerate(a)):
            return -180.0001 <= r <= 360.0001
        w = math.degrees(math.atan2(e, n)) % 360
        return abs((r - w + 180) % 360 - 180) < 0.01
    polar = cos(p1) < 0.0000001
    x = course_ratio(a)
    ac = fn("acos", clip(x))
    turn = sin(a.lon2 * RAD - a.lon1 * RAD)
    w = div(Ite(turn > 0, ac, TWOPI - ac), RAD)
    return [("no distance", Implies(d == 0, r == 0)),
            ("from a pole", Implies(And(d != 0, polar), r == div(Ite(p1 > 0, math.pi, TWOPI), RAD))),
            ("as documented", Implies(And(d != 0, Not(polar), x >= -1, x <= 1), r == w)),
            ("otherwise north or south", Implies(And(d != 0, Not(polar), Or(x < -1, x > 1)), And(r >= -180, r <= 180)))]


add("course_between_points", PTS, call("course_between_points"), [SG + "course_between_points"], post=course_post,
    use={SG + "angular_distance": angular}, samples=1500, diff=False)
add("lemma: courses lie in [-180, 360]", PTS, call("course_between_points"), [SG + "course_between_points"],
    use={SG + "angular_distance": angular}, samples=600, diff=False,
    post=lambda a, r: And(r >= -180 - 1e-9, r <= 360 + 1e-9))
add("courses are numbers", dict(lat1=LAT, lon1=LON, lat2=LAT, lon2=LON, kind=Enum(0, 1, 2)),
    lambda W, a: W.spherical_geometry.course_between_points(
        a.lat1, a.lon1, [a.lat2, -a.lat1, a.lat1][a.kind], [a.lon1, a.lon1 + 180, a.lon2][a.kind]),
    [SG + "course_between_points"], use={SG + "angular_distance": angular}, post=lambda a, r: r == r, exactness=False,
    samples=1500, diff=False)


# ----------------------------------------------------------- intermediate

def between(a):
    if bool(a.f > 1):
        return Raised("AssertionError")
    d = angle(a)
    if bool(d == 0):
        return [a.lat1, a.lon1]
    p1, l1, p2, l2 = a.lat1 * RAD, a.lon1 * RAD, a.lat2 * RAD, a.lon2 * RAD
    u, v = div(sin((1 - a.f) * d), sin(d)), div(sin(a.f * d), sin(d))
    x = u * cos(p1) * cos(l1) + v * cos(p2) * cos(l2)
    y = u * cos(p1) * sin(l1) + v * cos(p2) * sin(l2)
    z = u * sin(p1) + v * sin(p2)
    return [div(atan2(z, fn("sqrt", x * x + y * y)), RAD), div(atan2(y, x), RAD)]


def inter(W, a):
    return list(W.spherical_geometry.intermediate_point(a.lat1, a.lon1, a.lat2, a.lon2, a.f))


FRAC = dict(PTS, f=Real(0, 2, extra=(0, 1, 0.5)))


def apart(a):
    e, n, c = tangent(a)
    return core.is_sym(c) or e * e + n * n > 1e-8


intermediate = add("intermediate_point", FRAC, inter, [SG + "intermediate_point"], spec=between, tol=1e-5,
                   use={SG + "angular_distance": angular}, samples=800, diff=False, guard=apart)
add("lemma: intermediate points lie on the globe", FRAC, inter, [SG + "intermediate_point"], pre=lambda a: a.f <= 1,
    use={SG + "angular_distance": angular}, samples=800, diff=False, exactness=False,
    post=lambda a, r: And(r[0] >= -90 - 1e-9, r[0] <= 90 + 1e-9, Or(And(r[1] >= -180 - 1e-9, r[1] <= 180 + 1e-9),
                                                                    r[1] == a.lon1)))


def ends(k):
    def post(a, r):
        p, l = (a.lat2, a.lon2) if k else (a.lat1, a.lon1)
        p0, l0, p1, l1 = p * RAD, l * RAD, r[0] * RAD, r[1] * RAD
        x = [cos(p0) * cos(l0), cos(p0) * sin(l0), sin(p0)]
        y = [cos(p1) * cos(l1), cos(p1) * sin(l1), sin(p1)]
        if core.has_sym(y):
            E = core.engine()
            # the helper radii that define the two results
            rad = [t[2] for t in E.memo.get("polar", ())]
            c2 = cos(p0) * cos(p0)
            axis, cosp = E.fns["sqrt"][-1], core.lift(cos(p0))[0]
            sd = core.lift(sin(angle(a)))[0]
            s0, c0 = core.lift(sin(l0))[0], core.lift(cos(l0))[0]
            lemma(core.mkb(axis[0] == core.lift(c2)[0]), "square of the distance from the axis",
                  given=[s0 * s0 + c0 * c0 == 1, sd != 0])
            lemma(core.mkb(cosp > 0), "not at a pole")
            lemma(core.mkb(axis[1] == cosp), "distance from the axis",
                  given=[axis[1] >= 0, axis[1] * axis[1] == axis[0], axis[0] == cosp * cosp, cosp > 0])
            (z, h, r2, v2), (yy, xx, r3, v3) = E.memo["polar"][-2:]
            sp = core.lift(sin(p0))[0]
            lemma(core.mkb(z == sp), "height", given=[sd != 0])
            lemma(core.mkb(yy == cosp * s0), "second coordinate", given=[sd != 0])
            lemma(core.mkb(xx == cosp * c0), "first coordinate", given=[sd != 0])
            lemma(core.mkb(r2 == 1), "radius of the latitude", given=[
                r2 >= 0, r2 * r2 == z * z + h * h, z == sp, h == cosp, sp * sp + cosp * cosp == 1])
            lemma(core.mkb(r3 == cosp), "radius of the longitude", given=[
                r3 >= 0, r3 * r3 == yy * yy + xx * xx, yy == cosp * s0, xx == cosp * c0, s0 * s0 + c0 * c0 == 1,
                cosp > 0])
            s1, c1, s2, c2 = [core.lift(v)[0] for v in (sin(p1), cos(p1), sin(l1), cos(l1))]
            lemma(core.mkb(z3.And(s1 == sp, c1 == cosp)), "latitude", given=[
                s1 * r2 == z, c1 * r2 == h, r2 == 1, z == sp, h == cosp])
            lemma(core.mkb(z3.And(s2 == s0, c2 == c0)), "longitude", given=[
                s2 * r3 == yy, c2 * r3 == xx, r3 == cosp, yy == cosp * s0, xx == cosp * c0, cosp > 0])
            return [("coordinate %d" % i, u == v) for i, (u, v) in enumerate(zip(x, y))]
        return all(abs(u - v) < 1e-6 for u, v in zip(x, y))
    return post


def at_end(k):
    def run(W, a):
        E = core.engine()
        if E is not None:
            E.memo["polar on"] = True
        return inter(W, NS(**dict(a.__dict__, f=k)))
    return run


NOPOLE = Real(-89.999, 89.999)
for k, name in ((0, "first"), (1, "second")):
    add("lemma: fraction %d is the %s point" % (k, name), dict(PTS, lat1=NOPOLE, lat2=NOPOLE), at_end(k), [SG + "intermediate_point"], post=ends(k),
        pre=lambda a: apart(a) if not core.is_sym(a.lat1) else angle(a) != 0,
        use={SG + "angular_distance": angular}, samples=400, diff=False)
