"""C05: grid-cell indexing."""
from .common import *

CONTRACTS = Specs()
add = CONTRACTS.add

LAT = Real(-90, 90, extra=(-90, 90, 0, 89.5, -89.5))
LON = Real(-180, 360, extra=(-180, 180, 0, 360, 359.5))
# resolutions whose cells fill the grid; powers of two and integers keep the arithmetic exact
RES = Enum(1, 1.0, 0.25, 0.5, 2.0, 2.5, 5.0)


def n_of(total, res):
    n = total / res
    return int(round(n))


def in_cell_lat(lat, i, res, north_border, south_border):
    """lat lies in row i of rows counted from the north pole"""
    top, bot = 90 - i * res, 90 - (i + 1) * res
    up = lat <= top if north_border else lat < top
    lo = lat >= bot if south_border else lat > bot
    return And(up, lo)


def lat_post(a, i):
    n = n_of(180, a.res)
    return [("inside the grid", And(i >= 0, i < n)),
            ("contains the point, borders pushed south", Or(in_cell_lat(a.lat, i, a.res, True, False),
                                                            And(a.lat == -90, i == n - 1)))]


lat_to_yindex = add("lat_to_yindex", dict(lat=LAT, res=RES), lambda W, a: W.qc.lat_to_yindex(a.lat, a.res),
                    ["qc.lat_to_yindex"], post=lat_post)


def lat_default(a, i):
    return lat_post(NS(lat=a.lat, res=1), i)


add("lat_to_yindex, default resolution", dict(lat=LAT), lambda W, a: W.qc.lat_to_yindex(a.lat), ["qc.lat_to_yindex"],
    post=lat_default)


def lon_post(a, i):
    n = n_of(360, a.res)
    # west border of cell i, and the same modulo a turn
    w = -180 + i * a.res
    def inside(k):
        return And(a.lon >= w + 360 * k, a.lon < w + 360 * k + a.res)
    return [("inside the grid", And(i >= 0, i < n)),
            ("contains the point, borders pushed east", Or(inside(0), inside(1), inside(-1), inside(2)))]


add("lon_to_xindex", dict(lon=Real(-540, 720, extra=(-180, 180, 360, 540)), res=RES),
    lambda W, a: W.qc.lon_to_xindex(a.lon, a.res), ["qc.lon_to_xindex"], post=lon_post)
add("lon_to_xindex, default resolution", dict(lon=Real(-540, 720, extra=(-180, 180, 360, 540))),
    lambda W, a: W.qc.lon_to_xindex(a.lon), ["qc.lon_to_xindex"],
    post=lambda a, i: lon_post(NS(lon=a.lon, res=1), i))


def mds_lat_post(a, i):
    n = n_of(180, a.res)
    north = And(a.lat > 0, Or(in_cell_lat(a.lat, i, a.res, False, True), And(a.lat == 90, i == 0)))
    south = And(a.lat <= 0, Or(in_cell_lat(a.lat, i, a.res, True, False), And(a.lat == -90, i == n - 1)))
    return [("inside the grid", And(i >= 0, i < n)),
            ("contains the point, borders pushed away from the equator", Or(north, south))]


add("mds_lat_to_yindex", dict(lat=LAT, res=RES), lambda W, a: W.qc.mds_lat_to_yindex(a.lat, a.res),
    ["qc.mds_lat_to_yindex"], post=mds_lat_post)
add("mds_lat_to_yindex, default resolution", dict(lat=LAT), lambda W, a: W.qc.mds_lat_to_yindex(a.lat),
    ["qc.mds_lat_to_yindex"], post=lambda a, i: mds_lat_post(NS(lat=a.lat, res=1), i))


def mds_lon_post(a, i):
    n = n_of(360, a.res)
    w = -180 + i * a.res
    e = w + a.res
    west = And(a.lon <= 0, Or(And(a.lon > w, a.lon <= e), And(a.lon == -180, i == 0)))
    east = And(a.lon > 0, Or(And(a.lon >= w, a.lon < e), And(a.lon == 180, i == n - 1)))
    return [("inside the grid", And(i >= 0, i < n)),
            ("contains the point, borders pushed away from Greenwich", Or(west, east))]


MLON = Real(-180, 180, extra=(-180, 180, 0))
add("mds_lon_to_xindex", dict(lon=MLON, res=RES), lambda W, a: W.qc.mds_lon_to_xindex(a.lon, a.res),
    ["qc.mds_lon_to_xindex"], post=mds_lon_post)
add("mds_lon_to_xindex, default resolution", dict(lon=MLON), lambda W, a: W.qc.mds_lon_to_xindex(a.lon),
    ["qc.mds_lon_to_xindex"], post=lambda a, i: mds_lon_post(NS(lon=a.lon, res=1), i))

add("yindex_to_lat", dict(i=Int(-400, 4000, extra=(0, 179, 180)), res=RES),
    lambda W, a: W.qc.yindex_to_lat(a.i, a.res), ["qc.yindex_to_lat"],
    spec=lambda a: Raised("AssertionError") if a.i < 0 or a.i >= n_of(180, a.res) else 90 - (a.i + 0.5) * a.res)
add("xindex_to_lon", dict(i=Int(-400, 4000, extra=(0, 359, 360)), res=RES),
    lambda W, a: W.qc.xindex_to_lon(a.i, a.res), ["qc.xindex_to_lon"],
    spec=lambda a: Raised("AssertionError") if a.i < 0 or a.i >= n_of(360, a.res) else -180 + (a.i + 0.5) * a.res)

add("lemma: row, centre, row", dict(i=Int(0, 720), res=RES),
    lambda W, a: [W.qc.lat_to_yindex(W.qc.yindex_to_lat(a.i, a.res), a.res),
                  W.qc.mds_lat_to_yindex(W.qc.yindex_to_lat(a.i, a.res), a.res)],
    ["qc.lat_to_yindex", "qc.mds_lat_to_yindex", "qc.yindex_to_lat"], pre=lambda a: a.i < n_of(180, a.res),
    spec=lambda a: [a.i, a.i])
add("lemma: column, centre, column", dict(i=Int(0, 1440), res=RES),
    lambda W, a: [W.qc.lon_to_xindex(W.qc.xindex_to_lon(a.i, a.res), a.res),
                  W.qc.mds_lon_to_xindex(W.qc.xindex_to_lon(a.i, a.res), a.res)],
    ["qc.lon_to_xindex", "qc.mds_lon_to_xindex", "qc.xindex_to_lon"], pre=lambda a: a.i < n_of(360, a.res),
    spec=lambda a: [a.i, a.i])
