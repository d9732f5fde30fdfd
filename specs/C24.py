"""C24: blacklists and generic identifiers."""
from .common import *

CONTRACTS = Specs()
add = CONTRACTS.add

# Deck 732: suspect regions (west, south, east, north) ...
REGION = {
    1: (-175, 40, -170, 55),
    2: (-165, 40, -160, 60),
    3: (-145, 40, -140, 50),
    4: (-140, 30, -135, 40),
    5: (-140, 50, -130, 55),
    6: (-70, 35, -60, 40),
    7: (-50, 45, -40, 50),
    8: (5, 70, 10, 80),
    9: (0, -10, 10, 0),
    10: (-30, -25, -25, -20),
    11: (-60, -50, -55, -45),
    12: (75, -20, 80, -15),
    13: (50, -30, 60, -20),
    14: (30, -40, 40, -30),
    15: (20, 60, 25, 65),
    16: (0, -40, 10, -30),
    17: (-135, 30, -130, 40),
}
# ... and the years in which each is excluded (Rayner et al. 2006, Kennedy et al. 2011)
YEARS = {
    1958: [1, 2, 3, 4, 5, 6, 14, 15],
    1959: [1, 2, 3, 4, 5, 6, 14, 15],
    1960: [1, 2, 3, 5, 6, 9, 14, 15],
    1961: [1, 2, 3, 5, 6, 14, 15, 16],
    1962: [1, 2, 3, 5, 12, 13, 14, 15, 16],
    1963: [1, 2, 3, 5, 6, 12, 13, 14, 15, 16],
    1964: [1, 2, 3, 5, 6, 12, 13, 14, 16],
    1965: [1, 2, 6, 10, 12, 13, 14, 15, 16],
    1966: [1, 2, 6, 9, 14, 15, 16],
    1967: [1, 2, 5, 6, 9, 14, 15],
    1968: [1, 2, 3, 5, 6, 9, 14, 15],
    1969: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16],
    1970: [1, 2, 3, 4, 5, 6, 8, 9, 14, 15],
    1971: [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 16],
    1972: [4, 7, 8, 9, 10, 11, 13, 16, 17],
    1973: [4, 7, 8, 10, 11, 13, 16, 17],
    1974: [4, 7, 8, 10, 11, 16, 17],
}
# drifters with biased SST in November 2005 to January 2006
BIASED = ("53521 53522 53566 53567 53568 53571 53578 53580 53582 53591 53592 53593 53594 53595 53596 53599 53600 53601 "
          "53602 53603 53604 53605 53606 53607 53608 53609 53901 53902").split()

DECK = OneOf(Const(732), Int(0, 999, extra=(732, 874, 731, 733)))
LON = Real(-180, 360, extra=(0, 180, 360, -175, 185, 190, 195, 200, 5, 365))
LAT = Real(-90, 90, extra=(0,))
ID = Str("SUPERIGORINA", "53521    ", "53902    ", "53579    ", "53521", "SHIP     ", "")
ARGS = dict(id=Opt(ID), deck=DECK, year=Int(1850, 2024, extra=(1958, 1974, 2005, 2006)), month=Int(1, 12, extra=(11, 12, 1)),
            lat=LAT, lon=LON, pt=Opt(Int(0, 30, extra=(13,))))


def inregion(lon, lat, k):
    w, s, e, n = REGION[k]
    return And(lon >= w, lon <= e, lat >= s, lat <= n)


def black(a):
    lon = Ite(a.lon > 180, a.lon - 360, a.lon)
    def box(y):
        return Or(*[inregion(lon, a.lat, k) for k in YEARS[y]])
    biased = False
    if a.id is not None:
        biased = And(Or(And(a.year == 2005, a.month >= 11), And(a.year == 2006, a.month == 1)),
                     Or(*[a.id == i + "    " for i in BIASED]))
    return b(Or(And(a.lat == 0, lon == 0), a.pt is not None and a.pt == 13, a.id is not None and a.id == "SUPERIGORINA",
                And(a.deck == 732, Or(*[And(a.year == y, box(y)) for y in YEARS])), a.deck == 874, biased))


def run(W, a):
    return W.qc.blacklist(a.id, a.deck, a.year, a.month, a.lat, a.lon, a.pt)


add("blacklist", ARGS, run, ["qc.blacklist"], spec=black, samples=3000)
NEAR = Fn(lambda E, n: E.real("a." + n), lambda rng, pool: 0.0)
REGPOINT = Fn(lambda E, n: [E.real("a.lon"), E.real("a.lat")],
              lambda rng, pool: (lambda w, s, e, n: [rng.choice([w, e, (w + e) / 2., w - .5, e + .5]) +
                                                      rng.choice([0, 0, 360 if w < 0 else 0]),
                                                      rng.choice([s, n, (s + n) / 2., s - .5, n + .5])])(
                  *rng.choice(list(REGION.values()))))


def deck732(a):
    return black(NS(id="ABC", deck=732, year=a.year, month=1, lat=a.p[1], lon=a.p[0], pt=None))


add("blacklist, deck 732", dict(p=REGPOINT, year=Int(1955, 1976)),
    lambda W, a: W.qc.blacklist("ABC", 732, a.year, 1, a.p[1], a.p[0], None), ["qc.blacklist"],
    pre=lambda a: And(a.p[0] >= -180, a.p[0] <= 360, a.p[1] >= -90, a.p[1] <= 90), spec=deck732, samples=3000)

def west(a):
    return And(a.lon > 180, a.lon <= 360)


add("lemma: a longitude east of 180 counts as its western equivalent", ARGS,
    lambda W, a: [run(W, a), run(W, NS(**dict(a.__dict__, lon=a.lon - 360)))], ["qc.blacklist"], pre=west,
    post=lambda a, r: r[0] == r[1])
add("blacklist, platform type by default", dict((k, v) for k, v in ARGS.items() if k != "pt"),
    lambda W, a: W.qc.blacklist(a.id, a.deck, a.year, a.month, a.lat, a.lon), ["qc.blacklist"],
    spec=lambda a: black(NS(**dict(a.__dict__, pt=1))))

GENERIC = ["1        ", "58       ", "RIGG     ", "     RIGG", "SHIP     ", "ship     ", "     SHIP", "PLAT     ",
           "     PLAT", "         ", "0120     ", "0204     ", "0205     ", "0206     ", "0207     ", "0208     ",
           "0209     ", "MASKST   ", "MASKSTID ", "MASK     ", "XXXX     ", "/////    "]
DATED = [("2        ", 1921, 1941), ("00002    ", 1921, 1941), ("3        ", 1930, 1937), ("7        ", 1934, 1954),
         ("00007    ", 1934, 1954)]


def generic(a):
    if a.id is None:
        return True
    return Or(*([a.id == g for g in GENERIC] +
                [And(a.id == g, a.year >= lo, a.year <= hi) for g, lo, hi in DATED]))


add("id_is_generic", dict(id=Opt(Str(*(GENERIC + [d[0] for d in DATED] + ["", "2", "ABC      "]))),
                          year=Int(1850, 2024, extra=(1920, 1921, 1941, 1942, 1930, 1937, 1934, 1954, 1955))),
    lambda W, a: W.qc.id_is_generic(a.id, a.year), ["qc.id_is_generic"], spec=generic, samples=3000)
