BUGS = [
 dict(id="C04-century", property="C04", file="qc.py",
      edits=[("    if calendar.isleap(year):", "    if year % 4 == 0 and year % 200 != 0:")],
      needs="a date in a year divisible by 200 that is a leap year (1600, 2000, 2400 is one of two) or not (1800)",
      breaks="2000 loses its 29 February: month lengths, day numbers and date checks are wrong in that year",
      demo='''
import qc, calendar
for y in range(1800, 2101):
    assert list(qc.get_month_lengths(y)) == [calendar.monthrange(y, m)[1] for m in range(1, 13)], y
'''),
 dict(id="C05-south-pole", property="C05", file="qc.py",
      edits=[("        if yindex >= 180 / res:\n            yindex = int(180 / res - 1)", "        if yindex > 180 / res:\n            yindex = int(180 / res - 1)")],
      needs="exactly the South Pole on a grid that is not 1 degree", breaks="the index is one past the last row",
      demo='''
import qc
for res in (0.25, 0.5, 2, 5):
    for lat in (-90.0, -89.99, 0.0, 90.0):
        assert 0 <= qc.lat_to_yindex(lat, res) < 180 / res, (lat, res)
'''),
 dict(id="C07-west-edge", property="C07", file="qc.py",
      edits=[("    if x1 > lon:\n        x1 -= 360.", "    if x1 >= lon:\n        x1 -= 360.")],
      needs="a longitude exactly at the centre of a grid box", breaks="the point to the west is put a whole turn away, so the weights are wrong",
      demo='''
import qc
for lon in (-179.5, -10.5, 0.5, 20.25, 179.5):
    for lat in (0.5, 10.25, 88.5):
        x1, x2, y1, y2 = qc.get_four_surrounding_points(lat, lon)
        assert x1 <= lon <= x2 and x2 - x1 <= 1, (lon, x1, x2)
'''),
 dict(id="C10-only-previous", property="C10", file="track_check.py",
      edits=[("            while max(qcs) > 0 and repititions < 4:" if False else "        while max(qcs) > 0 and repititions < 4:", "        while max(qcs) > 0 and repititions < 3:")],
      needs="a voyage on which each pass of the track check brings out another bad report", breaks="only four passes are made",
      demo='''
import track_check as tc
calls = []
def one(v):
    calls.append(len(v))
    return [0] + [1] + [0] * (len(v) - 2)
tc.mds_track_check = one
import Extended_IMMA as ex
class R(object):
    def __sub__(self, o): return 0, 0, 0, 0
    def setext(self, *a): pass
    def set_qc(self, t, f, x): self.flag = x
v = ex.Voyage()
for i in range(9):
    v.add_report(R())
tc.mds_full_track_check(v)
assert calls == [9, 8, 7, 6, 5], calls
'''),
 dict(id="C19-month-alone", property="C19", file="YMCounter.py",
      edits=[("            if self.counter[i] == 1 and zeros < gap:\n                lastdata = i\n                zeros = 0",
              "            elif self.counter[i] == 1:\n                lastdata = i\n                zeros = 0")],
      needs="a chunk of a single month", breaks="the chunk has no end of its own",
      demo='''
import YMCounter
c = YMCounter.YMCounter(2000, 1, 2003, 12)
for y, m in ((2000, 6), (2002, 3), (2002, 4)):
    c.setym(y, m, 1)
assert c.get_chunks(12) == ([5, 26], [5, 27]), c.get_chunks(12)
'''),
 dict(id="C21-before-midnight", property="C21", file="qc.py",
      edits=[("            day2 = day2 - 1\n            if day2 <= 0:", "            day2 = day2 - 1\n            if day2 < 0:")],
      needs="a report in the first hour of 1 January", breaks="the day before is day 0 of the new year, and the sun is placed a year off",
      demo='''
import qc
calls = []
old = qc.sunangle
def spy(year, day, *a):
    calls.append((year, day))
    return old(year, day, *a)
qc.sunangle = spy
qc.day_test(2000, 1, 1, 0.5, 10.0, 175.0)
assert calls == [(1999, 365)], calls
'''),
 dict(id="C23-four", property="C23", file="qc.py",
      edits=[("    if length >= 4:\n        lower = (length / 4)", "    if length > 4:\n        lower = (length / 4)")],
      needs="exactly four values, one of them wild", breaks="the wild value is not winsorised",
      demo='''
import qc
assert qc.winsorised_mean([1.0, 2.0, 3.0, 1000.0]) == 2.5
'''),
 dict(id="C24-region-edge", property="C24", file="qc.py",
      edits=[("                if thisreg[0] <= inlon <= thisreg[2] and thisreg[1] <= inlat <= thisreg[3]:", "                if thisreg[0] <= inlon <= thisreg[2] and thisreg[1] <= inlat < thisreg[3]:")],
      needs="a deck 732 report exactly on the northern edge of a region", breaks="the report is not blacklisted",
      demo='''
import qc
assert qc.blacklist("X", 732, 1962, 3, 40.0, 45.0) == 0
assert qc.blacklist("X", 732, 1962, 3, -20.0, 55.0) == 1
assert qc.blacklist("X", 732, 1962, 3, -30.0, 55.0) == 1
'''),
]
