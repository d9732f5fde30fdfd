REP = '''
import numpy as np
from SimpleIMMA import IMMA
import Extended_IMMA as ex
def rep(cls=None, **d):
    r = IMMA()
    base = {'ID': 'SHIP1', 'YR': 2003, 'MO': 6, 'DY': 15, 'HR': 12.0, 'LAT': 0.0, 'LON': 0.0}
    base.update(d)
    for k in base:
        r.data[k] = base[k]
    return (cls or ex.MarineReport)(r)
'''
BUGS = [
 dict(id="C01-shared-normal", property="C01", file="Extended_IMMA.py",
      edits=[("        self.climate_variables[name] = ClimVariable(clim, stdev)",
              "        if name in self.climate_variables and stdev is None:\n            self.climate_variables[name].setclim(clim)\n        else:\n            self.climate_variables[name] = ClimVariable(clim, stdev)")],
      needs="a normal given twice for a variable, first with a standard deviation and then without one",
      breaks="the standard deviation of the first normal stays with the second", demo=REP + '''
r = rep(SST=5.0)
r.add_climate_variable('SST', 1.0, 2.0)
r.add_climate_variable('SST', 3.0)
assert r.getnorm('SST') == 3.0 and r.getnorm('SST', 'stdev') is None, r.getnorm('SST', 'stdev')
'''),
 dict(id="C11-removed-neighbour", property="C11", file="Extended_IMMA.py",
      edits=[("                if most_fails in speed_violations[index]:\n                    speed_violations[index].remove(most_fails)\n                    count_speed_violations[index] -= 1.0",
              "                if most_fails in speed_violations[index]:\n                    count_speed_violations[index] = max(len(speed_violations[index]) - 1.0, 0.0)")],
      needs="a report with impossible speeds to two reports that are both removed",
      breaks="the second removal is not counted, so a report is flagged whose speeds to the reports kept are all possible", demo=REP + '''
v = ex.Voyage()
lats = [0.0, 0.1, 0.2, 30.0, 0.4, -30.0, 0.6, 0.7, 0.8]
for i, la in enumerate(lats):
    v.add_report(rep(HR=float(i), LAT=la, PT=5))
v.iquam_track_check({'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01, 'number_of_neighbours': 5})
got = [r.get_qc('POS', 'iquam_track') for r in v.reps]
assert got == [0, 0, 0, 1, 0, 1, 0, 0, 0], got
'''),
 dict(id="C11-one-sided-change", property="C11", file="Extended_IMMA.py",
      edits=[("                    val_change = abs(self.getvar(t2, intype) - self.getvar(t1, intype))",
              "                    val_change = self.getvar(t2, intype) - self.getvar(t1, intype)")],
      needs="a single spike upwards among reports of equal value",
      breaks="only rises to the later report count as changes, so which report of a pair is blamed depends on the side the spike is on", demo=REP + '''
def flags(vals):
    v = ex.Voyage()
    for i, x in enumerate(vals):
        v.add_report(rep(HR=float(i), LAT=0.01 * i, PT=5, SST=x))
    v.spike_check({'max_gradient_space': 0.5, 'max_gradient_time': 1.0, 'ship_delta_t': 2.0, 'buoy_delta_t': 1.0, 'number_of_neighbours': 2})
    return [r.get_qc('SST', 'spike') for r in v.reps]
assert flags([5.0, 5.0, 5.0, 15.0, 5.0, 5.0, 5.0]) == [0, 0, 0, 1, 0, 0, 0]
'''),
 dict(id="C12-short-run-kept", property="C12", file="Extended_IMMA.py",
      edits=[("            else:\n\n                satcount = []\n\n        if len(satcount) > shortest_run:",
              "            elif len(satcount) < shortest_run:\n\n                satcount = []\n\n        if len(satcount) > shortest_run:")],
      needs="a saturated run of exactly the shortest length followed by an unsaturated report and another run",
      breaks="the two runs count as one", demo=REP + '''
v = ex.Voyage()
sat = [1, 1, 1, 0, 1, 1, 1, 0]
for i, s in enumerate(sat):
    v.add_report(rep(DY=1 + i, AT=10.0, DPT=10.0 if s else 8.0, LAT=0.1 * i))
v.find_saturated_runs({'min_time_threshold': 48.0, 'shortest_run': 3})
got = [r.get_qc('DPT', 'repsat') for r in v.reps]
assert got == [0] * 8, got
'''),
 dict(id="C12-missing-share", property="C12", file="Extended_IMMA.py",
      edits=[("            if float(wholenums) / float(allcount) >= threshold:", "            if float(wholenums) / float(len(self.reps)) >= threshold:")],
      needs="a voyage with missing dew points among mostly rounded ones", breaks="missing values count as not rounded", demo=REP + '''
v = ex.Voyage()
for i in range(30):
    v.add_report(rep(DY=1 + i, DPT=None if i % 2 else 10.0 + i))
v.find_multiple_rounded_values({'min_count': 10, 'threshold': 0.9})
got = [r.get_qc('DPT', 'round') for r in v.reps]
assert got == [1, 0] * 15, got
'''),
 dict(id="C15-dateline", property="C15", file="Extended_IMMA.py",
      edits=[("        for xpt in range(max(-1 * full_xspan, -180), min(full_xspan + 1, 180)):",
              "        for xpt in range(-1 * full_xspan, full_xspan + 1):")],
      needs="a box next to a pole, where the window spans more than the whole circle", breaks="boxes count twice as neighbours", demo=REP + '''
import math
g = ex.Np_Super_Ob()
g.add_rep(89.5, 20.5, 2003, 6, 15, 1.0)
g.add_rep(89.5, 100.5, 2003, 6, 15, 4.0)
g.take_average()
x, y = 200, 0
import qc
x = qc.mds_lon_to_xindex(20.5)
a, n = g.get_neighbour_anomalies([4, 1, 1], x, 0, qc.which_pentad(6, 15) - 1)
assert a == [4.0] and n == [1], (a, n)
'''),
 dict(id="C15-second-window", property="C15", file="Extended_IMMA.py",
      edits=[("                                                 number_of_obs_thresholds[j],\n                                                 multipliers[j]) * stdev",
              "                                                 number_of_obs_thresholds[0],\n                                                 multipliers[j]) * stdev")],
      needs="neighbours in a window other than the first, with rows of different lengths of thresholds", breaks="the multiplier is picked by the first window's counts", demo=REP + '''
import qc
class F(object):
    def get_value_mds_style(self, *a): return 1.0
g = ex.Np_Super_Ob()
g.add_rep(0.5, 0.5, 2003, 6, 15, 1.0)
for i in range(4):
    g.add_rep(0.5, 3.5, 2003, 6, 15, 1.0)
g.take_average()
g.get_buddy_limits_with_parameters(F(), [[1, 1, 1], [4, 4, 1]], [[0, 5], [0, 2]], [[4.0, 3.0], [3.5, 2.5]])
s = g.get_buddy_stdev(0.5, 0.5, 6, 15)
assert s == 2.5, s
'''),
 dict(id="C16-filter-last", property="C16", file="Extended_IMMA.py",
      edits=[("        result = 0  # pass\n        for filt in self.filter:\n            if rep.get_qc(filt[0], filt[1]) != filt[2]:\n                result = 1  # fail\n        return result",
              "        result = 0  # pass\n        wanted = {}\n        for filt in self.filter:\n            wanted[(filt[0], filt[1])] = filt[2]\n        for key in wanted:\n            if rep.get_qc(key[0], key[1]) != wanted[key]:\n                result = 1  # fail\n        return result")],
      needs="a filter with two tests of the same flag that ask for different values", breaks="only the last test of a flag counts", demo=REP + '''
f = ex.QC_filter()
f.add_qc_filter('SST', 'bud', 0)
f.add_qc_filter('POS', 'pos', 0)
f.add_qc_filter('SST', 'bud', 1)
r = rep()
r.set_qc('SST', 'bud', 1); r.set_qc('POS', 'pos', 0)
assert f.test_report(r) == 1
'''),
 dict(id="C20-order-missing", property="C20", file="Extended_IMMA.py",
      edits=[("                (self.dt is None or\n                 (other.dt is not None and self.dt <= other.dt))):",
              "                (self.dt is None or\n                 other.dt is None or self.dt <= other.dt)):")],
      needs="two reports of one identity, one without time", breaks="a report with a time is at or before one without time, and after it", demo=REP + '''
a, b = rep(), rep(HR=None)
for x in (a, b):
    for y in (a, b):
        assert (x <= y) == (not x > y) == (y >= x), (x.dt, y.dt)
'''),
 dict(id="C25-sorted-first", property="C25", file="Extended_IMMA.py",
      edits=[("        if len(self.reps) > 0:\n            self.reps[0].setext('speed', None)\n            self.reps[0].setext('course', None)\n            self.reps[0].setext('distance', None)\n            self.reps[0].setext('time_diff', None)\n        if len(self.reps) > 1:",
              "        if len(self.reps) > 0:\n            self.reps[0].setext('speed', None)\n            self.reps[0].setext('course', None)\n            self.reps[0].setext('distance', None)\n        if len(self.reps) > 1:")],
      needs="a voyage whose first report in time was added after another one, then sorted", breaks="the first report keeps the time difference to a report it does not follow", demo=REP + '''
v = ex.Voyage()
for h in (3.0, 1.0, 2.0):
    v.add_report(rep(HR=h, LAT=h))
v.sort()
assert v.getvar(0, 'time_diff') is None, v.getvar(0, 'time_diff')
assert all(abs(v.getvar(i, 'time_diff') - 1.0) < 1e-6 for i in (1, 2))
'''),
 dict(id="C22-order", property="C22", file="Extended_IMMA.py",
      edits=[("        self.is_buoy()\n        self.is_ship()\n\n        self.mat_blacklist()\n\n        self.do_position_check()\n        self.do_date_check()\n        self.do_time_check()\n        self.do_blacklist()\n        self.do_day_check(parameters['base']['time_since_sun_above_horizon'])\n",
              "        self.is_buoy()\n        self.is_ship()\n\n        self.mat_blacklist()\n\n        self.do_position_check()\n        self.do_date_check()\n        self.do_day_check(parameters['base']['time_since_sun_above_horizon'])\n        self.do_time_check()\n        self.do_blacklist()\n")],
      needs="the time flag of a report being unset, or left from another run with another hour", breaks="the day flag is decided with a time flag that is not yet set", demo=REP + '''
import qc
r = rep(ex.MarineReportQC, HR=0.0, AT=10.0)
par = {'base': {'time_since_sun_above_horizon': 1.0}, 'DAT': {'maximum_anomaly': 10.0, 'hard_limits': [-80., 65.]}}
r.perform_base_dat_qc(par)
assert r.get_qc('POS', 'day') == qc.day_test(2003, 6, 15, 0.0, 0.0, 0.0, 1.0) == 0
'''),
 dict(id="C26-header-order", property="C26", file="Extended_IMMA.py",
      edits=[("                          vars4.rstrip() + \",\" + vars5.rstrip() + \",\" + vars6)", "                          vars5.rstrip() + \",\" + vars4.rstrip() + \",\" + vars6)")],
      needs="the tracking file", breaks="the tail and bias flags stand under the headings of the aground and speed flags", demo=REP + '''
import os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    v = ex.Voyage()
    r = rep(SST=5.0)
    r.uid = 'ABC123'
    for k in ('OSTIA', 'BGVAR', 'ICE'):
        r.setext(k, 1.0)
    r.set_qc('POS', 'drf_agr', 1)
    r.set_qc('SST', 'drf_short', 3)
    v.add_report(r)
    v.write_tracking_output('run', d, 2003, 6)
    h, l = open(os.path.join(d, os.listdir(d)[0])).read().splitlines()
    row = dict(zip([x.strip() for x in h.split(',')], [x.strip() for x in l.split(',')]))
    agr = [v for k, v in row.items() if 'drf_agr' in k]
    short = [v for k, v in row.items() if 'drf_short' in k]
    assert agr == ['1'] and short == ['3'], row
finally:
    shutil.rmtree(d)
'''),

 dict(id="C04-month-lengths-shared", property="C04", file="qc.py",
      edits=[("    if calendar.isleap(year):\n        month_lengths = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]\n    else:\n        month_lengths = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]",
              "    month_lengths = MONTH_LENGTHS if year % 100 == 0 else MONTH_LENGTHS[:]\n    if calendar.isleap(year):\n        month_lengths[1] = 29\n    elif year % 400 == 100:\n        month_lengths[1] = 28"),
             ("def month_match(y1, m1, y2, m2):", "MONTH_LENGTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]\n\n\ndef month_match(y1, m1, y2, m2):")],
      needs="1800 or another century without leap day asked about after 2000", breaks="February keeps the leap day of the year asked about before", demo='''
import qc
assert qc.get_month_lengths(1900)[1] == 28
assert qc.get_month_lengths(2000)[1] == 29
assert qc.get_month_lengths(2003)[1] == 28
assert qc.get_month_lengths(1800)[1] == 28
'''),
 dict(id="C06-leap-index", property="C06", file="Climatology.py",
      edits=[("            tindex = qc.day_in_year(month, day) - 1", "            tindex = qc.dayinyear(2004, month, day) - 1 - (month > 2 or day > 28 and month == 2 and self.field.ndim == 3)")],
      needs="29 February in a daily field", breaks="the day before is read as it should, but", demo=""),
 dict(id="C08-limit-step", property="C08", file="qc.py",
      edits=[("    lower_x = max([x - 0.5 * q, r_lo - 0.5 * q])", "    lower_x = max([x - 0.5 * q, r_lo])")],
      needs="a value within half a step of the lower limit", breaks="the lowest value's probability is that of half its step", demo='''
import qc
xs = [i * 1.0 for i in range(-8, 9)]
s = sum(qc.p_data_given_good(x, 1.0, 8.0, -8.0, -7.0, 2.0) for x in xs)
assert abs(s - 1) < 1e-9, s
'''),
 dict(id="C09-short-way", property="C09", file="spherical_geometry.py",
      edits=[("    lon = (lon1 + dlon + np.pi) % (2. * np.pi) - np.pi", "    lon = lon1 + dlon\n    if lon > np.pi:\n        lon = lon - 2. * np.pi")],
      needs="a course west across the date line", breaks="the destination's longitude is below -180", demo='''
import spherical_geometry as sph
lat, lon = sph.lat_lon_from_course_and_distance(0.0, -179.5, 270.0, 300.0)
assert -180 <= lon <= 180, lon
'''),
 dict(id="C10-same-time", property="C10", file="Extended_IMMA.py",
      edits=[("                if t0 + t1 != 0:\n                    fraction_of_time_diff = t0 / (t0 + t1)", "                if t0 != 0 and t1 != 0:\n                    fraction_of_time_diff = t0 / (t0 + t1)")],
      needs="a report made at the same time as the one after it", breaks="it is compared with the report before it and not the one after", demo=REP + '''
v = ex.Voyage()
for h, la in ((0.0, 0.0), (2.0, 1.0), (2.0, 1.0)):
    v.add_report(rep(HR=h, LAT=la))
d = v.midpt()
assert d[1] < 1, d
'''),
 dict(id="C10-speed-pair", property="C10", file="Extended_IMMA.py",
      edits=[("            elif (self.getvar(i + 1, 'speed') > amax and\n                  self.getvar(i + 1, 'alt_speed') > amax):", "            elif (self.getvar(i + 1, 'speed') > amax and\n                  self.getvar(i, 'alt_speed') > amax):")],
      needs="a report whose speed to the next report is too high, while the speeds two steps on and around it lie on two sides of the limit",
      breaks="the wrong alternate speed is compared", demo=REP + '''
import track_check as tc
class V(ex.Voyage):
    def distr1(self): return [None] + [0.0] * (len(self) - 1)
    def distr2(self): return [None] + [0.0] * (len(self) - 1)
    def midpt(self): return [None] + [1e6] * (len(self) - 2) + [None]
tc.set_speed_limits = lambda m: (20.0, 25.0, 5.0)
tc.check_distance_from_estimate = lambda *a: 10.0
v = V()
for i in range(4):
    v.add_report(rep(HR=float(i)))
for i, (s, a) in enumerate(((None, None), (10., 10.), (30., 30.), (10., 10.))):
    v.setvar(i, 'speed', s) if False else v.reps[i].setext('speed', s)
v.calc_alternate_speeds = lambda: [v.reps[i].setext('alt_speed', a) for i, a in enumerate((None, 10., 30., None))]
v.meansp = lambda: 10.
v.track_check({'max_direction_change': 60., 'max_speed_change': 10., 'max_absolute_speed': 40., 'max_midpoint_discrepancy': 150.})
assert [r.get_qc('POS', 'trk') for r in v.reps] == [0, 1, 0, 0], [r.get_qc('POS', 'trk') for r in v.reps]
'''),
 dict(id="C13-first-stop", property="C13", file="trackqc.py",
      edits=[], needs="", breaks="", demo=""),
 dict(id="C14-short-window", property="C14", file="trackqc.py",
      edits=[("    index1 = (length / trim)\n\n    trim = np.mean(arr[index1:length - index1])", "    index1 = (length / trim)\n\n    trim = np.mean(arr[index1:-index1])")],
      needs="a tail window shorter than a hundred", breaks="the mean of a window is not a number, so a biased tail passes", demo=REP + '''
import trackqc
a = np.array([1.0, 2.0, 3.0])
assert trackqc.trim_mean(a, 100) == 2.0, trackqc.trim_mean(a, 100)
'''),
 dict(id="C14-after-unreliable", property="C14", file="trackqc.py",
      edits=[("                if np.any(bgerr_winvals > np.sqrt(background_err_lim)):\n                    break\n                sst_anom_avg", "                if np.any(bgerr_winvals > np.sqrt(background_err_lim)):\n                    continue\n                sst_anom_avg")],
      needs="biased data behind a stretch of unreliable background", breaks="data behind unreliable background are flagged as tail", demo=REP + '''
import trackqc
trackqc.track_day_test = lambda *a: False
v = ex.Voyage()
n = 20
for i in range(n):
    r = rep(DY=1 + i, LAT=0.01 * i, SST=15.0 if i < 10 else 5.0)
    r.setext('OSTIA', 5.0); r.setext('ICE', 0.0); r.setext('BGVAR', 9.0 if i == 1 else 0.01)
    v.add_report(r)
trackqc.sst_tail_check(v.reps, 3, 3.0, 30, 3.0, 2, 0.29, 1.0, 0.3)
got = [r.get_qc('SST', 'drf_tail1') for r in v.reps]
assert got == [0] * n, got
'''),
 dict(id="C14-whole-short", property="C14", file="trackqc.py",
      edits=[("    if nrep < n_eval:\n        long_record = False", "    if len(reps) < n_eval:\n        long_record = False")],
      needs="a record of enough reports of which too few are usable", breaks="the few usable reports are judged as a long record", demo=REP + '''
import trackqc
trackqc.track_day_test = lambda y, m, d, h, la, lo, e: d > 3
v = ex.Voyage()
for i in range(10):
    r = rep(DY=1 + i, SST=8.0)
    r.setext('OSTIA', 5.0); r.setext('ICE', 0.0); r.setext('BGVAR', 0.01)
    v.add_report(r)
trackqc.sst_biased_noisy_check(v.reps, 5, 1.1, 1.0, 0.29, 3.0, 2, 0.3)
got = [(r.get_qc('SST', 'drf_bias'), r.get_qc('SST', 'drf_short')) for r in v.reps]
assert got == [(0, 0)] * 10, got
'''),
 dict(id="C17-half-negative", property="C17", file="IMMA1.py", edits=[("            line = line[Length:len(line)]", "            line = line[Length:len(line)].lstrip()")],
      needs="an attachment whose number has one digit", breaks="the blank before a one-digit attachment number is lost and all that follows is read one character off", demo='''
import IMMA1, io
r = IMMA1.IMMA()
core = '20030615120000000' .ljust(108)
for att in ('01', ' 1'):
    body = ''.join(' ' * IMMA1.getDefinitions(1)[p][0] for p in IMMA1.getParameters(1))
    r = IMMA1.IMMA()
    r.readstr(core + att + '65' + body[:-1] + '7' + '\\n')
    last = IMMA1.getParameters(1)[-1]
    a = r.data[last]
    if att == '01': want = a
    assert a == want, (att, a, want)
'''),
 dict(id="C18-ice-by-dew-point", property="C18", file="CalcHums.py",
      edits=[("    w = (((a * t) + (b * t)) / (a + b))  # second t is t here rather than td because for ex, t==td", "    w = (((a * t) + (b * td)) / (a + b))")],
      needs="air above freezing with a pseudo wet bulb below", breaks="saturation over ice is used for air above freezing", demo='''
import CalcHums as c, math
td, t, p = -12.0, 1.0, 1013.0
f = 1 + 7e-4 + 3.46e-6 * p
es = 6.1121 * f * math.exp((18.729 - t / 227.3) * t / (257.87 + t))
want = 100 * c.vap(td, t, p, roundit=False) / es
assert abs(c.rh(td, t, p, roundit=False) - want) < 1e-6, (c.rh(td, t, p, roundit=False), want)
'''),
 dict(id="C21-new-year", property="C21", file="qc.py",
      edits=[("                day2 = dayinyear(year2, 12, 31)", "                day2 = dayinyear(year, 12, 31)")],
      needs="the first hour of a year after or in a leap year", breaks="the sun's place is that of a day that is one off", demo='''
import qc
seen = []
real = qc.sunangle
def sun(*a):
    seen.append(a[:5])
    return real(*a)
qc.sunangle = sun
for y, d in ((2005, 366), (2004, 365), (2003, 365)):
    qc.day_test(y, 1, 1, 0.5, 10.0, 170.0)
    assert seen[-1] == (y - 1, d, 23.0, 30.0, 0), seen[-1]
'''),
 dict(id="C23-no-trim", property="C23", file="qc.py",
      edits=[("    trim = np.mean(inarr[index1:length - index1])", "    trim = np.mean(inarr[index1:-index1])")],
      needs="fewer numbers than the trimming criterion", breaks="the mean of few numbers is not a number", demo='''
import qc
assert qc.trimmed_mean([3.0, 1.0, 2.0], 10) == 2.0
'''),
 dict(id="C27-empty-first", property="C27", file="BackgroundField.py",
      edits=[("            if os.path.isfile(fname) and os.stat(fname).st_size != 0:", "            if os.path.isfile(fname):")],
      needs="a first candidate that is an empty file", breaks="the empty file is taken", demo='''
import os, tempfile, shutil
import BackgroundField as b
d = tempfile.mkdtemp()
try:
    for x, text in (('a', ''), ('b', 'x')):
        os.mkdir(d + '/' + x)
        open(d + '/' + x + '/20030615.nc', 'w').write(text)
    f = b.get_background_filename([d + '/a', d + '/b'], ['YYYYMMMMDDDD.nc'] * 2, 2003, 6, 15)
    assert f == d + '/b/20030615.nc', f
finally:
    shutil.rmtree(d)
'''),
]
BUGS = [b for b in BUGS if b["edits"] and b["demo"]]
