CHAIN = '''
import csv, io, os, sys, types
import tracking_qc as t
import qc

FLAGS = {'POS': ['isbuoy', 'date', 'time', 'pos', 'blklst'], 'SST': ['clim', 'nonorm', 'freez', 'noval', 'rep', 'hardlimit', 'bbud']}
LOG = []

class Rep(object):
    def __init__(self, rec):
        self.uid, self.flags = rec, {}
    def getvar(self, n):
        return self.uid
    def setext(self, n, v):
        pass
    def set_qc(self, a, b, v):
        self.flags[a, b] = v
    def get_qc(self, a, b):
        return self.flags.get((a, b), 9)

def run(months, edge='regular', outcome=lambda check, uid: [0, 0]):
    """the checks and outputs of a run; months: {(2003, 6): [(uid, {flag: value})]}"""
    del LOG[:]
    sets = {'new_buoy_aground_check': [('POS', 'drf_agr')], 'new_buoy_speed_check': [('POS', 'drf_spd')],
            'buoy_tail_check': [('SST', 'drf_tail1'), ('SST', 'drf_tail2')], 'buoy_bias_noise_check': [('SST', 'drf_bias')]}
    class Voyage(object):
        def __init__(self):
            self.reps = []
        def __len__(self):
            return len(self.reps)
        def add_report(self, r):
            self.reps.append(r)
        def sort(self):
            pass
        def write_tracking_output(self, *a):
            LOG.append(('write', [r.uid for r in self.reps]) + a)
        def __getattr__(self, n):
            if n not in sets:
                raise AttributeError(n)
            def f(*a):
                LOG.append((n, [r.uid for r in self.reps]))
                for r in self.reps:
                    for k, v in zip(sets[n], outcome(n, r.uid)):
                        r.set_qc(k[0], k[1], v)
            return f
    files = {}
    for (y, m), reps in months.items():
        head = '/out/%d/%02d/' % (y, m)
        tail = '_%d%02d_ABC      _R.csv' % (y, m)
        hs = ['UID'] + ['x%d' % i for i in range(15)] + ['OSTIA', 'ICE', 'BGVAR']
        files[head + 'Variables' + tail] = [hs] + [[u] + ['1.0'] * 18 for u, f in reps]
        for g in 'POS', 'SST':
            files[head + g + '_qc' + tail] = [['UID'] + FLAGS[g]] + [
                [u] + [str(f.get(k, 1 if k == 'isbuoy' else 0)) for k in FLAGS[g]] for u, f in reps]
    text = dict((k, u''.join(','.join(r) + '\\n' for r in v)) for k, v in files.items())
    def opened(n, mode='r'):
        if n == 'parameter_file':
            return io.StringIO()
        return io.StringIO(text[n])
    t.open = opened
    import Extended_IMMA as ex
    t.ex = types.SimpleNamespace(MarineReportQC=Rep, QC_filter=ex.QC_filter, Voyage=Voyage, safe_filename=ex.safe_filename)
    t.EasyImma = lambda line: line['UID']
    class Pars(dict):
        def __missing__(self, k):
            return k
    t.json = types.SimpleNamespace(load=lambda f: Pars(runid='R'))
    class Config(object):
        def read(self, f):
            pass
        def get(self, a, b):
            return {'out_dir': '/out', 'track_out_dir': '/trk'}.get(b, b)
    t.ConfigParser = types.SimpleNamespace(ConfigParser=Config)
    t.safe_make_tracking_dir = lambda o, y, m: '%s/%d/%d' % (o, y, m)
    t.safe_make_edge_dir = lambda o, y, m, e, r: '%s/%d/%d/%s/%s' % (o, y, m, e, r)
    isfile = os.path.isfile
    os.path.isfile = lambda n: n in files
    ym = sorted(months)
    old = sys.argv
    sys.argv = ['prog', '-id', 'ABC', '-yr1', str(ym[0][0]), '-mn1', str(ym[0][1]), '-yr2', str(ym[-1][0]), '-mn2', str(ym[-1][1]),
                '-runmonthid', 'RM', '-edge'] + edge.split()
    try:
        t.main(sys.argv[1:])
    finally:
        sys.argv = old
        os.path.isfile = isfile
    return LOG
'''
WRAP = '''
import io, sys, types
import Tracking_QC_wrapper as w

def run(ids, argv):
    """the chunks submitted; ids: {(2003, 6): [lines]}"""
    out = []
    class Pars(dict):
        pass
    w.json = types.SimpleNamespace(load=lambda f: {'runid': 'R'})
    class Config(object):
        def read(self, f):
            pass
        def get(self, a, b):
            return {'out_dir': '/out', 'track_out_dir': '/trk'}.get(b, b)
    w.ConfigParser = types.SimpleNamespace(ConfigParser=Config)
    def opened(n, mode='r'):
        if n == 'parameter_file':
            return io.StringIO()
        for (y, m), l in ids.items():
            if '/%d/%02d/' % (y, m) in n:
                return io.StringIO(u''.join(x + '\\n' for x in l))
        return io.StringIO()
    w.open = opened
    w.write_submission = lambda *a: out.append(a)
    old = sys.argv
    sys.argv = ['prog'] + argv.split()
    try:
        w.main(sys.argv[1:])
    finally:
        sys.argv = old
    return out
'''
BUGS = [
 dict(id="C29-flags-of-earlier-month", property="C29", file="tracking_qc.py",
      edits=[("        count += nrep\n", "        count = nrep\n")],
      needs="data in three months or more",
      breaks="from the third month on the flags are put on reports of another month (or the run ends: UIDs differ)", demo=CHAIN + '''
months = dict(((2003, m), [('U%d%d' % (m, i), {}) for i in range(2)]) for m in (6, 7, 8))
log = run(months)
assert log[0] == ('new_buoy_aground_check', ['U60', 'U61', 'U70', 'U71', 'U80', 'U81']), log
'''),
 dict(id="C29-tail-sees-aground", property="C29", file="tracking_qc.py",
      edits=[("    filt.add_qc_filter('POS', 'drf_agr', 0)  # remove obs failing preceding track checks\n    filt.add_qc_filter('POS', 'drf_spd', 0)  # remove obs failing preceding track checks\n    v_filt",
              "    filt.add_qc_filter('POS', 'drf_spd', 0)  # remove obs failing preceding track checks\n    v_filt")],
      needs="a report found aground but not picked up",
      breaks="the tail check sees reports of a buoy that lies on the beach", demo=CHAIN + '''
log = run({(2003, 6): [('U1', {}), ('U2', {})]}, outcome=lambda c, u: [1 if c == 'new_buoy_aground_check' and u == 'U2' else 0, 0])
assert ('buoy_tail_check', ['U1']) in log, log
'''),
 dict(id="C29-both-edges", property="C29", file="tracking_qc.py",
      edits=[("    if 'end_edge_case' in edge:\n", "    elif 'end_edge_case' in edge:\n")],
      needs="a chunk near both the start and the end of the series",
      breaks="its outcome is not written among the end cases", demo=CHAIN + '''
log = run({(2003, 6): [('U1', {})]}, 'start_edge_case end_edge_case')
w = [x for x in log if x[0] == 'write']
assert len(w) == 2 and 'end_edge_case' in w[1][3], log
'''),
 dict(id="C29-second-listing-lost", property="C29", file="Tracking_QC_wrapper.py",
      edits=[("                id_dictionary[columns[0]] = ym.YMCounter(y1, m1, y2, m2)\n                id_dictionary[columns[0]].setym(year, month, 1)\n",
              "                id_dictionary[columns[0]] = ym.YMCounter(year, month, y2, m2)\n                id_dictionary[columns[0]].setym(year, month, 1)\n")],
      needs="an identity that is first listed after the first month",
      breaks="a chunk that starts well inside the series counts as one that starts at its edge", demo=WRAP + '''
got = run({(2003, 6): ['ABC,1'], (2003, 7): ['ABC,1']}, '-yr1 2003 -mn1 1 -yr2 2003 -mn2 12 -gap 3 -edge standard')
assert [x[1:6] for x in got] == [('ABC', 2003, 6, 2003, 7)], got
'''),
]
