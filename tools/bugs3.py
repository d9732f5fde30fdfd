RUN = '''
import io, sys, types
import marine_qc as m

class Rec(object):
    """a record: its line is "ID YR MO DY" or does not read"""
    def __init__(self):
        self.data, self.seen = {}, []
    def readstr(self, line):
        if not line.strip():
            return
        self.seen.append(line.strip())
        w = line.split()
        self.data['ID'] = w[0]
        if len(w) < 4:
            raise ValueError(line)
        self.data.update(YR=int(w[1]), MO=int(w[2]), DY=int(w[3]), AT=1.0)

class Rep(object):
    def __init__(self, rec):
        self.rec, self.data, self.flags, self.norms = rec, dict(rec.data), {}, []
    def getvar(self, n):
        return self.data.get(n)
    def setvar(self, n, v):
        self.data[n] = v
    def lat(self):
        return 0.0
    def lon(self):
        return 0.0
    def setext(self, n, v):
        self.data['ext ' + n] = v
    def add_climate_variable(self, n, c, sd=None):
        self.norms.append(n)
    def calculate_humidity_variables(self, names):
        pass
    def perform_base_qc(self, p):
        pass
    def perform_base_sst_qc(self, p):
        pass
    def set_qc(self, a, b, v):
        self.flags[a, b] = v
    def get_qc(self, a, b):
        return self.flags.get((a, b), 1 if b in ('isship', 'month_match', 'isdrifter') else 0)

class Ship(object):
    def __init__(self, reps):
        self.reps = reps
    def __len__(self):
        return len(self.reps)
    def getrep(self, i):
        return self.reps[i]
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: LOG.append((n, [r.rec.seen for r in self.reps]) + a)

class Deck(object):
    def __init__(self):
        self.reps, self.filt = [], None
    def __len__(self):
        return len(self.reps)
    def append(self, r):
        self.reps.append(r)
    def add_filter(self, f):
        self.filt = f
    def ok(self):
        return [r for r in self.reps if self.filt is None or self.filt.test_report(r) == 0]
    def get_one_platform_at_a_time(self):
        for k in sorted(set(r.data['ID'] for r in self.ok())):
            yield Ship([r for r in self.ok() if r.data['ID'] == k])
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a: LOG.append((n, [(r.rec.seen, r.flags.get(('POS', 'month_match'))) for r in (self.reps if n.startswith('write') else self.ok())]) + a)

class Field(object):
    def __init__(self, f, v):
        self.f = f
    def get_value(self, *a):
        return 1.0
    get_value_mds_style = get_value_ostia = get_value

class Any(dict):
    def __missing__(self, k):
        return []

LOG = []

def run(m, files, argv, hook=None, bad=()):
    """the log of a run over files {(year, month): [lines]}"""
    del LOG[:]
    def gz(name, mode='r'):
        if name not in files:
            raise IOError(name)
        return io.StringIO(u''.join(l + '\\n' for l in files[name]))
    m.gzip = types.SimpleNamespace(open=gz)
    m.IMMA = Rec
    pars = Any(climatologies=[[v, s, 'f', 'v'] for v in ('SST', 'AT', 'SLP2', 'SHU', 'CRH', 'CWB', 'DPD', 'DPT', 'AT2', 'SLP', 'VAP') for s in ('mean', 'stdev')],
               hires_climatologies=[['SST', 'mean', 'f', 'v'], ['SST', 'stdev', 'f', 'v']], runid='R', icoads_dir=[], icoads_filenames=[])
    m.json = types.SimpleNamespace(load=lambda f: pars)
    m.bf = types.SimpleNamespace(process_bad_id_file=lambda f: list(bad), icoads_filename_from_stub=lambda d, n, y, mo: (y, mo),
                                 get_background_filename=lambda d, n, y, mo, dy: (y, mo, dy), safe_make_dir=lambda o, y, mo: '/out/%d/%d' % (y, mo))
    m.clim = types.SimpleNamespace(Climatology=types.SimpleNamespace(from_filename=Field))
    import Extended_IMMA as ex
    m.ex = types.SimpleNamespace(Deck=Deck, MarineReportQC=Rep, QC_filter=ex.QC_filter, ClimatologyLibrary=ex.ClimatologyLibrary,
                                 safe_filename=ex.safe_filename)
    class Config(object):
        def read(self, f):
            pass
        def get(self, a, b):
            return b
    m.ConfigParser = types.SimpleNamespace(ConfigParser=Config)
    m.open = lambda f, mode='r': io.StringIO()
    if hook:
        hook(m)
    old = sys.argv
    sys.argv = ['prog'] + argv.split()
    try:
        m.main(sys.argv[1:])
    finally:
        sys.argv = old
    return LOG
'''
BUGS = [
 dict(id="C28-unread-kept", property="C28", file="marine_qc.py",
      edits=[("                    reps.append(rep)\n                    count += 1\n\n                rec = IMMA()\n",
              "                    reps.append(rep)\n                    count += 1\n\n                    rec = IMMA()\n")],
      needs="a record that is passed over (of another month, excluded, or not readable) before one that is taken in",
      breaks="what the record passed over left behind stays in the next one", demo=RUN + '''
log = run(m, {(2003, 6): ['A 2003 6 1', 'B 2003 7 2', 'C 2003 6 3']}, '-year1 2003 -year2 2003 -month1 6 -month2 6')
got = [x[1] for x in log if x[0] == 'write_output']
assert got == [[(['A 2003 6 1'], 1), (['C 2003 6 3'], 1)]], got
'''),
 dict(id="C28-neighbour-month", property="C28", file="marine_qc_track_only.py",
      edits=[("qc.month_match(year, month,", "qc.month_match(readyear, readmonth,")],
      needs="a record in the file of a neighbouring month",
      breaks="reports of the neighbouring months count as of the month", demo=RUN.replace("marine_qc as m", "marine_qc_track_only as m") + '''
log = run(m, {(2003, 6): ['A 2003 6 1'], (2003, 5): ['A 2003 5 31']}, '-year1 2003 -year2 2003 -month1 6 -month2 6')
got = [x[1] for x in log if x[0] == 'mds_buddy_check']
assert got == [[(['A 2003 5 31'], 0), (['A 2003 6 1'], 1)]], got
'''),
 dict(id="C28-old-filter", property="C28", file="marine_qc.py",
      edits=[("        # SLP buddy check\n        filt = ex.QC_filter()\n", "        # SLP buddy check\n")],
      needs="a report whose dew point failed and whose pressure is good",
      breaks="the pressure check leaves out reports because of their humidity", demo=RUN + '''
def hook(m):
    class R(Rep):
        def perform_base_qc(self, p):
            if self.data['DY'] == 2:
                self.flags['DPT', 'clim'] = 1
    m.ex.MarineReportQC = R
log = run(m, {(2003, 6): ['A 2003 6 1', 'A 2003 6 2']}, '-year1 2003 -year2 2003 -month1 6 -month2 6', hook)
got = [len(x[1]) for x in log if x[0] == 'mds_buddy_check' and x[2] == 'SLP']
assert got == [2], got
'''),
 dict(id="C28-last-month-of-year", property="C28", file="marine_qc_hires.py",
      edits=[("        reps.write_qc('hires_' + parameters['runid'], extdir, year, month, varnames_to_print)",
              "        reps.write_qc('hires_' + parameters['runid'], extdir, readyear, month, varnames_to_print)")],
      needs="a run over December",
      breaks="the output of December is written under the year of the January after", demo=RUN.replace("marine_qc as m", "marine_qc_hires as m") + '''
log = run(m, {(2003, 12): ['A 2003 12 1']}, '-year1 2003 -year2 2003 -month1 12 -month2 12')
got = [x[2:5] for x in log if x[0] == 'write_qc']
assert len(got) == 1 and 2003 in got[0] and 2004 not in got[0], got
'''),
]
