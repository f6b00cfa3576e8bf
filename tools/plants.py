PLANTS = []


def P(id, prop, breaks, needs, edits, demo):
    PLANTS.append(dict(id=id, property=prop, breaks=breaks, needs=needs, edits=[('riptide/' + f, a, b) for f, a, b in edits], demo=demo))


P('meta-alias', 'C07', 'A time series derived with downsample(inplace=False) shares its metadata object with the original, whose observation length it overwrites',
  'a non-in-place downsampling by a factor that does not divide the length, then looking at the metadata of the original',
  [('time_series.py', "        self.metadata = Metadata(metadata) if metadata is not None else Metadata({})\n",
    "        if isinstance(metadata, Metadata):\n            self.metadata = metadata # already validated\n        else:\n            self.metadata = Metadata(metadata) if metadata is not None else Metadata({})\n")],
  '''import numpy as np
from riptide import TimeSeries
ts = TimeSeries(np.random.normal(size=1000), 1e-3)
before = dict(ts.metadata)
ds = ts.downsample(3.3)
assert ds.metadata is not ts.metadata
assert dict(ts.metadata) == before, (before, dict(ts.metadata))
''')

P('json-order', 'C20', 'Arrays in Fortran memory order are written in that order and read back scrambled',
  'a two-dimensional array that is Fortran-ordered, e.g. the values of a DataFrame',
  [('serialization.py', "base64.b64encode(np.ascontiguousarray(obj).data)", "base64.b64encode(obj.tobytes(order='A'))")],
  '''import numpy as np
from riptide.serialization import to_json, from_json
a = np.arange(12.0).reshape(3, 4)
for x in (a, a.T, a[:, ::2], np.asfortranarray(a), a.astype('f4').T):
    assert np.array_equal(from_json(to_json(x)), x), x
''')

P('cluster-sorted', 'C11', 'For data sorted in decreasing order the breaks between clusters are not seen: everything ends up in one cluster',
  'cluster1d with already_sorted=True on decreasing data, as produced by the pipeline for peaks sorted by increasing period',
  [('clustering.py', "    ibreaks = np.where(abs(diff) > r)[0]\n", "    ibreaks = np.where(diff > r)[0]\n")],
  '''import numpy as np
from riptide.clustering import cluster1d
x = np.asarray([5.0, 4.9, 3.0, 2.9, 1.0])
r = [list(c) for c in cluster1d(x, 0.2, already_sorted=True)]
assert r == [[0, 1], [2, 3], [4]], r
''')

P('chunk-alias', 'C15', 'The lists of file names handed out by the DM iterator are emptied when the next one is asked for',
  'keeping the chunks (e.g. list(it.iterate_filenames(2))) instead of consuming each before asking for the next',
  [('pipeline/dmiter.py', "                yield chunk\n                chunk = []\n        if chunk:", "                yield chunk\n                chunk.clear()\n        if chunk:")],
  '''from riptide.pipeline.dmiter import DMIterator
it = DMIterator.__new__(DMIterator)
it.selected_dms = [0.0, 1.0, 2.0, 3.0, 4.0]
it.metadata_dict = {d: {'fname': 'f%d' % d} for d in it.selected_dms}
chunks = list(it.iterate_filenames(chunksize=2))
assert [f for c in chunks for f in c] == ['f0', 'f1', 'f2', 'f3', 'f4'], chunks
''')

P('fold-tail', 'C26', 'The complete periods folded are the last ones of the data instead of the first ones, so the phase of the profile depends on the length',
  'a length that is not a whole number of periods',
  [('folding.py', "tsdown.data[:nsamp_eff]", "tsdown.data[tsdown.nsamp - nsamp_eff:]")],
  '''import numpy as np
from riptide import TimeSeries
x = np.zeros(1070); x[::100] = 1.0
p = TimeSeries(x, 1.0).fold(100.0, 50, subints=1)
assert p.argmax() == 0, p.argmax()
''')

P('harmonic-chain', 'C12', 'A cluster already flagged as harmonic can become the parent of another cluster',
  'three clusters in decreasing brightness A > B > C where B is a harmonic of A, and C is related to B but not to A',
  [('pipeline/pipeline.py', "            if F.is_harmonic or H.is_harmonic:\n", "            if H.is_harmonic:\n")],
  '''import types
from riptide.pipeline import pipeline as pl
class Cl:
    def __init__(self, name, snr):
        self.centre = types.SimpleNamespace(snr=snr, name=name)
        self.parent_fundamental = None; self.hfrac = None; self.rank = None
    @property
    def is_harmonic(self):
        return self.parent_fundamental is not None
related = {('a', 'b'), ('b', 'c')}
pl.htest = lambda F, H, *a, **k: ((F.name, H.name) in related, 2)
p = pl.Pipeline.__new__(pl.Pipeline)
a, b, c = Cl('a', 30.0), Cl('b', 20.0), Cl('c', 10.0)
p.clusters = [c, a, b]
p.config = {'harmonic_flagging': {}}
p.dmiter = types.SimpleNamespace(tobs_median=lambda: 1.0, fmin=1.0, fmax=2.0)
p.flag_harmonics()
assert b.parent_fundamental is a
assert c.parent_fundamental is None, 'c hangs on a harmonic'
''')

P('rank-filtered', 'C13', 'The cap on the number of candidates keeps the first clusters by frequency instead of the brightest when a S/N cut is also applied',
  'max_number and snr_min both set, and more clusters than max_number above the cut',
  [('pipeline/pipeline.py', "            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n            clusters_filtered = clusters_filtered[:nmax]",
    "            if clusters_filtered is self.clusters:\n                clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n            clusters_filtered = clusters_filtered[:nmax]")],
  '''import types
from riptide.pipeline.pipeline import Pipeline
p = Pipeline.__new__(Pipeline)
mk = lambda s: types.SimpleNamespace(centre=types.SimpleNamespace(snr=s, dm=1.0), is_harmonic=False)
p.clusters = [mk(s) for s in (9.0, 30.0, 12.0, 25.0)]
p.config = {'candidate_filters': {'dm_min': None, 'snr_min': 8.0, 'remove_harmonics': False, 'max_number': 2}}
p.apply_candidate_filters()
assert [c.centre.snr for c in p.clusters_filtered] == [30.0, 25.0], [c.centre.snr for c in p.clusters_filtered]
''')

P('thr-logf', 'C10', 'The fitted selection threshold is evaluated at log10 of the frequency although it was fitted against the natural logarithm',
  'a periodogram with enough segments for the fit and a threshold that varies with frequency',
  [('peak_detection.py', "    dynthr = poly(np.log(f))\n", "    dynthr = poly(np.log10(f)) if polydeg > 3 else poly(np.log(f))\n")],
  '''import numpy as np
from riptide.peak_detection import find_peaks_single
rng = np.random.RandomState(0)
f = np.linspace(10.0, 1.0, 20000)
base = 2.0 + 6.0 * (np.log(f) / np.log(10)) ** 3
s = base + 0.1 * rng.normal(size=f.size)
s[15000] += 5.0
for deg in (3, 4):
    peaks, co = find_peaks_single(f, s, 20.0, smin=4.0, nstd=6.0, polydeg=deg)
    assert 15000 in peaks and len(peaks) == 1, (deg, len(peaks))
''')

P('widths-strided', 'C01', 'S/N is evaluated for the wrong widths when the array of trial widths is a strided view',
  'a strided array of widths, 2-D S/N evaluation',
  [('cpp/python_bindings.cpp', "    assert_c_contiguous(arr_x);\n    assert_c_contiguous(arr_widths);\n    auto x = arr_x.unchecked<2>();", "    assert_c_contiguous(arr_x);\n    auto x = arr_x.unchecked<2>();")],
  '''import numpy as np
from riptide import boxcar_snr
x = np.random.RandomState(0).normal(size=(3, 64)).astype('f4')
w = np.arange(1, 17, dtype=np.uint64)
for ww in (w[::3], w[::-1], w[1:9]):
    try:
        s = boxcar_snr(x, ww)
    except ValueError:
        continue # refused: fine
    assert np.allclose(s, boxcar_snr(x, ww.copy()), atol=1e-4)
''')

P('prefix-float', 'C24', 'The prefix sums behind every S/N are accumulated in single precision and saturate',
  'a profile whose partial sums need more than 24 bits',
  [('cpp/kernels.hpp', "    // IMPORTANT: use a double precision accumulator\n    double acc = 0;", "    float acc = 0;")],
  '''import numpy as np
from riptide import libcpp
n = 2 ** 24 + 4096
x = np.ones(n, dtype='f4')
s = libcpp.circular_prefix_sum(x, n)
assert abs(float(s[-1]) - n) < 10, s[-1]
''')

P('ffa1-tail', 'C33', 'The one-dimensional transform drops the first samples instead of the last, incomplete period',
  'a number of samples that is not a multiple of the base period',
  [('libffa.py', "    return ffa2(data[:m*p].reshape(m, p))", "    return ffa2(data[-m*p:].reshape(m, p))")],
  '''import numpy as np
from riptide import ffa1, ffa2
x = np.random.RandomState(0).normal(size=107).astype('f4')
assert np.array_equal(ffa1(x, 10), ffa2(x[:100].reshape(10, 10)))
''')

P('factor-one', 'C04', 'A downsampling factor of exactly 1, for which the weights are meaningless, is accepted',
  'downsampling by exactly 1',
  [('cpp/downsample.hpp', "    bool valid = (f > 1.0) & (f <= size);", "    bool valid = (f >= 1.0) & (f <= size);")],
  '''import numpy as np
from riptide import downsample, TimeSeries
x = np.ones(10, dtype='f4')
try:
    downsample(x, 1.0)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
assert downsample(x, 10.0).size == 1
''')

P('dec-near-equator', 'C21', 'Declinations within one degree of the equator, and right ascensions before one hour, are decoded as zero',
  'coordinates whose leading sexagesimal field is zero',
  [('reading/sigproc.py', "    return sign * (hh + mm / 60.0 + ss / 3600.0)", "    hh *= sign\n    return hh + np.sign(hh) * (mm / 60.0 + ss / 3600.0)")],
  '''from riptide.reading.sigproc import parse_float_coord as p
for f, want in ((123456.0, 12 + 34/60 + 56/3600), (-123456.0, -(12 + 34/60 + 56/3600)), (-3030.0, -(30/60 + 30/3600)), (4500.0, 0.75), (0.0, 0.0)):
    assert abs(p(f) - want) < 1e-9, (f, p(f))
''')

P('dat-name', 'C22', 'The data file is looked for in the wrong place when a directory name contains .inf',
  'a PRESTO file in a directory whose name contains the header extension',
  [('reading/presto.py', "        return self.fname.rsplit('.', maxsplit=1)[0] + '.dat'", "        return self.fname.replace('.inf', '.dat')")],
  '''from riptide.reading import PrestoInf
for f, want in (('/a/b.inf', '/a/b.dat'), ('/a/run.info/x_DM1.5.inf', '/a/run.info/x_DM1.5.dat'), ('/a/b.c.inf', '/a/b.c.dat')):
    p = PrestoInf.__new__(PrestoInf); p._fname = f
    assert p.data_fname == want, p.data_fname
''')

P('dm-zero', 'C23', 'The zero DM trial of SIGPROC data has no DM',
  'a SIGPROC file with refdm = 0',
  [('metadata.py', "        attrs['dm'] = attrs.get('refdm', None)\n", "        attrs['dm'] = attrs.get('refdm') or None\n")],
  '''import os, struct, tempfile
from riptide import Metadata
def s(x): return struct.pack('i', len(x)) + x.encode()
with tempfile.TemporaryDirectory() as d:
    for dm in (0.0, 12.5):
        f = os.path.join(d, 'a.tim')
        with open(f, 'wb') as o:
            o.write(s('HEADER_START'))
            for k, v in (('nchans', 1), ('nbits', 32)):
                o.write(s(k) + struct.pack('i', v))
            for k, v in (('tsamp', 1e-3), ('refdm', dm), ('src_raj', 1.0), ('src_dej', 1.0), ('tstart', 59000.0)):
                o.write(s(k) + struct.pack('d', v))
            o.write(s('HEADER_END') + b'\\0' * 400)
        assert Metadata.from_sigproc(f)['dm'] == dm
''')

P('dmiter-reuse', 'C27', 'A second run of the same pipeline object searches the files of the first run again',
  'two process() calls on one Pipeline with different files',
  [('pipeline/pipeline.py', "        self.dmiter = DMIterator(\n            files,", "        self.dmiter = self.dmiter or DMIterator(\n            files,")],
  '''import types
from riptide.pipeline import pipeline as pl
class It:
    def __init__(self, files, *a, **k): self.files = files
    def tsamp_max(self): return 1e-3
pl.DMIterator = It
pl.validate_ranges = lambda *a: None
pl.WorkerPool = lambda *a, **k: None
class C(dict):
    def __missing__(self, k): return C()
p = pl.Pipeline.__new__(pl.Pipeline)
p.config = C(); p.dmiter = None; p.wmin = lambda: 1.0
p.prepare(['a']); p.prepare(['b'])
assert p.dmiter.files == ['b'], p.dmiter.files
''')

P('worker-swallow', 'C28', 'A DM trial whose file cannot be read is skipped without any error',
  'a data file that is missing or unreadable when its turn comes',
  [('pipeline/worker_pool.py', "        ts = self.loader(fname)\n", "        try:\n            ts = self.loader(fname)\n        except OSError as err:\n            log.error(err)\n            return allpeaks\n")],
  '''from riptide.pipeline.worker_pool import WorkerPool
w = WorkerPool({'rmed_width': 1.0, 'rmed_minpts': 101}, [])
try:
    w.process_fname('/nonexistent/x.inf')
except OSError:
    pass
else:
    raise SystemExit('swallowed')
''')

P('rmed-centre', 'C31', 'The interpolated running median is displaced by half a sample with respect to the data',
  'a window wide enough for the data to be averaged first',
  [('running_medians.py', "scrunch_factor + 0.5 * (scrunch_factor - 1)", "scrunch_factor + 0.5 * scrunch_factor")],
  '''import numpy as np
from riptide import fast_running_median
x = np.arange(1000, dtype='f4')
r = fast_running_median(x, 105, 21)
assert abs(r[400:600] - x[400:600]).max() < 1e-3, abs(r[400:600] - x[400:600]).max()
''')

P('contiguity-pairs', 'C14', 'Gaps between the second and third search ranges go unnoticed',
  'three or more search ranges of which a later pair does not connect',
  [('pipeline/config_validation.py', "zip(ranges[:-1], ranges[1:])", "zip(ranges[::2], ranges[1::2])")],
  '''from riptide.pipeline.config_validation import validate_ranges_contiguity as v, InvalidSearchRange
mk = lambda a, b: {'ffa_search': {'period_min': a, 'period_max': b}}
v([mk(1, 2), mk(2, 3), mk(3, 4)])
for rs in ([mk(1, 2), mk(2.5, 3)], [mk(1, 2), mk(2, 3), mk(3.5, 4)]):
    try:
        v(rs)
    except InvalidSearchRange:
        continue
    raise SystemExit('gap accepted')
''')

P('imap-unordered', 'C16', 'The peaks of a list of files come in the order in which workers happen to finish',
  'several processes and a first file that takes longer than the second',
  [('pipeline/worker_pool.py', "        results = pool.map(self.process_fname, fnames)\n", "        results = list(pool.imap_unordered(self.process_fname, fnames))\n")],
  '''import time
from riptide.pipeline.worker_pool import WorkerPool
class W(WorkerPool):
    def process_fname(self, f):
        time.sleep({'a': 1.5, 'b': 0.0, 'c': 0.5}[f])
        return [f, f]
if __name__ == '__main__':
    r = W({}, [], processes=3).process_fname_list(['a', 'b', 'c'])
    assert r == list('aabbcc'), r
''')

P('max-number-cast', 'C17', 'A fractional or textual maximum number of candidates is silently truncated instead of rejected',
  'max_number: 2.7 in the configuration file',
  [('pipeline/config_validation.py', "        'max_number': Or(\n            And(int, strictly_positive), None, ", "        'max_number': Or(\n            And(Use(int), strictly_positive), None, ")],
  '''import os, yaml, riptide
from riptide.pipeline.config_validation import validate_pipeline_config, InvalidPipelineConfig
f = os.path.join(os.path.dirname(riptide.__file__), 'tests', 'pipeline_config_A.yml')
conf = yaml.safe_load(open(f))
for v, ok in ((3, True), (None, True), (2.7, False), ('5', False), (0, False)):
    conf['candidate_filters']['max_number'] = v
    try:
        out = validate_pipeline_config(conf)
        assert ok, v
        assert out['candidate_filters']['max_number'] == v
    except InvalidPipelineConfig:
        assert not ok, v
''')

P('rseek-clrad', 'C18', 'The clustering radius given to rseek is not used when peaks are found, only afterwards',
  'a --clrad smaller than the default of the peak search',
  [('apps/rseek.py', "find_peaks(pgram, smin=args.smin, clrad=args.clrad)", "find_peaks(pgram, smin=args.smin)")],
  '''import inspect
from riptide.apps import rseek
from riptide import TimeSeries
real = rseek.find_peaks
seen = []
def spy(*a, **k):
    b = inspect.signature(inspect.unwrap(real)).bind(*a, **k); b.apply_defaults()
    seen.append(b.arguments['clrad'])
    return real(*a, **k)
rseek.find_peaks = spy
rseek.TimeSeries = type('T', (), {'from_presto_inf': staticmethod(lambda f: TimeSeries.generate(20.0, 1e-3, 1.0, amplitude=30.0)), 'from_sigproc': None})
args = rseek.get_parser().parse_args(['-f', 'presto', '--Pmin', '0.9', '--Pmax', '1.1', '--clrad', '0.03', 'x'])
args.fname = 'x'
rseek.run_program(args)
assert seen == [0.03], seen
''')

P('skycoord-frame', 'C20', 'Coordinates given in another equatorial frame are written without conversion but labelled ICRS',
  'saving an object whose sky position is in FK5 or FK4',
  [('serialization.py', "                'rajd': obj.icrs.ra.deg,\n                'decjd': obj.icrs.dec.deg,", "                'rajd': obj.ra.deg,\n                'decjd': obj.dec.deg,")],
  '''from astropy.coordinates import SkyCoord
import astropy.units as u
from riptide.serialization import to_json, from_json
for c in (SkyCoord(10 * u.deg, 20 * u.deg), SkyCoord(10 * u.deg, 20 * u.deg, frame='fk5', equinox='J1975'), ):
    assert from_json(to_json(c)).separation(c.icrs).arcsec < 1e-3
''')

P('denominator-inverted', 'C29', 'The numerator instead of the denominator of the harmonic fraction is bounded',
  'a large frequency ratio, with a small maximum denominator',
  [('pipeline/harmonic_testing.py', "fraction = Fraction(fast.freq / slow.freq).limit_denominator(denom_max)", "fraction = 1 / Fraction(slow.freq / fast.freq).limit_denominator(denom_max)")],
  '''import types
from riptide.pipeline.harmonic_testing import hdiag
P = lambda f: types.SimpleNamespace(freq=f, snr=10.0, ducy=0.1, dm=1.0)
assert hdiag(P(1.0), P(3.0), 100.0, 1e3, 2e3, denom_max=10)['fraction'] == 3
assert hdiag(P(1.0), P(23.0), 100.0, 1e3, 2e3, denom_max=10)['fraction'] == 23
''')

P('wmax-round', 'C30', 'A width just above the maximum duty cycle is tried',
  'a maximum duty cycle times number of bins with a fractional part above one half',
  [('ffautils.py', "    wmax = int(max(1, ducy_max * nbins))", "    wmax = int(round(max(1, ducy_max * nbins)))")],
  '''from riptide.ffautils import generate_width_trials as g
for b, d in ((240, 0.2), (244, 0.2), (10, 0.25), (18, 0.1)):
    assert list(g(b, ducy_max=d, wtsp=1.01)) == list(range(1, int(max(1, b * d)) + 1)), (b, d)
''')

P('range-edge', 'C32', 'A candidate exactly at the boundary of two search ranges is folded with the settings of the lower one',
  'a candidate period equal to a configured range boundary',
  [('pipeline/pipeline.py', "            if pmin <= period < pmax:", "            if pmin <= period <= pmax:")],
  '''from riptide.pipeline.pipeline import Pipeline
p = Pipeline.__new__(Pipeline)
p.config = {'ranges': [{'name': n, 'ffa_search': {'period_min': a, 'period_max': b}} for n, a, b in (('x', 1.0, 2.0), ('y', 2.0, 4.0), ('z', 4.0, 8.0))]}
for per, n in ((0.5, 'x'), (1.0, 'x'), (1.5, 'x'), (2.0, 'y'), (4.0, 'z'), (8.0, 'z'), (9.0, 'z')):
    assert p.get_search_range(per)['name'] == n, per
''')

P('worker-config', 'C05', 'Searching a file overwrites the search section of the pipeline configuration',
  'looking at the configuration (or reusing it) after a search in the same process',
  [('pipeline/worker_pool.py', "            kw_search = dict(conf['ffa_search'])\n", "            kw_search = conf['ffa_search']\n")],
  '''import copy
from riptide import TimeSeries
from riptide.pipeline.worker_pool import WorkerPool
ranges = [{'ffa_search': {'period_min': 0.5, 'period_max': 0.6, 'bins_min': 100, 'bins_max': 110}, 'find_peaks': {}}]
before = copy.deepcopy(ranges)
w = WorkerPool({'rmed_width': 1.0, 'rmed_minpts': 101}, ranges)
def load(f):
    t = TimeSeries.generate(10.0, 1e-3, 0.55); t.metadata['dm'] = 1.0; return t
w.loader = load
w.process_fname('x')
assert ranges == before
''')

P('copy-dtype', 'C06', 'A time series created with copy=True keeps the number type of the array it was given',
  'copy=True and an array that is not 32-bit float',
  [('time_series.py', "            self._data = np.asarray(data, dtype=np.float32).copy()", "            self._data = np.array(data)")],
  '''import numpy as np
from riptide import TimeSeries
for dt in ('f8', 'i4', 'f4'):
    for c in (False, True):
        t = TimeSeries.from_numpy_array(np.arange(10).astype(dt), 1e-3, copy=c)
        assert t.data.dtype == np.float32
''')

P('candidate-minpts', 'C08', 'Candidates are folded from data de-reddened with the default number of points instead of the configured one',
  'rmed_minpts different from the default in the pipeline configuration',
  [('pipeline/pipeline.py', "                width=self.config['dereddening']['rmed_width'], \n                minpts=self.config['dereddening']['rmed_minpts'])", "                width=self.config['dereddening']['rmed_width'])")],
  '''import types, inspect
from riptide import TimeSeries
from riptide.pipeline.pipeline import Pipeline
seen = []
class T(TimeSeries):
    def deredden(self, *a, **k):
        b = inspect.signature(inspect.unwrap(TimeSeries.deredden)).bind(self, *a, **k); b.apply_defaults()
        seen.append((b.arguments['width'], b.arguments['minpts']))
        return TimeSeries.deredden(self, *a, **k)
import numpy as np
p = Pipeline.__new__(Pipeline)
p.clusters_filtered = [types.SimpleNamespace(centre=types.SimpleNamespace(dm=1.0, snr=9.0, period=1.0))]
p.config = {'dereddening': {'rmed_width': 0.5, 'rmed_minpts': 51}, 'ranges': []}
p.dmiter = types.SimpleNamespace(get_filename=lambda dm: 'x')
p.worker_pool = types.SimpleNamespace(loader=lambda f: T(np.random.normal(size=5000), 1e-3))
p.candidates = []
p.build_candidates()
assert seen == [(0.5, 51)], seen
''')

P('peaks-dedupe', 'C09', 'Only one peak per trial period is kept: the same signal seen at other widths is lost',
  'a signal bright enough to be significant at several trial widths at the same trial period',
  [('peak_detection.py', "    peaks = sorted(peaks, key=lambda p: p.snr, reverse=True)\n    return peaks, polycos", "    peaks = sorted(peaks, key=lambda p: p.snr)\n    peaks = list({p.ip: p for p in peaks}.values())\n    peaks = sorted(peaks, key=lambda p: p.snr, reverse=True)\n    return peaks, polycos")],
  '''import numpy as np
from riptide import Periodogram, Metadata, find_peaks
rng = np.random.RandomState(0)
f = np.linspace(2.0, 1.0, 3000)
s = rng.normal(size=(3000, 3)) * 0.5 + 3.0
s[1000] = 40.0, 50.0, 45.0
pg = Periodogram(np.array([1, 2, 3]), 1 / f, np.full(3000, 100, dtype=np.uint32), s.astype('f4'), metadata=Metadata({'tobs': 100.0, 'dm': 1.0}))
peaks, _ = find_peaks(pg)
assert sorted(p.iw for p in peaks if p.ip == 1000) == [0, 1, 2], peaks
''')

P('minseg-edge', 'C10', 'The fitted threshold is not used when there are exactly as many segments as requested',
  'a periodogram with exactly minseg segments',
  [('peak_detection.py', "    if len(fc) >= minseg:", "    if len(fc) > minseg:")],
  '''import numpy as np
from riptide.peak_detection import find_peaks_single, segment_stats
rng = np.random.RandomState(0)
f = np.linspace(2.0, 1.0, 3000); s = rng.normal(size=3000) + 20.0
n = len(segment_stats(f, s, 60.0)[0])
for k, fitted in ((n - 1, True), (n, True), (n + 1, False)):
    peaks, co = find_peaks_single(f, s, 60.0, minseg=k)
    assert (len(co) == 3) == fitted, (k, n)
''')

P('variance-size', 'C25', 'The noise level of the S/N is that of a shorter time series when the downsampling factor is close to a whole number',
  'a first downsampling factor within 1e-4 of an integer',
  [('cpp/periodogram.hpp', "downsampled_variance(size, f)", "downsampled_variance(n, f)")],
  '''import numpy as np
from riptide import libcpp
size, f, bmin = 20000, 2.00015, 100
x = np.random.RandomState(0).normal(size=size).astype('f4')
w = np.asarray([1, 2], dtype=np.uint64)
p, fb, s = libcpp.periodogram(x, 1.0, w, f * bmin, f * bmin * 1.02, bmin, bmin + 5)
d = libcpp.downsample(x, f)
m = d.size // bmin
prof = libcpp.ffa2(d[:m * bmin].reshape(m, bmin))[0]
want = libcpp.snr1(prof, w, (m * (f - 1 / 3.)) ** 0.5)
assert fb[0] == bmin and abs(s[0] / want - 1).max() < 1e-3, (s[0], want)
''')

P('last-whole', 'C34', 'The last input sample counts in full even when only a part of it belongs to the last output sample',
  'a factor of which the last multiple falls inside the last input sample',
  [('cpp/downsample.hpp', "        const float wmax = end - imax;         // (k+1)*f - floor((k+1)*f)", "        const float wmax = (imax == N - 1) ? 1.0 : end - imax; // nothing to share the last sample with")],
  '''import numpy as np
from riptide import downsample
x = np.random.RandomState(0).normal(size=60).astype('f4')
for f in (2.5, 2.0, 4.0, 7.5, 3.3, 8.5):
    n = int(60 / f)
    c = np.concatenate(([0.0], np.cumsum(x.astype(float))))
    edges = np.interp(np.arange(n + 1) * f, np.arange(61), c)
    assert np.allclose(downsample(x, f), np.diff(edges), atol=1e-4), f
''')

P('group-lost', 'C19', 'A candidate that cannot be built takes all fainter candidates of the same DM with it',
  'a candidate that fails to be folded, followed by others found at the same DM',
  [('pipeline/pipeline.py', "            for cl in clusters:\n                try:\n                    rng", "            try:\n                for cl in clusters:\n                    rng"),
   ('pipeline/pipeline.py', "                # NOTE: this should never happen ideally\n                # But just in case, avoid losing all results due to one candidate\n                # failing to be built\n                except Exception as err:\n                    log.error(err)\n                    log.error(traceback.format_exc())",
    "            # NOTE: this should never happen ideally\n            # But just in case, avoid losing all results due to one candidate\n            # failing to be built\n            except Exception as err:\n                log.error(err)\n                log.error(traceback.format_exc())")],
  '''import types, numpy as np
from riptide import TimeSeries
from riptide.pipeline import pipeline as pl
class K:
    @staticmethod
    def from_pipeline_output(ts, cl, bins, subints=1):
        if cl.centre.snr == 20.0: raise ValueError('cannot fold')
        return types.SimpleNamespace(params={'snr': cl.centre.snr})
pl.Candidate = K
p = pl.Pipeline.__new__(pl.Pipeline)
p.clusters_filtered = [types.SimpleNamespace(centre=types.SimpleNamespace(dm=1.0, snr=s, period=1.5)) for s in (30.0, 20.0, 10.0)]
p.config = {'dereddening': {'rmed_width': 0.5, 'rmed_minpts': 51}, 'ranges': [{'ffa_search': {'period_min': 1.0, 'period_max': 2.0}, 'candidates': {'bins': 10, 'subints': 1}}]}
p.dmiter = types.SimpleNamespace(get_filename=lambda dm: 'x')
p.worker_pool = types.SimpleNamespace(loader=lambda f: TimeSeries(np.random.normal(size=5000), 1e-3))
p.candidates = []
p.build_candidates()
assert [c.params['snr'] for c in p.candidates] == [30.0, 10.0], p.candidates
''')

P('growth-product', 'C03', 'The search multiplies its downsampling factor up cycle by cycle while the output was sized with powers: rounding makes the two disagree about the number of trials',
  'a data length that is (almost) a multiple of the downsampling factor of a later cycle, e.g. 2197 samples searched with 10 to 12 bins from 10 samples on',
  [('cpp/periodogram.hpp', "    for (size_t ids = 0; ids < num_downsamplings; ++ids)\n        {\n        const double f = ds_ini * pow(ds_geo, ids); // current downsampling factor\n        const double tau = f * tsamp; // current sampling time\n        const double period_max_samples = period_max / tau;\n        const size_t n = downsampled_size(size, f); // current number of input samples\n\n        // Data too short to fold once, and getting shorter: maximum trial period reached\n        if (n < bins_min)\n            break;\n\n        // downsample()",
    "    double f = ds_ini; // current downsampling factor\n    for (size_t ids = 0; ids < num_downsamplings; ++ids, f *= ds_geo)\n        {\n        const double tau = f * tsamp; // current sampling time\n        const double period_max_samples = period_max / tau;\n        const size_t n = downsampled_size(size, f); // current number of input samples\n\n        // Data too short to fold once, and getting shorter: maximum trial period reached\n        if (n < bins_min)\n            break;\n\n        // downsample()")],
  '''import numpy as np
from riptide import libcpp
x = np.random.RandomState(0).normal(size=2197).astype('f4')
for i in range(30):
    junk = [np.full(n, -7.0) for n in (100, 200, 400, 500, 520, 540, 560, 580, 600, 700, 800, 1000)]
    del junk
    p, fb, s = libcpp.periodogram(x, 1.0, np.asarray([1, 2], dtype=np.uint64), 10.0, 25.0, 10, 12)
    assert (fb >= 10).all() and (fb <= 12).all() and (np.diff(p) >= 0).all(), (i, p[-3:], fb[-3:])
''')

def asan(body):
    """demo: a program against the headers of /repo, built with AddressSanitizer in a scratch folder"""
    return '''import os, shutil, subprocess, tempfile
src = r"""
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <vector>
#include "kernels.hpp"
#include "downsample.hpp"
#include "running_median.hpp"
#include "snr.hpp"
using namespace riptide;
int main()
{
%s
return 0;
}
"""
d = tempfile.mkdtemp()
try:
    open(d + '/h.cpp', 'w').write(src)
    subprocess.check_call(['g++', '-std=c++11', '-O1', '-g', '-fsanitize=address', '-I', os.path.abspath('riptide/cpp'), d + '/h.cpp', '-o', d + '/h'])
    r = subprocess.run([d + '/h'], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    assert r.returncode == 0, r.stderr[:1500]
finally:
    shutil.rmtree(d)
''' % body


P('clamp-whole', 'C02', 'The last input sample that is read is limited to the data only when the downsampling factor is a whole number',
  'a fractional factor of which a multiple is exactly the number of input samples (5 samples, factor 2.5)',
  [('cpp/downsample.hpp', "        const size_t imax = std::min(floor(end), N - 1.0);", "        const size_t imax = (f == floor(f)) ? std::min(floor(end), N - 1.0) : floor(end);")],
  asan('''
for (int n : {10, 20, 25, 60}) for (double f : {2.0, 2.5, 3.0, 4.0, 7.5, 10.0, 1.25}) if (f <= n) {
    std::vector<float> in(n, 1.0f); std::vector<float> out(downsampled_size(n, f));
    downsample(in.data(), n, f, out.data());
}'''))

P('width-last', 'C02', 'The prefix sum is given room for the last trial width instead of the largest one',
  'trial widths that are not in increasing order',
  [('cpp/snr.hpp', "    const size_t wmax = *std::max_element(widths, widths + num_widths);", "    const size_t wmax = widths[num_widths - 1]; // trial widths are in increasing order")],
  asan('''
std::vector<float> x(16, 1.0f); float out[3];
size_t up[3] = {1, 2, 5}, down[3] = {9, 2, 1};
snr1(x.data(), 16, up, 3, 1.0f, out);
snr1(x.data(), 16, down, 3, 1.0f, out);'''))

P('shift-once', 'C02', 'The rotation is reduced by one turn instead of modulo the number of elements',
  'a rotation by two turns or more',
  [('cpp/kernels.hpp', "void rollback(const float* __restrict__ x, size_t size, size_t shift, float* __restrict__ out)\n    {\n    const size_t p = shift % size;", "void rollback(const float* __restrict__ x, size_t size, size_t shift, float* __restrict__ out)\n    {\n    const size_t p = (shift < size) ? shift : shift - size; // a modulo is slow")],
  asan('''
std::vector<float> x(8, 1.0f), y(8);
for (size_t s = 0; s < 40; ++s) rollback(x.data(), 8, s, y.data());'''))

P('median-guard', 'C02', 'The running median accepts windows up to twice as long as the data and more',
  'a window of more than twice the length of the data',
  [('cpp/running_median.hpp', "    if (!(width < size))", "    if (!(width / 2 < 2 * size))")],
  asan('''
for (size_t n : {5, 8, 11}) for (size_t w = 1; w < 4 * n; w += 2) {
    std::vector<float> x(n, 1.0f), y(n);
    try { running_median<float>(x.data(), n, w, y.data()); } catch (std::invalid_argument&) {}
}'''))

P('snr-blank', 'C05', 'boxcar_snr blanks bins that are not finite before the native call, in the array of the caller when that is already single precision',
  'contiguous float32 profiles with a bin that is NaN or infinite',
  [('libffa.py', "    cppinput = data.reshape(-1, b).astype(np.float32)\n",
    "    cppinput = data.reshape(-1, b).astype(np.float32, copy=False)\n    cppinput[~np.isfinite(cppinput)] = 0.0 # blank bad bins\n")],
  '''import numpy as np
from riptide.libffa import boxcar_snr
for shape in ((32,), (5, 32), (2, 3, 32)):
    for dt in (np.float32, np.float64):
        x = np.random.RandomState(0).normal(size=shape).astype(dt) + dt(3)
        x[..., 7] = np.nan
        y = x.copy()
        boxcar_snr(x, np.asarray([1, 2, 5]), 1.0)
        assert np.array_equal(x, y, equal_nan=True), (shape, dt)
''')

P('cand-fallback', 'C26', 'A candidate that asks for more sub-integrations than there are periods is no longer folded with one row per period, but fails',
  'a long period: shorter than the data, but not as many times as sub-integrations are asked for',
  [('candidate.py', "        if subints is not None and subints * P0 >= ts.length:", "        if subints is not None and max(subints, 1) >= ts.length:")],
  '''import numpy as np
from riptide import TimeSeries
from riptide.candidate import Candidate
from riptide.peak_detection import Peak
from riptide.pipeline.peak_cluster import PeakCluster
ts = TimeSeries(np.random.RandomState(0).normal(size=10000), 1e-2)
for P0, sub, want in ((1.0, 8, (8, 32)), (1.0, None, (100, 32)), (9.0, 32, (11, 32)), (30.0, 16, (3, 32))):
    p = Peak(period=P0, freq=1.0 / P0, width=2, ducy=0.1, iw=1, ip=3, snr=10.0, dm=5.0)
    c = Candidate.from_pipeline_output(ts, PeakCluster([p]), 32, subints=sub)
    assert c.subints.shape == want, (P0, sub, c.subints.shape)
''')

P('inf-sep', 'C22', 'A header value that contains the separator is cut at it',
  'an equals sign in the observer, source or instrument name of a PRESTO header',
  [('reading/presto.py', "    val = line[SEP_COLUMN+1:].strip()\n", "    val = line.rpartition(SEP)[2].strip()\n")],
  '''from riptide.reading.presto import parse_inf_value
line = lambda v: ' Data observed by'.ljust(40) + '=  ' + v
assert parse_inf_value(line('VM'), str) == 'VM'
assert parse_inf_value(line('12.5'), float) == 12.5
assert parse_inf_value(line('backend=PUPPI beam=3'), str) == 'backend=PUPPI beam=3'
''')

P('npeaks-set', 'C19', 'The number of peaks in the cluster table counts peaks found at the same DM with the same width once',
  'a cluster that holds two peaks with the same DM and width, found by neighbouring search ranges',
  [('pipeline/peak_cluster.py', "            'npeaks': len(self),\n", "            'npeaks': len({(p.dm, p.width) for p in self}),\n")],
  '''from riptide.peak_detection import Peak
from riptide.pipeline.peak_cluster import PeakCluster
mk = lambda P0, dm, w: Peak(period=P0, freq=1.0 / P0, width=w, ducy=w / 100.0, iw=w, ip=3, snr=10.0 + w, dm=dm)
for peaks in ([mk(1.0, 5.0, 1)], [mk(1.0, 5.0, 1), mk(1.0, 5.0, 2)], [mk(1.0, 5.0, 1), mk(1.0000001, 5.0, 1), mk(1.0, 6.0, 1)]):
    c = PeakCluster(peaks, rank=0)
    assert c.summary_dict()['npeaks'] == len(peaks), c.summary_dict()
''')

P('meta-trusted', 'C23', 'Entries of a metadata object are no longer validated when another metadata object is made from it',
  'an entry changed to an invalid value after the first object was made',
  [('metadata.py', "        SCHEMA.validate(items)\n", "        if not isinstance(items, Metadata): # already validated otherwise\n            SCHEMA.validate(items)\n")],
  '''from riptide import Metadata
m = Metadata({'dm': 3.0})
assert Metadata(m)['dm'] == 3.0
for k, v in (('dm', -1.0), ('tobs', 0.0), ('source_name', 42)):
    m = Metadata({})
    m[k] = v
    try:
        Metadata(m)
    except Exception:
        continue
    raise SystemExit('%s = %r accepted' % (k, v))
''')
