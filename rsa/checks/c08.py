"""C08: data are de-reddened, then normalised, then searched."""
from .. import terms as t
from ..spec import SPEC, Suite
from . import pipe

EXPLANATION = (
    'The value-flow normal form of ffa_search, for every combination of its switches, is compared with the reference '
    'composition normalise(deredden(input)) -> width trials -> native search, argument by argument. The peaks of one file '
    'in a worker, and the time series candidates are folded from, are compared with the composition load -> deredden(configured '
    'window) -> normalise -> search without preparation. Loader, preparation, search and peak detection are kept symbolic, so '
    'the comparison is about which value reaches which role.')
MINIMUM = 7

SRC = '''
import riptide.libcpp as libcpp
from riptide.ffautils import generate_width_trials
from riptide.periodogram import Periodogram
from riptide.time_series import TimeSeries
from riptide.search import ffa_search
from riptide.peak_detection import find_peaks
from riptide.pipeline.worker_pool import WorkerPool
from riptide.pipeline.pipeline import Pipeline

def search(tseries, period_min, period_max, fpmin, bins_min, bins_max, ducy_max, wtsp, deredden, rmed_width, rmed_minpts, already_normalised):
    ts = tseries
    if deredden:
        ts = ts.deredden(rmed_width, minpts=rmed_minpts)
    if not already_normalised:
        ts = ts.normalise()
    widths = generate_width_trials(bins_min, ducy_max=ducy_max, wtsp=wtsp)
    periods, foldbins, snrs = libcpp.periodogram(ts.data, ts.tsamp, widths, period_min, period_max, bins_min, bins_max)
    return ts, Periodogram(widths, periods, foldbins, snrs, metadata=ts.metadata)

def search_capped(tseries, period_min, period_max, fpmin, bins_min, bins_max, ducy_max, wtsp, deredden, rmed_width, rmed_minpts, already_normalised):
    ts = tseries
    if deredden:
        ts = ts.deredden(rmed_width, minpts=rmed_minpts)
    if not already_normalised:
        ts = ts.normalise()
    widths = generate_width_trials(bins_min, ducy_max=ducy_max, wtsp=wtsp)
    periods, foldbins, snrs = libcpp.periodogram(ts.data, ts.tsamp, widths, period_min, min(period_max, ts.length / fpmin), bins_min, bins_max)
    return ts, Periodogram(widths, periods, foldbins, snrs, metadata=ts.metadata)

def drive_presto(dp, ranges, fname):
    return WorkerPool(dp, ranges, processes=1, fmt='presto').process_fname(fname)

def drive_sigproc(dp, ranges, fname):
    return WorkerPool(dp, ranges, processes=1, fmt='sigproc').process_fname(fname)

def peaks_of(ts, dp, ranges):
    ts = ts.deredden(dp['rmed_width'], minpts=dp['rmed_minpts']).normalise()
    out = []
    for conf in ranges:
        kw = dict(conf['ffa_search'])
        kw['deredden'] = False
        kw['already_normalised'] = True
        out.extend(find_peaks(ffa_search(ts, **kw)[1], **conf['find_peaks'])[0])
    return out

def ref_presto(dp, ranges, fname):
    return peaks_of(TimeSeries.from_presto_inf(fname), dp, ranges)

def ref_sigproc(dp, ranges, fname):
    return peaks_of(TimeSeries.from_sigproc(fname), dp, ranges)

def drive_candidates(config, files, clusters, fmin, fmax, nchans, fmt):
    p = Pipeline(config)
    p.config = {**config, 'data': {'format': fmt, 'fmin': fmin, 'fmax': fmax, 'nchans': nchans}}
    p.prepare(files)
    p.clusters_filtered = clusters
    p.build_candidates()
    return p.candidates

def prepared_presto(config, fname):
    p = config['dereddening']
    return TimeSeries.from_presto_inf(fname).deredden(p['rmed_width'], minpts=p['rmed_minpts']).normalise()

def prepared_sigproc(config, fname):
    p = config['dereddening']
    return TimeSeries.from_sigproc(fname).deredden(p['rmed_width'], minpts=p['rmed_minpts']).normalise()
'''
TS = 'riptide.time_series.TimeSeries'
OP = tuple(TS + '.' + m for m in ('deredden', 'normalise'))
LOADERS = tuple(TS + '.' + m for m in ('from_presto_inf', 'from_sigproc'))


def run(rep):
    s = Suite(rep, SRC)
    q = 'riptide.search.ffa_search'
    s.fn(q, ['search', 'search_capped'], types={'tseries': TS}, opaque=OP, subject='ffa_search',
         rule='each preparation step once, in order, and every argument in its role')
    for f in ('presto', 'sigproc'):
        op = OP + LOADERS + (q, 'riptide.peak_detection.find_peaks')
        a = s.run(SPEC + '.drive_' + f, opaque=op)
        b = s.run(SPEC + '.ref_' + f, opaque=op)
        where = s.where('riptide.pipeline.worker_pool.WorkerPool.process_fname')
        if a is None:
            rep.undecided('preparation', 'WorkerPool.process_fname', where, s.last_error)
            continue
        s.judge('prepared once with the configured window, searched unprepared', 'WorkerPool.process_fname (%s files)' % f,
                s.value(a), [s.value(b)], where)
        s.judge('no refusal', 'WorkerPool.process_fname (%s files): refusals' % f, a.raise_cond(), [b.raise_cond()], where)


    # candidates
    rule = 'candidates are folded from data prepared as the searched data were'
    where = s.where(pipe.PIPE + '.build_candidates')
    for f in ('presto', 'sigproc'):
        op = pipe.OPAQUE + LOADERS + (pipe.DMI,)
        a = s.run(SPEC + '.drive_candidates', opaque=op, fixed={'fmt': t.const(f)}, types={'clusters': 'list:' + pipe.PC},
                  attr_types=pipe.ATTR_TYPES)
        b = s.run(SPEC + '.prepared_' + f, opaque=op)
        subject = 'Pipeline.build_candidates: time series of a candidate (%s files)' % f
        if a is None:
            rep.undecided(rule, subject, where, s.last_error)
            continue
        cs = pipe.calls_of(s.value(a), pipe.CAND + '.from_pipeline_output')
        if not cs:
            rep.undecided(rule, subject, where, 'no candidate construction found in the result')
        for ts in {dict(c.a[1])['ts'] for c in cs if c.op == 'app'}:
            loads = pipe.calls_of(ts, TS + '.from_presto_inf') + pipe.calls_of(ts, TS + '.from_sigproc')
            names = {dict(c.a[1])['fname'] for c in loads}
            for n in names or {t.mk('param', 'fname')}:
                s.judge(rule, subject, ts, [t.subst(b.ret, {t.mk('param', 'fname'): n})], where)
