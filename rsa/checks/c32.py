"""C32: each candidate is folded with the settings of its own period range."""
from .. import terms as t
from ..spec import SPEC, Suite
from . import pipe

EXPLANATION = (
    'The normal form of Pipeline.get_search_range is compared with the definition of the containing range (lower bound included, '
    'upper excluded, clamped at both ends). In the normal form of the candidate list, every symbolic candidate construction is '
    'extracted together with its arguments: bins and sub-integrations must come from the range of the period of the centre of that '
    'same cluster, and the time series from the file of the DM of that centre. Candidate.from_pipeline_output is compared with '
    'the reference construction.')
MINIMUM = 9

SRC = '''
from riptide.candidate import Candidate
from riptide.pipeline.pipeline import Pipeline

def by_max(self, period):
    rs = sorted(self.config['ranges'], key=lambda r: r['ffa_search']['period_max'])
    if period < min(r['ffa_search']['period_min'] for r in rs):
        return dict(rs[0])
    if period >= max(r['ffa_search']['period_max'] for r in rs):
        return dict(rs[-1])
    for r in rs:
        if r['ffa_search']['period_min'] <= period < r['ffa_search']['period_max']:
            return dict(r)

def by_min(self, period):
    rs = sorted(self.config['ranges'], key=lambda r: r['ffa_search']['period_min'])
    if period < min(r['ffa_search']['period_min'] for r in rs):
        return dict(rs[0])
    if period >= max(r['ffa_search']['period_max'] for r in rs):
        return dict(rs[-1])
    for r in rs:
        if r['ffa_search']['period_min'] <= period < r['ffa_search']['period_max']:
            return dict(r)

def ends_max(self, period):
    rs = sorted(self.config['ranges'], key=lambda r: r['ffa_search']['period_max'])
    if period < rs[0]['ffa_search']['period_min']:
        return dict(rs[0])
    if period >= rs[-1]['ffa_search']['period_max']:
        return dict(rs[-1])
    for r in rs:
        if r['ffa_search']['period_min'] <= period < r['ffa_search']['period_max']:
            return dict(r)

def ends_min(self, period):
    rs = sorted(self.config['ranges'], key=lambda r: r['ffa_search']['period_min'])
    if period < rs[0]['ffa_search']['period_min']:
        return dict(rs[0])
    if period >= rs[-1]['ffa_search']['period_max']:
        return dict(rs[-1])
    for r in rs:
        if r['ffa_search']['period_min'] <= period < r['ffa_search']['period_max']:
            return dict(r)

def range_of(self, cl):
    c = self.get_search_range(cl.centre.period)['candidates']
    return c['bins'], c['subints']

def file_of(self, cl):
    return self.dmiter.get_filename(cl.centre.dm)

def params(ts, cl, bins, subints):
    c = cl.centre
    if subints is not None and subints * c.period >= ts.length:
        subints = None
    x = ts.fold(c.period, bins, subints=subints)
    return Candidate(c.summary_dict(), ts.metadata, cl.summary_dataframe(), x)

def params_strict(ts, cl, bins, subints):
    c = cl.centre
    if subints is not None and subints * c.period > ts.length:
        subints = None
    x = ts.fold(c.period, bins, subints=subints)
    return Candidate(c.summary_dict(), ts.metadata, cl.summary_dataframe(), x)

def params_count(ts, cl, bins, subints):
    c = cl.centre
    if subints is not None and subints > int(ts.length / c.period):
        subints = None
    x = ts.fold(c.period, bins, subints=subints)
    return Candidate(c.summary_dict(), ts.metadata, cl.summary_dataframe(), x)

def made(ts, cl, bins, subints):
    return Candidate.from_pipeline_output(ts, cl, bins, subints=subints)

def made_default(ts, cl, bins):
    return Candidate.from_pipeline_output(ts, cl, bins)

def default_ref(ts, cl, bins):
    return Candidate.from_pipeline_output(ts, cl, bins, 1)
'''


def run(rep):
    s = Suite(rep, SRC)
    q = pipe.PIPE + '.get_search_range'
    s.fn(q, ['by_max', 'by_min', 'ends_max', 'ends_min'], subject='Pipeline.get_search_range',
         rule='the range containing the period, clamped at both ends')

    # arguments of each candidate construction
    where = s.where(pipe.PIPE + '.build_candidates')
    r = pipe.stage(s, 'build_candidates')
    rule = 'settings of the range of the period of the centre of the same cluster'
    if r is None:
        rep.undecided(rule, 'Pipeline.build_candidates', where, s.last_error)
    else:
        cs = pipe.calls_of(pipe.final(r, 'candidates'), pipe.CAND + '.from_pipeline_output')
        if not cs:
            rep.undecided(rule, 'Pipeline.build_candidates', where, 'no candidate construction found in the result')
        done = set()
        for c in cs:
            a = dict(c.a[1])
            C = a['peak_cluster']
            k = (t.show(C), t.show(a['bins'], 99), t.show(a['subints'], 99))
            if k in done:
                continue
            done.add(k)
            rr = s.run(SPEC + '.range_of', fixed={'cl': C}, types={'self': pipe.PIPE, 'cl': pipe.PC}, opaque=pipe.OPAQUE,
                       attr_types=pipe.ATTR_TYPES)
            bins, sub = t.seq_elems(rr.ret)
            s.judge(rule, 'Pipeline.build_candidates: phase bins', a['bins'], [bins], where)
            s.judge(rule, 'Pipeline.build_candidates: sub-integrations', a['subints'], [sub], where)
            fr = s.run(SPEC + '.file_of', fixed={'cl': C}, types={'self': pipe.PIPE, 'cl': pipe.PC}, opaque=pipe.OPAQUE,
                       attr_types=pipe.ATTR_TYPES)
            got = [x for x in pipe.calls_of(a['ts'], pipe.DMI + '.get_filename')]
            if not got:
                rep.undecided('data of the DM trial of that peak', 'Pipeline.build_candidates: input file', where, t.show(a['ts'])[:300])
            for g in set(got):
                s.judge('data of the DM trial of that peak', 'Pipeline.build_candidates: input file', g, [fr.ret], where)

    # the candidate itself
    q = pipe.CAND + '.from_pipeline_output'
    where = s.where(q)
    op = tuple(o for o in pipe.OPAQUE if o != q)
    ty = {'ts': pipe.TS, 'cl': pipe.PC}
    a = s.run(SPEC + '.made', types=ty, opaque=op)
    refs = [s.run(SPEC + '.' + n, types=ty, opaque=op) for n in ('params', 'params_strict', 'params_count')]
    rule = 'parameters of the brightest peak, data and metadata of the time series, table of all peaks'
    if a is None:
        rep.undecided(rule, 'Candidate.from_pipeline_output', where, s.last_error)
        return
    for f in ('params', 'tsmeta', 'peaks', 'subints'):
        def field(r):
            v = r.ev.getattr(r.raw, f, r.state, None) if hasattr(r, 'raw') else dict(s.value(r).a[1]).get(f)
            return v
        s.judge(rule, 'Candidate.from_pipeline_output: %s' % f, field(a), [field(x) for x in refs], where)
    s.judge(rule, 'Candidate.from_pipeline_output: refusals', a.raise_cond(), [refs[0].raise_cond()], where)
    b, c = s.run(SPEC + '.made_default', types=ty, opaque=op), s.run(SPEC + '.default_ref', types=ty, opaque=op)
    s.judge('one sub-integration by default', 'Candidate.from_pipeline_output: default', s.value(b), [s.value(c)], where)
