"""C19: the pipeline saves every result it found, once, under its own name."""
import re

from .. import terms as t
from .. import lib
from ..spec import SPEC, Suite, close
from . import pipe

EXPLANATION = (
    'Candidate building followed by product writing is analysed from an arbitrary state of the pipeline. Every table, JSON and plot '
    'writing effect (path, contents, loop over candidates, condition) is compared with reference effects: one row per peak, cluster '
    'and candidate, file number = rank by decreasing S/N, plots only when enabled, all paths inside the requested directory. Row '
    'definitions are compared with the documented columns. The construction of a candidate must lie in a handler for Exception inside '
    'the loop over clusters, and no error of it may leave or stop that loop.')
MINIMUM = 14

SRC = '''
import os
import pandas
from riptide.candidate import Candidate
from riptide.serialization import save_json
from riptide.pipeline.peak_cluster import clusters_to_dataframe

def products(self, outdir):
    self.candidates = []
    self.build_candidates()
    self.save_products(outdir)

def cands(self):
    out = []
    for cl in self.clusters_filtered:
        ts = self.worker_pool.loader(self.dmiter.get_filename(cl.centre.dm))
        ts = ts.deredden(self.config['dereddening']['rmed_width'], minpts=self.config['dereddening']['rmed_minpts']).normalise()
        r = self.get_search_range(cl.centre.period)['candidates']
        out.append(Candidate.from_pipeline_output(ts, cl, r['bins'], subints=r['subints']))
    return sorted(out, key=lambda c: c.params['snr'], reverse=True)

def peaks_csv(self, outdir):
    pandas.DataFrame.from_dict([p.summary_dict() for p in self.peaks]).to_csv(os.path.join(outdir, 'peaks.csv'), sep=',', index=False)

def clusters_csv(self, outdir):
    clusters_to_dataframe(self.clusters).to_csv(os.path.join(outdir, 'clusters.csv'), sep=',', index=False)

def cands_csv(self, outdir):
    cs = cands(self)
    if cs:
        pandas.DataFrame.from_dict([c.params for c in cs]).to_csv(os.path.join(outdir, 'candidates.csv'), sep=',', index=False)

def cands_csv_always(self, outdir):
    cs = cands(self)
    pandas.DataFrame.from_dict([c.params for c in cs]).to_csv(os.path.join(outdir, 'candidates.csv'), sep=',', index=False)

def json_files(self, outdir):
    for rank, c in enumerate(cands(self)):
        save_json(os.path.join(outdir, f'candidate_{rank:04d}.json'), c)

def plots(self, outdir):
    for rank, c in enumerate(cands(self)):
        if self.config['plot_candidates']:
            c.savefig(os.path.join(outdir, f'candidate_{rank:04d}.png'))

def peak_row(self):
    return {'period': self.period, 'freq': self.freq, 'dm': self.dm, 'width': self.width, 'ducy': self.ducy, 'snr': self.snr}

def cluster_row(self):
    h = self.parent_fundamental is not None
    return {**self.centre.summary_dict(), 'npeaks': len(self), 'rank': self.rank,
            'hfrac_num': self.hfrac.numerator if h else 0, 'hfrac_denom': self.hfrac.denominator if h else 0,
            'fundamental_rank': self.parent_fundamental.rank if h else self.rank}

def members(self):
    return pandas.DataFrame.from_dict([p.summary_dict() for p in self])

def table(clusters):
    cs = sorted(clusters, key=lambda c: c.centre.snr, reverse=True)
    df = pandas.DataFrame.from_dict([c.summary_dict() for c in cs])
    return df[['rank', 'period', 'dm', 'snr', 'ducy', 'freq', 'npeaks', 'hfrac_num', 'hfrac_denom', 'fundamental_rank']]

def table_asis(clusters):
    df = pandas.DataFrame.from_dict([c.summary_dict() for c in clusters])
    return df[['rank', 'period', 'dm', 'snr', 'ducy', 'freq', 'npeaks', 'hfrac_num', 'hfrac_denom', 'fundamental_rank']]
'''
NEUTRAL = {'float_format', 'sep', 'chunksize', 'encoding', 'mode'}


def norm(x):
    """forget construction variants that give the same table or the same directory, and errors on the way"""
    def f(y):
        if y.op == 'raises':
            return t.FALSE
        if y.op == 'call' and y.a[0] in ('os.path.realpath', 'os.path.abspath') and len(y.a[1]) == 1:
            return y.a[1][0]
        if y.op == 'call' and y.a[0] in ('pandas.DataFrame', 'pandas.DataFrame.from_records') and len(y.a[1]) == 1 and not (len(y.a) > 2 and y.a[2]):
            return t.mk('call', 'pandas.DataFrame.from_dict', *y.a[1:])
        if y.op == 'mcall' and y.a[0] == 'to_csv':
            return t.mk('mcall', y.a[0], y.a[1], tuple((k, v) for k, v in y.a[2] if k not in NEUTRAL))
        return None
    return t.replace(x, f)


def run(rep):
    s = Suite(rep, SRC)
    # rows
    rule = 'rows have the documented columns'
    s.fn(pipe.PEAK + '.summary_dict', ['peak_row'], rule=rule, parts=('ret',))
    at = dict(attr_types={('PeakCluster', 'parent_fundamental'): pipe.PC, ('PeakCluster', 'centre'): pipe.PEAK})
    s.fn(pipe.PC + '.summary_dict', ['cluster_row'], rule=rule, parts=('ret',), opaque=(pipe.PEAK + '.summary_dict',))
    op = dict(opaque=(pipe.PEAK + '.summary_dict', pipe.PC + '.summary_dict'))
    for q, refs in ((pipe.PC + '.summary_dataframe', ['members']), ('riptide.pipeline.peak_cluster.clusters_to_dataframe', ['table', 'table_asis'])):
        ty = dict(types={'self': 'list:' + pipe.PEAK}) if q.endswith('summary_dataframe') else dict(types={'clusters': 'list:' + pipe.PC})
        act, sp = s.pair(q, refs, **op, **(ty if 'clusters' in ty['types'] else {}))
        subj = q.replace('riptide.', '', 1)
        if act is None:
            rep.undecided(rule, subj, s.where(q), s.last_error)
        else:
            s.judge(rule, subj, norm(s.value(act)), [norm(s.value(x)) for x in sp], s.where(q))

    # products
    where = s.where(pipe.PIPE + '.save_products')
    act = pipe.refstage(s, 'products')
    rule = 'every result is written once, under its own name'
    me = t.mk('param', 'self')
    given = t.land(t.truth(t.attr(me, 'peaks')), t.truth(t.attr(me, 'clusters')))
    if act is None:
        rep.undecided(rule, 'Pipeline.save_products', where, s.last_error)
    else:
        def select(pred):
            def f(e):
                if e.kind == 'call' and isinstance(e.data.get('value'), t.T) and pred(e):
                    return e.data['value']
                return None
            return f

        def payloads(r, pred):
            out = []
            for e in r.events:
                if e.kind == 'call' and isinstance(e.data.get('value'), t.T) and pred(e):
                    out.append((norm(t.assume(close(e, r.ev.deref(e.data['value'], r.state)), given)), e))
            return out

        csv = lambda name: lambda e: e.data['name'] == '.to_csv' and any(y.op == 'const' and y.a[0] == name for x in e.data['args'] for y in t.subterms(x))
        js = lambda e: e.data['name'] == 'riptide.serialization.save_json'
        fig = lambda e: str(e.data['name']).endswith('.savefig')
        for subj, pred, refs in (('peaks.csv', csv('peaks.csv'), ['peaks_csv']), ('clusters.csv', csv('clusters.csv'), ['clusters_csv']),
                                 ('candidates.csv', csv('candidates.csv'), ['cands_csv', 'cands_csv_always']),
                                 ('candidate JSON files', js, ['json_files']), ('candidate plots', fig, ['plots'])):
            got = payloads(act, pred)
            if not got:
                anyw = [e for e in act.events if e.kind == 'call' and str(e.data.get('name')).split('.')[-1] in ('to_csv', 'write', 'dump', 'savefig', 'save')]
                if subj.endswith('.csv') and any(not any(y.op == 'const' and str(y.a[0]).endswith('.csv') for x in e.data['args'] for y in t.subterms(x)) for e in anyw
                                                 if e.data['name'] == '.to_csv'):
                    rep.undecided(rule, subj, where, 'table names are computed')
                else:
                    rep.violated(rule, subj, where, 'it is never written')
                continue
            rs = [pipe.refstage(s, n) for n in refs]
            if len(got) > 1:
                rep.undecided(rule, subj, got[0][1].where, 'written at %d places' % len(got)) if any(
                    s_decide(g[0], [p for r in rs for p, e in payloads(r, lambda e: True)]) != 'violated' for g in got) else \
                    rep.violated(rule, subj, got[0][1].where, 'written at %d places' % len(got))
                continue
            want = [payloads(r, pred)[0][0] for r in rs]
            s.judge(rule, subj, got[0][0], want, got[0][1].where)
        # the processes that write the products are waited for
        for k, e in enumerate(act.events):
            if e.kind != 'call' or e.data['name'] != 'pool.async':
                continue
            later = [x for x in act.events[k + 1:] if x.kind == 'exit' and lib.is_pool(act.ev.deref(x.data['base'], act.state)) or
                     x.kind == 'call' and x.data['name'] in ('pool.get', '.wait', '.join', '.terminate')]
            first = later[0] if later else None
            if first is None:
                rep.violated(rule, 'Pipeline.save_products: products are waited for', e.where, 'nothing waits for the processes that write them')
            elif first.kind == 'exit' or first.data['name'] == '.terminate':
                rep.violated(rule, 'Pipeline.save_products: products are waited for', first.where, 'the processes are stopped before they have written them')
            elif first.guard is not t.TRUE and first.guard is not e.guard:
                rep.undecided(rule, 'Pipeline.save_products: products are waited for', first.where, 'under a condition')
            else:
                rep.holds(rule, 'Pipeline.save_products: products are waited for', first.where)
        # precision of the tables
        for e in act.events:
            if e.kind == 'call' and e.data['name'] == '.to_csv':
                kw = dict(e.data['kwargs'])
                f = kw.get('float_format')
                m = re.match(r'%\.(\d+)[fge]$', f.a[0]) if f is not None and f.op == 'const' and isinstance(f.a[0], str) else None
                if m and int(m.group(1)) < 9:
                    rep.violated('tables keep nine decimals', t.show(e.data['args'][0])[-40:], e.where, 'float_format %s' % f.a[0])
                else:
                    rep.holds('tables keep nine decimals', t.show(e.data['args'][0])[-40:], e.where)
                sep = kw.get('sep')
                rep.check(sep is None or sep is t.mk('const', ','), 'tables are comma separated', t.show(e.data['args'][0])[-40:], e.where, 'sep %s' % (sep and t.show(sep)))

        # failure isolation
        rule = 'a candidate that cannot be built does not lose the others'
        w2 = s.where(pipe.PIPE + '.build_candidates')
        calls = [e for e in act.events if e.kind == 'call' and str(e.data['name']).endswith('Candidate.from_pipeline_output')]
        if not calls:
            rep.undecided(rule, 'Pipeline.build_candidates', w2, 'construction not found')
        for e in calls:
            ok = [x for x in e.tries if (not x[0] or set(x[0]) & {'Exception', 'BaseException'}) and x[3] == len(e.loops)]
            if ok:
                rep.holds(rule, 'Pipeline.build_candidates: handler', e.where)
            elif not e.loops:
                rep.undecided(rule, 'Pipeline.build_candidates: handler', e.where, 'no loop over clusters')
            else:
                rep.violated(rule, 'Pipeline.build_candidates: handler', e.where, 'no handler for Exception inside the loop over clusters'
                             if not e.tries else 'handlers: %s' % ['%s at %s' % (x[0], x[1][0].rsplit('/', 1)[-1]) for x in e.tries])
        def build(x):
            # the construction itself, not a later call that is given its result
            if not isinstance(x, t.T):
                return isinstance(x, tuple) and any(build(y) for y in x)
            if x.op in ('app', 'call', 'mcall'):
                return x.op == 'app' and str(x.a[0]).endswith('from_pipeline_output')
            return any(build(y) for y in x.a)
        def outer(x):
            if not isinstance(x, t.T):
                return isinstance(x, tuple) and any(outer(y) for y in x)
            if x.op == 'raises':
                return any(build(y) for y in x.a)
            return x.op not in ('app', 'call', 'mcall') and any(outer(y) for y in x.a)
        bad = [(c, n) for c, n in act.raises if outer(c)]
        rep.check(not bad, rule, 'Pipeline.build_candidates: no error leaves', w2, bad and 'raises %s' % bad[0][1])
        v = pipe.final(act, 'candidates')
        stops = [y for y in t.subterms(v) if y.op in ('firsthit', 'lasthit', 'gloop') and any(z.op == 'raises' and build(z) for z in t.subterms(y))]
        if stops and stops[0].op == 'gloop':
            rep.undecided(rule, 'Pipeline.build_candidates: the loop goes on', w2, t.show(stops[0])[:300])
        else:
            rep.check(not stops, rule, 'Pipeline.build_candidates: the loop goes on', w2, stops and t.show(stops[0])[:300])


def s_decide(x, refs):
    from ..spec import decide
    return 'holds' if any(decide(x, [r])[0] == 'holds' for r in refs) else 'violated'
