"""C14: the pipeline runs its stages in order and validates before searching."""
from .. import terms as t
from ..spec import SPEC, Suite
from . import pipe

EXPLANATION = (
    'The refusals of the range validation are compared with the documented ones. The sequence of stage calls made by '
    'Pipeline.process is extracted with the condition of each call. On the path prepare-search, the condition under which any '
    'worker call is reached must exclude every documented refusal of the ranges against the coarsest input. The list of peaks, the '
    'clusters and the candidates are compared with references that consume the full output of the stage before.')
MINIMUM = 10

SRC = '''
import numpy as np
from riptide.clustering import cluster1d
from riptide.candidate import Candidate
from riptide.pipeline.peak_cluster import PeakCluster
from riptide.pipeline.config_validation import InvalidSearchRange, validate_pipeline_config
from riptide.pipeline.pipeline import Pipeline

def ranges_ref(ranges, tsamp_max):
    for rg in ranges:
        if rg['ffa_search']['bins_min'] * tsamp_max > rg['ffa_search']['period_min']:
            raise InvalidSearchRange('bins')
        if rg['candidates']['bins'] * tsamp_max > rg['ffa_search']['period_min']:
            raise InvalidSearchRange('fold')
    for a, b in zip(ranges[:-1], ranges[1:]):
        if a['ffa_search']['period_max'] != b['ffa_search']['period_min']:
            raise InvalidSearchRange('contiguity')

def ranges_strict(ranges, tsamp_max):
    for rg in ranges:
        if rg['ffa_search']['bins_min'] * tsamp_max > rg['ffa_search']['period_min']:
            raise InvalidSearchRange('bins')
        if rg['candidates']['bins'] * tsamp_max >= rg['ffa_search']['period_min']:
            raise InvalidSearchRange('fold')
    for a, b in zip(ranges[:-1], ranges[1:]):
        if a['ffa_search']['period_max'] != b['ffa_search']['period_min']:
            raise InvalidSearchRange('contiguity')

def coarsest(self):
    return max([md['tsamp'] for md in self.metadata_list])

def made(config):
    return Pipeline(config).config

def from_file(fname):
    return Pipeline.from_yaml_config(fname).config

def validated(config):
    return validate_pipeline_config(config)

def search_path(self, files):
    self.prepare(files)
    self.search()

def prepare_ref(self, files):
    ranges_ref(self.config['ranges'], self.dmiter.tsamp_max())

def prepare_strict(self, files):
    ranges_strict(self.config['ranges'], self.dmiter.tsamp_max())

def found(self):
    self.search()
    return sorted(self.peaks, key=lambda p: p.period)

def found_ref(self):
    out = []
    for fnames in self.dmiter.iterate_filenames(chunksize=self.config['processes']):
        out.extend(self.worker_pool.process_fname_list(fnames))
    return sorted(out, key=lambda p: p.period)

def clustered(self):
    self.clusters = []
    self.search()
    self.cluster_peaks()
    return self.clusters

def clustered_ref(self):
    peaks = found_ref(self)
    if not peaks:
        return []
    ids = cluster1d(np.asarray([p.freq for p in peaks]), self.config['clustering']['radius'] / self.dmiter.tobs_median(), already_sorted=True)
    return [PeakCluster([peaks[i] for i in x]) for x in ids]

def clustered_sorting(self):
    peaks = found_ref(self)
    if not peaks:
        return []
    ids = cluster1d(np.asarray([p.freq for p in peaks]), self.config['clustering']['radius'] / self.dmiter.tobs_median(), already_sorted=False)
    return [PeakCluster([peaks[i] for i in x]) for x in ids]

def built(self):
    self.candidates = []
    self.build_candidates()
    return sorted(self.candidates, key=lambda c: c.params['snr'])

def built_ref(self):
    out = []
    for cl in self.clusters_filtered:
        ts = self.worker_pool.loader(self.dmiter.get_filename(cl.centre.dm))
        ts = ts.deredden(self.config['dereddening']['rmed_width'], minpts=self.config['dereddening']['rmed_minpts']).normalise()
        r = self.get_search_range(cl.centre.period)['candidates']
        out.append(Candidate.from_pipeline_output(ts, cl, r['bins'], subints=r['subints']))
    return sorted(out, key=lambda c: c.params['snr'])
'''
CV = 'riptide.pipeline.config_validation.'



def calm(x):
    """the value when no error occurs on the way"""
    return t.replace(x, lambda y: t.FALSE if y.op == 'raises' else None)


def run(rep):
    s = Suite(rep, SRC)
    s.fn(CV + 'validate_ranges', ['ranges_ref', 'ranges_strict'], parts=('raises',), subject='validate_ranges',
         rule='ranges and candidate folds too fine for the coarsest data, and ranges that do not connect, are refused')
    s.fn(pipe.DMI + '.tsamp_max', ['coarsest'], subject='DMIterator.tsamp_max', rule='coarsest of all inputs')

    # configuration
    where = s.where(pipe.PIPE)
    ref = s.run(SPEC + '.validated', opaque=pipe.OPAQUE)
    a = s.run(SPEC + '.made', opaque=pipe.OPAQUE)
    rule = 'the configuration used is the validated one'
    if a is None:
        rep.undecided(rule, 'Pipeline: configuration', where, s.last_error)
    else:
        s.judge(rule, 'Pipeline: configuration', s.value(a), [s.value(ref)], where)
    a = s.run(SPEC + '.from_file', opaque=pipe.OPAQUE)
    if a is None:
        rep.undecided(rule, 'Pipeline.from_yaml_config', where, s.last_error)
    else:
        v = s.value(a)
        ok = v.op == 'app' and v.a[0] == CV + 'validate_pipeline_config'
        (rep.holds(rule, 'Pipeline.from_yaml_config', where) if ok else
         rep.violated(rule, 'Pipeline.from_yaml_config', where, 'found: ' + t.show(v)) if ok is False and v.op != 'unknown' else
         rep.undecided(rule, 'Pipeline.from_yaml_config', where, t.show(v)))

    # order of the stages
    q = pipe.PIPE + '.process'
    where = s.where(q)
    names = [pipe.PIPE + '.' + n for n in pipe.STAGES]
    r = s.run(q, opaque=tuple(names))
    rule = 'prepare, search, cluster, flag, filter, build, save: each once, unconditionally, in this order'
    if r is None:
        rep.undecided(rule, 'Pipeline.process', where, s.last_error)
    else:
        ev = [e for e in r.events if e.kind == 'call' and e.data.get('name') in names]
        seq = [e.data['name'].rsplit('.', 1)[1] for e in ev]
        plain = all(e.guard is t.TRUE and not e.loops and not e.tries for e in ev)
        if seq == list(pipe.STAGES) and plain:
            rep.holds(rule, 'Pipeline.process: order', where)
        elif not seq:
            rep.undecided(rule, 'Pipeline.process: order', where, 'no stage call found')
        elif set(seq) != set(pipe.STAGES) and any(e.kind == 'call' and str(e.data.get('name')).startswith(pipe.PIPE) for e in r.events if e not in ev):
            rep.undecided(rule, 'Pipeline.process: order', where, 'stages of other names')
        else:
            rep.violated(rule, 'Pipeline.process: order', ev[0].where, 'calls: ' + ', '.join(
                n + ('' if e.guard is t.TRUE and not e.loops and not e.tries else ' (conditional)') for n, e in zip(seq, ev)))
        for e in ev:
            b = dict(e.data.get('bound') or {})
            for stage, arg, val in (('prepare', 'files', 'files'), ('save_products', 'outdir', 'outdir')):
                if e.data['name'].endswith('.' + stage) and arg in b:
                    s.judge('the files given are processed, products go to the directory given', 'Pipeline.process: %s of %s' % (arg, stage),
                            r.ev.deref(b[arg], r.state), [t.mk('param', val)], where)

    # validation before the search
    where = s.where(pipe.PIPE + '.prepare')
    op = tuple(o for o in pipe.OPAQUE if o != CV + 'validate_ranges') + (pipe.DMI, pipe.WP, pipe.PIPE + '.wmin')
    kw = dict(opaque=op, ret_types={pipe.DMI: pipe.DMI, pipe.WP: pipe.WP})
    r = pipe.refstage(s, 'search_path', **kw)
    rule = 'no time series is searched unless every range passed validation against the coarsest input'
    if r is None:
        rep.undecided(rule, 'Pipeline.prepare, Pipeline.search', where, s.last_error)
    else:
        work = [e for e in r.events if e.kind == 'call' and e.data.get('name') in (pipe.WP + '.process_fname_list', pipe.WP + '.process_fname')]
        if not work:
            rep.undecided(rule, 'Pipeline.prepare, Pipeline.search', where, 'no worker call found')
        dmi = r.ev.deref(r.state.heap.get((t.mk('param', 'self'), 'dmiter'), t.NONE), r.state)
        refs = [pipe.refstage(s, n, fixed={}, **kw) for n in ('prepare_ref', 'prepare_strict')]
        old = t.attr(t.mk('param', 'self'), 'dmiter')
        conds = [t.subst(x.raise_cond(), {old: dmi}) for x in refs]
        got = t.lor(*[c for c, n in r.raises if n == 'InvalidSearchRange'])
        s.judge(rule, 'Pipeline.prepare: refusals', got, conds, where)
        for e in work:
            x = t.assume(e.guard, conds[0])
            if got is not t.FALSE and t.equal(t.land(e.guard, t.lnot(got)), e.guard):
                rep.holds(rule, 'Pipeline.search: worker call', e.where)
            else:
                rep.violated(rule, 'Pipeline.search: worker call', e.where, 'reached when: %s' % t.show(e.guard)[:400])

    for n, refs, q, rule, exact in (
            ('found', ['found_ref'], 'search', 'all peaks of all chunks', 1),
            ('clustered', ['clustered_ref', 'clustered_sorting'], 'cluster_peaks', 'clusters of all peaks found', 1),
            ('built', ['built_ref'], 'build_candidates', 'one candidate for each cluster that passed the filters', 1)):
        where = s.where(pipe.PIPE + '.' + q)
        a = pipe.refstage(s, n)
        if a is None:
            rep.undecided(rule, 'Pipeline.%s' % q, where, s.last_error)
            continue
        rs = [pipe.refstage(s, x) for x in refs]
        s.judge(rule, 'Pipeline.%s: output' % q, calm(s.value(a)), [calm(s.value(x)) for x in rs], where)
