"""Shared model of the pipeline class: which public operations stay symbolic, and the types of its fields."""
from .. import terms as t
from ..spec import SPEC, Suite

PIPE = 'riptide.pipeline.pipeline.Pipeline'
PC = 'riptide.pipeline.peak_cluster.PeakCluster'
PEAK = 'riptide.peak_detection.Peak'
TS = 'riptide.time_series.TimeSeries'
WP = 'riptide.pipeline.worker_pool.WorkerPool'
DMI = 'riptide.pipeline.dmiter.DMIterator'
CAND = 'riptide.candidate.Candidate'
STAGES = ('prepare', 'search', 'cluster_peaks', 'flag_harmonics', 'apply_candidate_filters', 'build_candidates', 'save_products')
TSOPS = tuple(TS + '.' + m for m in ('deredden', 'normalise', 'downsample', 'fold'))
ATTR_TYPES = {
    ('Pipeline', 'peaks'): 'list:' + PEAK,
    ('Pipeline', 'clusters'): 'list:' + PC,
    ('Pipeline', 'clusters_filtered'): 'list:' + PC,
    ('Pipeline', 'candidates'): 'list:' + CAND,
    ('Pipeline', 'worker_pool'): WP,
    ('Pipeline', 'dmiter'): DMI,
}
OPAQUE = TSOPS + (CAND + '.from_pipeline_output', PIPE + '.get_search_range', DMI + '.get_filename', DMI + '.tobs_median',
                  DMI + '.tsamp_max', DMI + '.iterate_filenames', WP + '.process_fname_list', WP + '.process_fname',
                  'riptide.pipeline.harmonic_testing.htest', 'riptide.clustering.cluster1d',
                  'riptide.pipeline.config_validation.validate_pipeline_config', 'riptide.pipeline.config_validation.validate_ranges',
                  'riptide.serialization.save_json', 'riptide.serialization.load_json',
                  CAND + '.savefig', PC + '.summary_dict', PC + '.summary_dataframe', PEAK + '.summary_dict',
                  'riptide.pipeline.peak_cluster.clusters_to_dataframe')


t.NEVER_NONE |= {CAND + '.from_pipeline_output', CAND, PC, WP, DMI, TS} | set(TSOPS)


def stage(s, name, **kw):
    """analysis of one stage of the pipeline from an arbitrary state of the pipeline object"""
    kw['ret_types'] = {'.loader': TS, **kw.get('ret_types', {})}
    kw.setdefault('opaque', tuple(o for o in OPAQUE if o != PIPE + '.' + name))
    return s.run(PIPE + '.' + name, attr_types=ATTR_TYPES, **kw)


def refstage(s, name, **kw):
    kw.setdefault('opaque', OPAQUE)
    kw['ret_types'] = {'.loader': TS, **kw.get('ret_types', {})}
    return s.run(SPEC + '.' + name, types={'self': PIPE}, attr_types=ATTR_TYPES, **kw)


def final(r, field, base=None):
    """value of a field of the pipeline after normal completion"""
    base = base or t.mk('param', 'self')
    v = r.state.heap.get((base, field))
    if v is None:
        v = t.attr(base, field)
    x = r.ev.deref(v, r.state)
    rc = r.raise_cond()
    return t.assume(x, t.lnot(rc)) if rc is not t.FALSE else x


def calls_of(x, qual):
    """every symbolic call of a function inside a term, binders opened: [app]"""
    out, seen = [], set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if y.op == 'app' and y.a[0] == qual:
            out.append(y)
        if y.op in t.BINDERS:
            i, outer, inner = t.open_node(y)
            for z in tuple(outer) + tuple(inner):
                if isinstance(z, t.T):
                    go(z)
            return
        for z in t._walk_children(y.a):
            go(z)
    go(x)
    return out
