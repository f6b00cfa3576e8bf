"""C16: search results do not depend on the number of processes."""
import ast

from .. import terms as t
from ..effects import Graph
from ..spec import SPEC, Suite
from . import pipe

EXPLANATION = (
    'The results of WorkerPool.process_fname_list and process_fname, as functions of an arbitrary file list, settings and range list, '
    'are compared with their definitions (concatenation in file order, then range order); the pool must be closed and joined after '
    'its use. On the call graph from the worker function, no function may write module-level, class-level or default-argument state, '
    'use a clock or random value outside log messages, or write a file; the worker function itself may not modify the object it '
    'belongs to.')
MINIMUM = 12

SRC = '''
import multiprocessing
from riptide import TimeSeries, ffa_search, find_peaks
from riptide.pipeline.worker_pool import WorkerPool

def peaks_of(self, fname):
    ts = self.loader(fname).deredden(self.deredden_params['rmed_width'], minpts=self.deredden_params['rmed_minpts']).normalise()
    out = []
    for conf in self.range_confs:
        kw = dict(conf['ffa_search'])
        kw.update({'deredden': False, 'already_normalised': True})
        __, pgram = ffa_search(ts, **kw)
        peaks, __ = find_peaks(pgram, **conf['find_peaks'])
        out.extend(peaks)
    return out

def all_peaks(self, fnames):
    return [p for f in fnames for p in self.process_fname(f)]

def made(deredden_params, range_confs, processes, fmt):
    return WorkerPool(deredden_params, range_confs, processes=processes, fmt=fmt)

class Ref(object):
    def __init__(self, deredden_params, range_confs, processes=1, fmt='presto'):
        self.deredden_params = deredden_params
        self.range_confs = range_confs
        self.loader = {'sigproc': TimeSeries.from_sigproc, 'presto': TimeSeries.from_presto_inf}[fmt]
        self.processes = int(processes)

def made_ref(deredden_params, range_confs, processes, fmt):
    return Ref(deredden_params, range_confs, processes=processes, fmt=fmt)

def prepared(self, files):
    self.prepare(files)
    return self.worker_pool

def prepared_ref(self, files):
    return WorkerPool(self.config['dereddening'], self.config['ranges'], processes=self.config['processes'],
                      fmt=self.config['data']['format'])
'''
LOADERS = ('riptide.time_series.TimeSeries.from_sigproc', 'riptide.time_series.TimeSeries.from_presto_inf')
SEARCH = ('riptide.search.ffa_search', 'riptide.peak_detection.find_peaks')


def base_root(x):
    while x.op in ('attr', 'item'):
        x = x.a[0]
    return x


def run(rep):
    s = Suite(rep, SRC)
    W = {'self': pipe.WP}
    # the worker function
    q = pipe.WP + '.process_fname'
    where = s.where(q)
    kw = dict(opaque=pipe.TSOPS + SEARCH, ret_types={'.loader': pipe.TS})
    act, sp = s.fn(q, ['peaks_of'], subject='WorkerPool.process_fname', rule='all peaks of every range, in range order', parts=('ret',), **kw)
    if act is not None:
        me = t.mk('param', 'self')
        for e in act.events:
            if e.kind == 'call' and e.data['name'] == SEARCH[0]:
                a = dict(e.data['value'].a[1]) if e.data['value'].op == 'app' else {}
                carried = [y for v in a.values() if isinstance(v, t.T) for y in t.subterms(v) if y.op in ('lstate', 'phi', 'gloop')]
                rule = 'the search of a range does not depend on the ranges before it'
                if carried:
                    rep.violated(rule, 'WorkerPool.process_fname: arguments of the search', e.where, t.show(e.data['value'])[:600])
                else:
                    rep.holds(rule, 'WorkerPool.process_fname: arguments of the search', e.where)
        bad = [e for e in act.events if e.kind in ('setattr', 'setitem', 'mutate', 'aug') and e.data.get('base') is not None
               and base_root(act.ev.deref(e.data['base'], act.state)) is me]
        for e in bad:
            rep.violated('the worker leaves no trace for the next file', 'WorkerPool.process_fname: state', e.where,
                         '%s of %s' % (e.kind, t.show(act.ev.deref(e.data['base'], act.state))))
        if not bad:
            rep.holds('the worker leaves no trace for the next file', 'WorkerPool.process_fname: state', where)

    # the pool
    q = pipe.WP + '.process_fname_list'
    where = s.where(q)
    op = (pipe.WP + '.process_fname',)
    act, sp = s.fn(q, ['all_peaks'], subject='WorkerPool.process_fname_list', rule='all peaks of every file, in file order', parts=('ret',), opaque=op)
    if act is not None:
        maps = [k for k, e in enumerate(act.events) if e.kind == 'call' and e.data['name'] == 'pool.map']
        made = [e for e in act.events if e.kind == 'call' and str(e.data['name']).endswith(('.Pool', '.ThreadPool', 'PoolExecutor'))]
        rule = 'the pool is closed and joined before its results are used'
        if not made:
            rep.undecided(rule, 'WorkerPool.process_fname_list: pool', where, 'no pool found')
        else:
            last = max(maps) if maps else -1
            for m in ('.close', '.join'):
                es = [e for k, e in enumerate(act.events) if e.kind == 'call' and e.data['name'] == m and k > last and e.guard is t.TRUE]
                if es:
                    rep.holds(rule, 'WorkerPool.process_fname_list: %s' % m[1:], es[0].where)
                elif any(e.kind == 'exit' or 'with' in str(e.kind) for e in act.events):
                    rep.undecided(rule, 'WorkerPool.process_fname_list: %s' % m[1:], where, 'pool used as a context manager')
                else:
                    rep.violated(rule, 'WorkerPool.process_fname_list: %s' % m[1:], where, 'no unconditional %s() after the work is done' % m[1:])

    # construction
    where = s.where(pipe.WP)
    a, b = s.run(SPEC + '.made', opaque=LOADERS), s.run(SPEC + '.made_ref', opaque=LOADERS)
    rule = 'the pool holds the settings it is given'
    if a is None:
        rep.undecided(rule, 'WorkerPool', where, s.last_error)
    else:
        for f in ('deredden_params', 'range_confs', 'loader', 'processes'):
            x, y = [r.ev.deref(r.ev.getattr(r.raw, f, r.state, None), r.state) for r in (a, b)]
            s.judge(rule, 'WorkerPool: %s' % f, x, [y], where)
    where = s.where(pipe.PIPE + '.prepare')
    kw = dict(opaque=pipe.OPAQUE + (pipe.DMI, pipe.WP, pipe.PIPE + '.wmin'), ret_types={pipe.DMI: pipe.DMI, pipe.WP: pipe.WP})
    a = pipe.refstage(s, 'prepared', **kw)
    rule = 'the pool is built from the configuration'
    if a is None:
        rep.undecided(rule, 'Pipeline.prepare', where, s.last_error)
    else:
        s.judge(rule, 'Pipeline.prepare: worker pool', s.value(a), [s.value(pipe.refstage(s, 'prepared_ref', **kw))], where)

    # effects of everything a worker can call
    g = Graph(s.prog)
    roots = [pipe.WP + '.process_fname']
    reach = sorted(g.reachable(roots))
    rep.consulted |= set(reach)
    for rule, scan in (('no shared mutable state', 'shared_writes'), ('no clock or randomness in results', 'nondeterminism'),
                       ('no file is written', 'file_writes')):
        n = 0
        for fq in reach:
            for d, node in getattr(g, scan)(g.fns[fq]):
                n += 1
                rep.violated(rule, '%s: %s' % (fq.replace('riptide.', '', 1), d), '%s:%d' % (g.fns[fq].mod.path, node.lineno),
                             'reachable from %s' % roots[0])
        if not n:
            rep.holds(rule, '%d functions reachable from the worker' % len(reach), where)
    for fq in reach:
        m = g.memo(g.fns[fq])
        if m:
            sub = g.reachable([fq])
            if any(g.reads_files(g.fns[x]) for x in sub if x in g.fns):
                rep.violated('no shared mutable state', '%s: results kept by %s' % (fq.replace('riptide.', '', 1), m), g.fns[fq].where, 'file contents are cached')
            else:
                rep.undecided('no shared mutable state', fq, g.fns[fq].where, 'memoised by %s' % m)
