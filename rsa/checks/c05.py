"""C05: operations that return a result never modify their inputs."""
import ast

from .. import alias, effects
from .. import terms as t
from ..spec import Suite
from . import pipe

EXPLANATION = (
    'Effect and alias analysis of every function and method of the package: each is evaluated on symbolic inputs with its helpers '
    'inlined, and every store reached (attribute or entry set, mutating method, augmented assignment of an array, out= argument, '
    'in-place numpy routine) is traced to the objects its target may be: a store into a parameter, or into something reachable from '
    'one through attributes, elements, views and conditional aliases, is a violation. Excepted are the constructor filling its own '
    'object, time series methods called with inplace=True, the state of the pipeline object itself and private caches. Writes to '
    'module-level tables, class attributes and mutable default arguments are looked for in every function by a second, '
    'syntax-tree based analysis.')
MINIMUM = 80

SER = 'riptide.serialization'
# documented array parameters: an augmented assignment of one of these writes into the caller's memory
ARRAYS = {'downsample_vertical': ('X',), 'ffa1': ('data',), 'ffa2': ('data',), 'boxcar_snr': ('data', 'widths'), 'downsample': ('data',),
          'running_median': ('x',), 'scrunch': ('data',), 'fast_running_median': ('data',), 'cluster1d': ('x',), 'segment_stats': ('f', 's'),
          'fit_threshold': ('fc', 'tc'), 'find_peaks_single': ('f', 's'), 'select_dms': ('trial_dms',), '__init__': ('data', 'widths', 'periods', 'foldbins', 'snrs', 'subints', 'peaks'),
          'from_numpy_array': ('array', 'data'), 'get_galactic_coordnates': ('metadata_list',), 'infer_band_params': ('metadata_list',),
          'process_fname_list': ('fnames',), 'prepare': ('files',), 'process': ('files',)}
ARRAY_FIELDS = {'data', '_data', 'widths', 'periods', 'foldbins', 'snrs', 'freqs', 'subints', 'profile'}
STATEFUL = {'Pipeline', 'DMIterator', 'WorkerPool', 'PeakCluster'}
CONFIG = {'config', 'deredden_params', 'range_confs', 'METADATA_LOADERS', 'TIMESERIES_LOADERS', 'dmiter', 'worker_pool'}
TYPES = {'ts': pipe.TS, 'tseries': pipe.TS, 'pgram': 'riptide.periodogram.Periodogram', 'peak_cluster': pipe.PC,
         'F': pipe.PEAK, 'H': pipe.PEAK, 'inf': None}
OPAQUE = pipe.OPAQUE + (pipe.DMI, pipe.WP, pipe.PIPE, 'riptide.reading.presto.PrestoInf', 'riptide.reading.sigproc.SigprocHeader',
                        'riptide.reading.presto.inf2dict')
# composed of functions analysed on their own
SKIP = {'riptide.pipeline.pipeline.main', 'riptide.pipeline.pipeline.run_program', pipe.PIPE + '.process'}


def path(p):
    """attribute names from the parameter to the object"""
    out = []
    while p.op != 'param':
        if p.op == 'attr':
            out.append(p.a[1])
        if not (p.a and isinstance(p.a[0], t.T)):
            if p.op in ('call', 'mcall') and isinstance(p.a[1], tuple) and p.a[1] and isinstance(p.a[1][0], t.T):
                p = p.a[1][0]
                continue
            return None, out[::-1]
        p = p.a[0]
    return p.a[0], out[::-1]


def init_attrs(g):
    """attributes that the constructors of the package set"""
    out = set()
    for q, f in g.fns.items():
        if f.node.name in ('__init__', '__new__'):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
    return out


def run(rep):
    s = Suite(rep, '')
    g = effects.Graph(s.prog)
    own = init_attrs(g)
    rule = 'no store into an input'
    seen = 0
    for q, f in sorted(g.fns.items()):
        if '.tests.' in q or '<locals>' in q or '@' in q or q in SKIP or q.startswith('riptide._version'):
            continue
        if f.node.name.startswith('_') and not f.node.name.startswith('__'):
            continue            # helpers are analysed where public functions call them
        nm = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        cls = f.cls and f.cls.rsplit('.', 1)[1]
        types = {n: TYPES[n] for n in nm if TYPES.get(n)}
        fixed = {'inplace': t.FALSE} if 'inplace' in nm else {}
        kinds = [types]
        if q == SER + '.JSONEncoder.default':
            kinds = [types] + [dict(types, obj=c) for c in (pipe.TS, 'riptide.periodogram.Periodogram', pipe.CAND)]
        for ty in kinds:
            subj = q.replace('riptide.', '', 1) + (' of ' + ty['obj'].rsplit('.', 1)[1] if 'obj' in ty and len(kinds) > 1 else '')
            op = tuple(x for x in OPAQUE if x != q and not q.startswith(x + '.__init__'))
            r = s.run(q, types=ty, fixed=fixed, attr_types=pipe.ATTR_TYPES, opaque=op,
                      ret_types={'.loader': pipe.TS, pipe.DMI: pipe.DMI, pipe.WP: pipe.WP}, flags=dict(keep_copies=True))
            if r is None:
                rep.undecided(rule, subj, f.where, s.last_error)
                continue
            seen += 1
            bad = []
            for e, what, kind, cond, p in alias.writes(r):
                root, names = path(p)
                if root == 'self' and nm[:1] == ['self']:
                    if f.node.name == '__init__' and not names:
                        continue
                    if cls in STATEFUL and not set(names) & CONFIG:
                        continue
                    if kind == 'setattr' and not names and cls in STATEFUL:
                        continue
                if kind == 'setattr' and e.data['name'].startswith('_') and e.data['name'] not in own:
                    continue        # private cache
                if root is None and cls in STATEFUL:
                    continue
                if kind == 'aug':
                    ok = names and names[-1] in ARRAY_FIELDS or not names and root in ARRAYS.get(f.node.name, ()) and not isnum(p)
                    if not ok:
                        continue
                bad.append((e.where, what, t.show(p)[:120], t.show(cond)[:200]))
            if bad:
                w, what, tgt, cond = bad[0]
                rep.violated(rule, subj, w, '%s on %s (which may be, or lie in, an argument)\nwhen: %s' % (what, tgt, cond))
            else:
                rep.holds(rule, subj, f.where)
    rule = 'module-level tables, class attributes and default arguments are not modified'
    for q, f in sorted(g.fns.items()):
        if '.tests.' in q or q.startswith('riptide._version'):
            continue
        w = g.shared_writes(f)
        if w:
            rep.violated(rule, q.replace('riptide.', '', 1), '%s:%d' % (f.mod.path, w[0][1].lineno), w[0][0])
        else:
            rep.holds(rule, q.replace('riptide.', '', 1), f.where)


def isnum(p):
    return t.is_num(p)
