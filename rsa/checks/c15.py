"""C15: every selected DM trial is processed exactly once."""
from .. import terms as t
from ..spec import SPEC, Suite
from . import pipe

EXPLANATION = (
    'The summarised loop of select_dms is checked for an inductive invariant: it starts from the first of the sorted trials that lie '
    'in the range, every further selected trial is the one at a strictly larger index below the number of trials. The state of the '
    'DM iterator after construction (range, cap, table of files by DM, selection) and the chunks it hands out are compared with '
    'reference definitions; the search and the candidate building must go through that iterator.')
MINIMUM = 14

SRC = '''
import numpy as np
from numpy import sin, radians
from riptide import Metadata, TimeSeries
from riptide.pipeline.dmiter import select_dms, infer_band_params, get_galactic_coordnates, get_band_params, DMIterator

def trials(trial_dms, dm_start, dm_end):
    x = np.asarray(trial_dms)
    return np.sort(x[(x >= dm_start) & (x <= dm_end)])

def trials_list(trial_dms, dm_start, dm_end):
    return sorted(x for x in trial_dms if dm_start <= x <= dm_end)

def trials_alias(trial_dms, dm_start, dm_end):
    x = np.sort(np.asarray(trial_dms))
    return x[(x >= dm_start) & (x <= dm_end)]

def init(self, filenames, dm_start, dm_end, dmsinb_max=45.0, fmt='presto', wmin=1.0e-3, fmin=None, fmax=None, nchans=None):
    load = {'sigproc': Metadata.from_sigproc, 'presto': Metadata.from_presto_inf}[fmt]
    self.metadata_list = [load(f) for f in filenames]
    self.dm_start = dm_start if dm_start is not None else min(md['dm'] for md in self.metadata_list)
    self.dm_end = dm_end if dm_end is not None else max(md['dm'] for md in self.metadata_list)
    self.metadata_dict = {md['dm']: md for md in self.metadata_list}
    gl, gb = get_galactic_coordnates(self.metadata_list)
    if dmsinb_max is not None:
        self.dm_end = min(self.dm_end, dmsinb_max / abs(sin(radians(gb))))
    try:
        self.fmin, self.fmax, self.nchans = infer_band_params(self.metadata_list, fmt=fmt)
    except (ValueError, RuntimeError):
        if fmin is None or fmax is None or nchans is None:
            raise ValueError('band')
        self.fmin, self.fmax, self.nchans = fmin, fmax, nchans

def made(filenames, dm_start, dm_end, dmsinb_max, fmt, wmin, fmin, fmax, nchans):
    return DMIterator(filenames, dm_start, dm_end, dmsinb_max=dmsinb_max, fmt=fmt, wmin=wmin, fmin=fmin, fmax=fmax, nchans=nchans)

class Ref(object):
    def __init__(self, filenames, dm_start, dm_end, dmsinb_max=45.0, fmt='presto', wmin=1.0e-3, fmin=None, fmax=None, nchans=None):
        init(self, filenames, dm_start, dm_end, dmsinb_max, fmt, wmin, fmin, fmax, nchans)
        self.selected_dms = select_dms(list(self.metadata_dict.keys()), self.dm_start, self.dm_end, self.fmin, self.fmax,
                                       self.nchans, wmin)

def made_ref(filenames, dm_start, dm_end, dmsinb_max, fmt, wmin, fmin, fmax, nchans):
    return Ref(filenames, dm_start, dm_end, dmsinb_max=dmsinb_max, fmt=fmt, wmin=wmin, fmin=fmin, fmax=fmax, nchans=nchans)

def chunks(self, chunksize=1):
    return list(self.iterate_filenames(chunksize))

def chunks_loop(self, chunksize=1):
    out, chunk = [], []
    for dm in self.selected_dms:
        chunk.append(self.metadata_dict[dm]['fname'])
        if len(chunk) == chunksize:
            out.append(chunk)
            chunk = []
    if chunk:
        out.append(chunk)
    return out

def chunks_slices(self, chunksize=1):
    fn = [self.metadata_dict[dm]['fname'] for dm in self.selected_dms]
    return [fn[i:i + chunksize] for i in range(0, len(fn), chunksize)]

def chunks_dms(self, chunksize=1):
    dms = self.selected_dms
    return [[self.metadata_dict[dm]['fname'] for dm in dms[i:i + chunksize]] for i in range(0, len(dms), chunksize)]

def chunks_until(self, chunksize=1):
    out, chunk = [], []
    for dm in self.selected_dms:
        if len(chunk) == chunksize:
            out.append(chunk)
            chunk = []
        chunk.append(self.metadata_dict[dm]['fname'])
    if chunk:
        out.append(chunk)
    return out

def file_of(self, dm):
    return self.metadata_dict[dm]['fname']

def prepared(self, files):
    self.prepare(files)
    return self.dmiter

def prepared_ref(self, files):
    c = self.config
    return DMIterator(files, c['dmselect']['min'], c['dmselect']['max'], dmsinb_max=c['dmselect']['dmsinb_max'],
                      fmt=c['data']['format'], wmin=self.wmin(), fmin=c['data']['fmin'], fmax=c['data']['fmax'], nchans=c['data']['nchans'])

def searched(self):
    self.search()
    return sorted(self.peaks, key=lambda p: p.period)

def searched_ref(self):
    out = []
    for fnames in self.dmiter.iterate_filenames(chunksize=self.config['processes']):
        out.extend(self.worker_pool.process_fname_list(fnames))
    return sorted(out, key=lambda p: p.period)

def wmin_ref(self):
    return min(r['ffa_search']['period_min'] / r['ffa_search']['bins_min'] for r in self.config['ranges'])

def band(metadata_list, fmt='presto'):
    if not metadata_list:
        raise ValueError('empty')
    p = [get_band_params(md, fmt=fmt) for md in metadata_list]
    if any(x != p[0] for x in p):
        raise RuntimeError('differ')
    return p[0]

def band_of(meta, fmt='presto'):
    if fmt == 'presto':
        a = meta['fbot']
        b = a + meta['nchan'] * meta['cbw']
        return min(a, b), max(a, b), meta['nchan']
    raise ValueError('format')

def galactic(metadata_list):
    p = [(md['skycoord'].galactic.l.deg, md['skycoord'].galactic.b.deg) for md in metadata_list]
    if any(x != p[0] for x in p):
        raise RuntimeError('differ')
    return p[0]
'''
D = 'riptide.pipeline.dmiter.'
FIELDS = ('metadata_list', 'dm_start', 'dm_end', 'metadata_dict', 'selected_dms', 'fmin', 'fmax', 'nchans')
LOADERS = ('riptide.metadata.Metadata.from_sigproc', 'riptide.metadata.Metadata.from_presto_inf')


def least(x, given=0):
    """a constant lower bound of a term, or None"""
    if t.is_num(x):
        return x.a[0]
    if x.op == 'ite':
        a, b = least(x.a[1]), least(x.a[2])
        return None if a is None or b is None else min(a, b)
    if x.op == 'max':
        v = [least(y) for y in x.a[0]]
        v = [y for y in v if y is not None]
        return max(v) if v else None
    if x.op == 'min':
        v = [least(y) for y in x.a[0]]
        return None if None in v else min(v)
    if x.op in ('firsthit', 'len', 'lasthit'):
        return 0
    if x.op == 'poly':
        tot = 0
        for m, c in x.a[0]:
            if not m:
                tot += c
                continue
            if c < 0 or any(e != 1 for f, e in m):
                return None
            v = 1
            for f, e in m:
                w = least(f)
                if w is None or w < 0:
                    return None
                v *= w
            tot += c * v
        return tot
    return None


def push(x, k):
    """x - k with the subtraction pushed inside maxima and conditionals"""
    if x.op == 'ite':
        return t.ite(x.a[0], push(x.a[1], k), push(x.a[2], k))
    if x.op == 'max':
        return t.mk('max', tuple(push(y, k) for y in x.a[0]))
    if x.op == 'min':
        return t.mk('min', tuple(push(y, k) for y in x.a[0]))
    return t.sub(x, k)


def selection(s, rep):
    q = D + 'select_dms'
    where = s.where(q)
    rule = 'first trial in range, then strictly later ones'
    r = s.run(q)
    if r is None:
        rep.undecided(rule, 'select_dms', where, s.last_error)
        return
    argn = s.argnames(q)[0]
    v = s.value(r)
    while v.op == 'arr':
        v = v.a[0]
    if v.op != 'gloop' or v.a[0] is not t.NONE:
        rep.undecided(rule, 'select_dms', where, 'not a summarised while loop: %s' % t.show(v)[:300])
        return
    i, outer, inner = t.open_node(v.a[1])
    la = inner[0]
    xit, stop, vs = la.a[0], la.a[1], la.a[2]
    which = v.a[2]
    which = int(which.a[0])
    init, upd = vs[which]
    depth = max([y.a[0] for z in (upd, stop, xit) for y in t.subterms(z) if y.op == 'lv'] or [1])
    me = [y for y in t.subterms(upd) if y.op == 'lv' and y.a[0] == depth and y.a[1] == which]
    es = t.seq_elems(init)
    # the sequence selected from
    fixed = {a: t.mk('param', b) for a, b in zip(('trial_dms', 'dm_start', 'dm_end'), argn[:3])}
    S = []
    for n in ('trials', 'trials_list', 'trials_alias'):
        x = s.run(SPEC + '.' + n, fixed=fixed)
        S.append(x.ret)
    if es is None or len(es) != 1 or len(me) != 1:
        rep.undecided(rule, 'select_dms: start', where, t.show(init)[:300])
        return
    first = [t.item(x, t.ZERO) for x in S]
    s.judge('the lowest trial within the range comes first', 'select_dms: first trial', es[0], first, where)
    # the appended element
    me = me[0]
    go = upd
    conds = []
    while go.op == 'ite':
        if go.a[1] is me:
            conds.append(t.lnot(go.a[0]))
            go = go.a[2]
        elif go.a[2] is me:
            conds.append(go.a[0])
            go = go.a[1]
        else:
            break
    parts = go.a[0] if go.op == 'seq' else None
    if not parts or len(parts) != 2 or parts[0] != ('s', me) or parts[1][0] != 'e':
        rep.undecided(rule, 'select_dms: step', where, t.show(go)[:400])
        return
    el = parts[1][1]
    if el.op != 'item':
        rep.undecided(rule, 'select_dms: step', where, t.show(el)[:400])
        return
    src, e = el.a
    s.judge('trials are picked from the sorted trials within the range', 'select_dms: source', src, S, where)
    # the index variable that remembers e
    idxs = []
    for k, (a, b) in enumerate(vs):
        if k == which:
            continue
        lv = next((y for y in t.subterms(b) if y.op == 'lv' and y.a[0] == depth and y.a[1] == k), None)
        nb = b
        for c in conds:
            nb = t.assume(nb, c)
        en = e
        for c in conds:
            en = t.assume(en, c)
        if lv is not None and (nb is en or t.equal(nb, en)):
            idxs.append((lv, a))
    if not idxs:
        rep.undecided(rule, 'select_dms: step', where, 'no variable holds the last index')
        return
    lv, start = idxs[0]
    s.judge('the selection continues from the first trial', 'select_dms: start index', start, [t.ZERO], where)
    lo = least(push(e, lv))
    if lo is None or lo < 1:
        rep.violated(rule, 'select_dms: step', where, 'the next index is not above the current one on every path: %s' % t.show(e)[:600]) \
            if lo is not None else rep.undecided(rule, 'select_dms: step', where, t.show(push(e, lv))[:600])
    else:
        rep.holds(rule, 'select_dms: step', where)
    # it stays within the trials
    g = t.land(*conds, t.lnot(stop))
    ok = t.lt(e, t.length(src))
    h = t.assume(ok, g)
    if h is t.TRUE or t.equal(t.land(g, ok), g):
        rep.holds('only available trials are selected', 'select_dms: bound', where)
    else:
        rep.undecided('only available trials are selected', 'select_dms: bound', where, t.show(h)[:400])


def run(rep):
    s = Suite(rep, SRC)
    selection(s, rep)
    op = (D + 'select_dms', D + 'infer_band_params', D + 'get_galactic_coordnates') + LOADERS
    where = s.where(pipe.DMI)
    a, b = s.run(SPEC + '.made', opaque=op), s.run(SPEC + '.made_ref', opaque=op)
    rule = 'range, cap, table of files by DM and selection as documented'
    if a is None:
        rep.undecided(rule, 'DMIterator', where, s.last_error)
    else:
        for f in FIELDS:
            x, y = [r.ev.deref(r.ev.getattr(r.raw, f, r.state, None), r.state) for r in (a, b)]
            x, y = [t.assume(v, t.lnot(r.raise_cond())) for v, r in ((x, a), (y, b))]
            s.judge(rule, 'DMIterator: %s' % f, x, [y], where)
        s.judge(rule, 'DMIterator: refusals', a.raise_cond(), [b.raise_cond()], where)
    ty = {'self': pipe.DMI}
    where = s.where(pipe.DMI + '.iterate_filenames')
    a = s.run(SPEC + '.chunks', types=ty)
    rule = 'each selected trial once, in order, in chunks of the given size and a last shorter one'
    if a is None:
        rep.undecided(rule, 'DMIterator.iterate_filenames', where, s.last_error)
    else:
        s.judge(rule, 'DMIterator.iterate_filenames', s.value(a),
                [s.run(SPEC + '.' + n, types=ty).ret for n in ('chunks_loop', 'chunks_slices', 'chunks_dms', 'chunks_until')], where)
    rule = 'a chunk handed out is not modified afterwards'
    q = pipe.DMI + '.iterate_filenames'
    r = s.run(q)
    if r is not None and any(e.kind == 'yield' for e in r.events):
        for i, e in enumerate(r.events):
            if e.kind == 'yield':
                later = [x for x in r.events[i + 1:] if x.kind in ('mutate', 'setitem') and e.data['raw'].op == 'ref' and x.data['base'] is e.data['raw']
                         and t.land(x.guard, e.guard) is not t.FALSE]
                rep.check(not later, rule, 'DMIterator.iterate_filenames', later[0].where if later else e.where, later and 'the list yielded at %s is changed: .%s()' % (e.where, later[0].data.get('how')))
    s.fn(pipe.DMI + '.get_filename', ['file_of'], subject='DMIterator.get_filename', rule='the file whose header carries that DM')
    s.fn(D + 'infer_band_params', ['band'], subject='infer_band_params', opaque=(D + 'get_band_params',), rule='common band of all inputs')
    s.fn(D + 'get_band_params', ['band_of'], subject='get_band_params', rule='band edges of a header')
    s.fn(D + 'get_galactic_coordnates', ['galactic'], subject='get_galactic_coordnates', rule='common coordinates of all inputs')
    # use by the pipeline
    kw = dict(opaque=pipe.OPAQUE + (pipe.DMI, pipe.WP, pipe.PIPE + '.wmin'), ret_types={pipe.DMI: pipe.DMI, pipe.WP: pipe.WP})
    for n, q, rule in (('prepared', 'prepare', 'the iterator is built from the given files and the configuration'),
                       ('searched', 'search', 'every chunk handed out is searched')):
        where = s.where(pipe.PIPE + '.' + q)
        a = pipe.refstage(s, n, **kw)
        if a is None:
            rep.undecided(rule, 'Pipeline.' + q, where, s.last_error)
        else:
            s.judge(rule, 'Pipeline.' + q, s.value(a), [s.value(pipe.refstage(s, n + '_ref', **kw))], where)
    s.fn(pipe.PIPE + '.wmin', ['wmin_ref'], subject='Pipeline.wmin', rule='narrowest pulse searched')
