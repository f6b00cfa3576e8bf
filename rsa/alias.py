"""Which inputs the target of a store may share memory with."""
from . import terms as t

# functions whose result is (or may be) a view of their first argument
VIEWS = {'np.reshape', 'np.transpose', 'np.ravel', 'np.squeeze', 'np.swapaxes', 'np.moveaxis', 'np.atleast_1d', 'np.atleast_2d',
         'np.broadcast_to', 'np.asanyarray', 'np.asfarray', 'np.diagonal', 'np.flip', 'np.ascontiguousarray', 'np.asarray', 'np.require',
         'np.lib.stride_tricks.as_strided', 'np.expand_dims', 'np.split', 'np.array_split', 'np.frombuffer', 'memoryview', 'iter', 'next',
         'reversed', 'min', 'max', 'getattr', 'vars'}
VIEW_METHODS = {'reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze', 'diagonal', 'get', 'values', 'items', 'setdefault', '__getitem__', 'pop'}
WRAP = {'maybeview', 'slice', 'reversed', 'contig', 'arr', 'enumerate', 'sorted_by', 'sorted', 'values', 'items', 'filter'}
IN_PLACE_CALLS = {'np.copyto': 0, 'np.put': 0, 'np.place': 0, 'np.putmask': 0, 'np.fill_diagonal': 0, 'np.random.shuffle': 0, 'random.shuffle': 0,
                  'setattr': 0, 'delattr': 0, 'np.put_along_axis': 0, 'heapq.heapify': 0, 'np.add.at': 0, 'np.random.default_rng().shuffle': 0}

# methods that change their receiver
MUTATORS = {'sort', 'fill', 'resize', 'put', 'itemset', 'setflags', 'setfield', 'byteswap', 'pop', 'popitem', 'reverse', 'clear', 'insert', 'remove',
            'append', 'extend', 'update', 'setdefault', 'add', 'discard', '__setitem__', '__delitem__', '__setattr__', '__iadd__', 'appendleft'}
# ... and those of which only the in-place form does
INPLACE_ARG = {'byteswap'}


def changes(name, args, kwargs):
    if name in INPLACE_ARG:
        v = kwargs.get('inplace', args[0] if args else None)
        return v is not None and v is not t.FALSE
    if name in MUTATORS:
        return True
    v = kwargs.get('inplace')
    return v is t.TRUE


def roots(x, seen=None):
    """[(condition, path)] of the inputs an object may be or lie in; a path is a parameter, or attributes/elements of one"""
    if x.op in ('param',):
        return [(t.TRUE, x)]
    if x.op in ('attr', 'item'):
        return [(c, x if p is x.a[0] or True else p) for c, p in roots(x.a[0])] if isinstance(x.a[0], t.T) else []
    if x.op == 'ite':
        return [(t.land(x.a[0], c), p) for c, p in roots(x.a[1])] + [(t.land(t.lnot(x.a[0]), c), p) for c, p in roots(x.a[2])]
    if x.op == 'call' and x.a[0] in VIEWS and x.a[1]:
        return roots(x.a[1][0])
    if x.op == 'mcall' and x.a[0] in VIEW_METHODS:
        return roots(x.a[1][0])
    if x.op == 'maybeview' and x.a[0].op == 'cast':
        # a conversion without a copy returns an array that already has the type itself
        return roots(x.a[0].a[0])
    if x.op == 'call' and x.a[0] == 'np.nan_to_num' and dict(x.a[2]).get('copy', t.TRUE) is not t.TRUE:
        return roots(x.a[1][0])
    if x.op in WRAP and isinstance(x.a[0], t.T):
        return roots(x.a[0])
    if x.op in ('elem', 'at'):
        return roots(x.a[0]) if isinstance(x.a[0], t.T) else []
    return []


def base_param(p):
    while p.op in ('attr', 'item'):
        p = p.a[0]
    while p.op not in ('param',) and p.a and isinstance(p.a[0], t.T):
        p = p.a[0]
    return p


def writes(r):
    """stores into objects that may belong to an input: [(where, what, condition, path, number_possible)]"""
    out = []
    for e in r.events:
        targets = []
        if e.kind in ('setattr', 'setitem', 'mutate', 'aug'):
            b = e.data['base']
            targets.append((b, {'setattr': 'attribute %s set' % e.data.get('name'), 'setitem': 'entry set', 'mutate': '.%s()' % e.data.get('how'),
                                'aug': 'augmented assignment'}[e.kind], e.kind))
        elif e.kind == 'call':
            kw = e.data.get('kwargs') or {}
            kw = dict(kw) if not isinstance(kw, dict) else kw
            o = kw.get('out')
            if o is not None:
                for y in (t.seq_elems(o) or [o]) if isinstance(o, t.T) else []:
                    targets.append((y, 'out= of %s' % e.data['name'], 'out'))
            n = e.data['name']
            if n.startswith('.') and e.data.get('recv') is not None and changes(n[1:], e.data['args'], kw):
                targets.append((e.data['recv'], n + '()', 'call'))
            if n == 'np.nan_to_num' and e.data['args'] and kw.get('copy', t.TRUE) is not t.TRUE:
                targets.append((e.data['args'][0], n + ' without a copy', 'call'))
            if n in IN_PLACE_CALLS and e.data['args']:
                targets.append((e.data['args'][IN_PLACE_CALLS[n]], n, 'call'))
        for b, what, kind in targets:
            if not isinstance(b, t.T):
                continue
            for y in (b,) if b.op == 'ref' else (b,):
                for c, p in roots(y if y.op != 'ref' else t.NONE):
                    g = t.land(e.guard, c)
                    if g is not t.FALSE:
                        out.append((e, what, kind, g, p))
    return out
