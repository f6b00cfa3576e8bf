"""Models of the operations the native front end emits: memory, conversions, arrays.

Memory is a log per allocation: the content of a buffer reference is the sequence of its stores, ('e', (offset, value)) items,
collects of such items for loops, and 'fill' items for functions kept opaque. Loads read the log back; what was in memory before the
function started is load(<parameter>, offset).
"""
from . import lib
from . import terms as t
from .terms import mk, num, const, TRUE, FALSE, NONE, ZERO, ONE, EMPTY, land, ite
from .lib import ext


def is_buf(ev, p):
    return p.op == 'ref' and ev.refs[p]['kind'] == 'buf'


def new_buf(ev, origin, size=NONE, dtype=NONE):
    r = ev.new_ref('buf', EMPTY, origin=origin)
    ev.refs[r]['size'] = size
    ev.refs[r]['dtype'] = dtype
    if not hasattr(ev, 'buffers'):
        ev.buffers = []
    ev.buffers.append(r)
    return r


def pointer_of(ev, arr):
    """the data pointer of an array object"""
    if arr.op in ('ref', 'padd') or arr.op == 'ite' and arr.a[1].op in ('ref', 'padd'):
        return arr
    k = ('data', arr)
    if k not in ev.modcache:
        ev.modcache[k] = new_buf(ev, arr, mk('call', 'size', (arr,), ()))
    return ev.modcache[k]


def origin(ev, r):
    i = ev.refs[r]
    return i['origin'] if i['origin'] is not None else mk('call', 'fresh', (i['dtype'],), ())


def log(ev, r, st):
    c = ev.content(r, st)
    return c if c is not None else EMPTY


def lookup(ev, r, c, off):
    """value at an offset of a buffer with log c"""
    if c.op == 'ite':
        return ite(c.a[0], lookup(ev, r, c.a[1], off), lookup(ev, r, c.a[2], off))
    o = origin(ev, r)
    parts = t._parts(c)
    for i in range(len(parts) - 1, -1, -1):
        k, x = parts[i]
        if k == 'e' and x.op == 'fill':
            d = t.sub(off, x.a[0])
            if d is ZERO or i == len(parts) - 1 and len(parts) == 1:
                return mk('load', x.a[1], d)
            return mk('load', x.a[1], d) if not any(kk == 'e' and y.op == 'fill' for kk, y in parts[:i]) else mk('load', mk('mem', o, mk('seq', tuple(parts[:i + 1]))), off)
        if k == 'e' and x.op == 'seq':
            w, v = t.seq_elems(x)
            d = t.sub(off, w)
            if d is ZERO:
                return v
            if t.is_num(d):
                continue
        return mk('load', mk('mem', o, mk('seq', tuple(parts[:i + 1]))), off)
    return mk('load', o, off)


def content(ev, p, st):
    """what a pointer shows, without naming the buffer"""
    if p.op == 'ite':
        return ite(p.a[0], content(ev, p.a[1], st), content(ev, p.a[2], st))
    r, off = t.ptr_split(p)
    if r.op == 'ite':
        return content(ev, t.padd(r, off), st)
    if not is_buf(ev, r):
        return p

    def go(c):
        if c.op == 'ite':
            return ite(c.a[0], go(c.a[1]), go(c.a[2]))
        o = origin(ev, r)
        parts = t._parts(c)
        if parts and parts[-1][0] == 'e' and parts[-1][1].op == 'fill' and parts[-1][1].a[0] is off:
            return parts[-1][1].a[1]
        if not parts:
            return t.padd(o, off)
        return t.padd(mk('mem', o, c), off)
    return go(log(ev, r, st))


def contents(ev, x, st):
    """the same for a value that may hold pointers (objects, tuples)"""
    if x.op == 'ref':
        info = ev.refs[x]
        if info['kind'] == 'buf':
            return content(ev, x, st)
        if info['kind'] == 'inst':
            fields = {f: contents(ev, v, st) for (l, f), v in st.heap.items() if l is x}
            return mk('rec', info['cls'], tuple(sorted(fields.items())))
    if x.op == 'padd':
        return content(ev, x, st)
    if ev.has_ref(x):
        return t.map_children(x, lambda y: contents(ev, y, st))
    return x


def blank(ev, x, st):
    """shape of an output argument: sizes, no content"""
    if x.op == 'ref' and ev.refs[x]['kind'] == 'inst':
        fields = {f: blank(ev, v, st) for (l, f), v in st.heap.items() if l is x}
        return mk('rec', ev.refs[x]['cls'], tuple(sorted(fields.items())))
    if x.op == 'ite' and ev.has_ref(x):
        return mk('const', '<out>')
    if x.op == 'ref' or x.op == 'padd':
        return mk('const', '<out>')
    return x


def pointers(ev, x, st):
    if x.op == 'ref' and ev.refs[x]['kind'] == 'inst':
        return [p for (l, f), v in sorted(st.heap.items(), key=lambda kv: str(kv[0][1])) if l is x for p in pointers(ev, v, st)]
    if x.op == 'ref' and is_buf(ev, x) or x.op == 'padd':
        return [x]
    if x.op == 'ite' and ev.has_ref(x):
        return [x]
    return []


def append(ev, p, item, st, cond=TRUE):
    """item: function offset -> term"""
    if p.op == 'ite':
        append(ev, p.a[1], item, st, land(cond, p.a[0]))
        append(ev, p.a[2], item, st, land(cond, t.lnot(p.a[0])))
        return
    r, off = t.ptr_split(p)
    if r.op == 'ite':
        return append(ev, t.padd(r, off), item, st, cond)
    if not is_buf(ev, r):
        ev.event('wildstore', st, None, pointer=p)
        return
    c = log(ev, r, st)
    kind, x = item(off)
    n = t.seq_append(c, x) if kind == 'e' else t.concat(c, x)
    ev.set_content(r, n if cond is TRUE else ite(cond, n, c), st)


INOUT = ('nth_element', 'partition', 'std_nth_element', 'std_sort')


def app(ev, qual, proto, bound, st, node):
    """a native function kept opaque: reads what its inputs show, fills what its outputs point to"""
    args, outs = [], []
    for nm, ty, kind in proto:
        v = bound.get(nm)
        if v is None:
            continue
        const_ = 'const' in ty.split('*')[0].split('&')[0] or ty.replace('riptide::', '').startswith('ConstBlock')
        if pointers(ev, v, st) and not const_:
            outs.append((nm, v))
            args.append((nm, contents(ev, v, st) if qual.rsplit('.', 1)[-1].split('__')[0] in INOUT else blank(ev, v, st)))
        else:
            args.append((nm, contents(ev, v, st)))
    a = mk('app', qual, tuple(sorted(args)))
    for nm, v in outs:
        for p in pointers(ev, v, st):
            append(ev, p, lambda off: ('e', mk('fill', off, mk('res', a, nm))), st)
    return a


def load(ev, p, k, st, node):
    if p.op == 'ite':
        return ite(p.a[0], load(ev, p.a[1], k, st, node), load(ev, p.a[2], k, st, node))
    if p.op in ('ref', 'padd'):
        r, off = t.ptr_split(p)
        if r.op == 'ite':
            return load(ev, t.padd(r, off), k, st, node)
        if is_buf(ev, r):
            at = t.add(off, k)
            v = lookup(ev, r, log(ev, r, st), at)
            ev.event('load', st, node, root=r, off=at, value=v)
            return v
        if r.op == 'ref':
            return ev.subscript(r, t.add(off, k), st, node)
    return mk('load', ev.deref(p, st), k)


@ext('cxx.load')
def _load(ev, args, kw, st, node, ctx):
    p = pointer_of(ev, args[0]) if args[0].op in ('param', 'attr') else args[0]
    ks = [ev.deref(x, st) for x in args[1:]]
    if len(ks) == 1:
        return load(ev, p, ks[0], st, node)
    ev.event('load', st, node, root=p, off=t.seq(ks), value=NONE)
    return mk('load', ev.deref(p, st), t.seq(ks))


@ext('cxx.store')
def _store(ev, args, kw, st, node, ctx):
    p, v = args[0], ev.deref(args[1], st)
    ks = [ev.deref(x, st) for x in args[2:]]
    k = ks[0] if len(ks) == 1 else t.seq(ks)
    if p.op in ('param', 'attr'):
        p = pointer_of(ev, p)
    if p.op == 'ref' and not is_buf(ev, p):
        ev.setitem(p, k, v, st, node)
        return NONE
    ev.event('store', st, node, pointer=p, off=k, value=v)
    append(ev, p, lambda off: ('e', t.seq([t.add(off, k), v])), st)
    return NONE


@ext('cxx.padd')
def _padd(ev, args, kw, st, node, ctx):
    return t.padd(args[0], ev.deref(args[1], st))


@ext('cxx.pdiff')
def _pdiff(ev, args, kw, st, node, ctx):
    (ra, oa), (rb, ob) = t.ptr_split(args[0]), t.ptr_split(args[1])
    if ra is rb:
        return t.sub(oa, ob)
    return mk('call', 'pdiff', tuple(contents(ev, a, st) for a in args), ())


@ext('cxx.new')
def _new(ev, args, kw, st, node, ctx):
    n = ev.deref(args[0], st)
    r = new_buf(ev, None, n, args[1] if len(args) > 1 else NONE)
    ev.event('alloc', st, node, ref=r, size=n)
    if len(args) > 2:
        fill(ev, r, n, ev.deref(args[2], st), st, node)
    return r


def fill(ev, p, n, v, st, node):
    i = t.fresh_idx()
    ev.event('range', st, node, pointer=p, count=n, write=True)
    append(ev, p, lambda off: ('s', t.collect(n, i, t.seq([t.add(off, i), v]))), st)


@ext('cxx.fill')
def _fill(ev, args, kw, st, node, ctx):
    fill(ev, args[0], ev.deref(args[1], st), ev.deref(args[2], st), st, node)
    return NONE


@ext('cxx.copy')
def _copy(ev, args, kw, st, node, ctx):
    dst, src, n = args[0], args[1], ev.deref(args[2], st)
    i = t.fresh_idx()
    ev.event('range', st, node, pointer=src, count=n, write=False)
    ev.event('range', st, node, pointer=dst, count=n, write=True)
    s = content(ev, src, st)
    b, o = t.ptr_split(s)
    whole = src.op == 'ref' and is_buf(ev, src) and b.op == 'mem' and o is ZERO
    v = load_of(ev, src, i, st, node)
    append(ev, dst, lambda off: ('s', t.collect(n, i, t.seq([t.add(off, i), v]))), st)
    return NONE


def load_of(ev, p, i, st, node):
    n = len(ev.events)
    v = load(ev, p, i, st, node)
    del ev.events[n:]
    return v


@ext('cxx.array')
def _array(ev, args, kw, st, node, ctx):
    shape = ev.deref(args[0], st)
    r = new_buf(ev, None, shape, args[1] if len(args) > 1 else NONE)
    ev.refs[r]['array'] = True
    ev.event('alloc', st, node, ref=r, size=shape)
    return r


@ext('cxx.view')
def _view(ev, args, kw, st, node, ctx):
    ev.event('view', st, node, base=args[0], ndim=args[1] if len(args) > 1 else NONE)
    return args[0]


@ext('cxx.mview')
def _mview(ev, args, kw, st, node, ctx):
    ev.event('view', st, node, base=args[0], ndim=args[1] if len(args) > 1 else NONE)
    ev.event('mutable', st, node, base=args[0])
    return args[0]


@ext('cxx.data')
def _data(ev, args, kw, st, node, ctx):
    ev.event('data', st, node, base=args[0], write=False)
    return data(ev, args, st)


@ext('cxx.mutable_data')
def _mdata(ev, args, kw, st, node, ctx):
    ev.event('data', st, node, base=args[0], write=True)
    return data(ev, args, st)


@ext('cxx.adata')
def _adata(ev, args, kw, st, node, ctx):
    ev.event('data', st, node, base=args[0], write=False, checked=t.seq([ev.deref(x, st) for x in args[1:]]))
    return data(ev, args, st)


@ext('cxx.mutable_adata')
def _madata(ev, args, kw, st, node, ctx):
    ev.event('data', st, node, base=args[0], write=True, checked=t.seq([ev.deref(x, st) for x in args[1:]]))
    return data(ev, args, st)


def data(ev, args, st):
    p = pointer_of(ev, args[0])
    ks = [ev.deref(x, st) for x in args[1:]]
    if all(k is ZERO for k in ks):
        return p
    if len(ks) == 1:
        return t.padd(p, ks[0])
    return t.padd(p, mk('call', 'cell', (t.seq(ks),), ()))


@ext('cxx.length')
def _length(ev, args, kw, st, node, ctx):
    x = args[0]
    if is_buf(ev, x):
        return ev.refs[x]['size']
    return t.length(ev.deref(x, st))


@ext('cxx.begin')
def _begin(ev, args, kw, st, node, ctx):
    return args[0]


@ext('cxx.end')
def _end(ev, args, kw, st, node, ctx):
    return t.padd(args[0], _length(ev, args, kw, st, node, ctx))


@ext('cxx.copyof')
def _copyof(ev, args, kw, st, node, ctx):
    n = _length(ev, args, kw, st, node, ctx)
    r = new_buf(ev, None, n, NONE)
    _copy(ev, [r, args[0], n], {}, st, node, ctx)
    return r


@ext('cxx.f32')
def _f32(ev, args, kw, st, node, ctx):
    x = ev.deref(args[0], st)
    if getattr(ev, 'precise', False) and not t.is_num(x):
        return mk('call', 'f32', (x,), ())
    return x


@ext('cxx.toint')
def _toint(ev, args, kw, st, node, ctx):
    # towards an unsigned type: defined for values >= 0 only, so truncation is floor
    return t.floor(ev.deref(args[0], st))


@ext('cxx.trunc')
def _trunc(ev, args, kw, st, node, ctx):
    x = ev.deref(args[0], st)
    if x.op == 'floor' or t.is_int(x):
        return x
    return t.trunc(x)


@ext('cxx.narrow')
def _narrow(ev, args, kw, st, node, ctx):
    return ev.deref(args[0], st)


@ext('cxx.bool')
def _bool(ev, args, kw, st, node, ctx):
    return args[0]


def declare(ev, name, ann, st, prefix=None):
    """value of a parameter of a native function"""
    p = mk('param', name) if prefix is None else mk('attr', prefix, name)
    if ann in ('cxx_ptru', 'cxx_arru'):
        t.NAT_PTRS.add(p)
    if ann in ('cxx_ptr', 'cxx_ptru'):
        return new_buf(ev, p)
    if ann in ('cxx_uint', 'cxx_int'):
        t.INT_ATOMS.add(p)
        if ann == 'cxx_uint':
            t.NAT_ATOMS.add(p)
        return p
    if ann == 'cxx_f32' and getattr(ev, 'precise', False):
        return mk('call', 'f32', (p,), ())
    if ann and ann.startswith('cxx_class_'):
        info = ev.prog.resolve('riptide.native.' + ann[10:])
        if info is None:
            return p
        cls = info[2]
        init = next((m for m in cls.body if getattr(m, 'name', '') == '__init__'), None)
        if init is None:
            return p
        args = []
        for a in init.args.args[1:]:
            args.append(declare(ev, a.arg, a.annotation.id if a.annotation is not None else None, st, p))
        return ev.instantiate(info[3] if isinstance(info[3], str) else 'riptide.native.' + ann[10:], args, {}, st, cls, ev.cur_ctx)
    return p
